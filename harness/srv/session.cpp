// C03: framing (base_protocol_channel) and LSP sessions (dispatcher + request manager + lsp::server)
#include <sstream>
#include <streambuf>
#include "base_protocol_channel.h"
#include "dispatcher.h"
#include "json_channel.h"
#include "lsp/lsp_server.h"
#include "request_manager.h"
#include "stream_helper.h"
#include "vp_run.h"
#include "workspace_manager.h"

using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
namespace {
// delivers the bytes in pieces of the given sizes
class chunked final : public std::streambuf
{
    std::string data;
    std::vector<size_t> sizes;
    size_t pos = 0, k = 0;
    int_type underflow() override
    {
        if (pos >= data.size())
            return traits_type::eof();
        size_t n = sizes.empty() ? data.size() : sizes[k++ % sizes.size()];
        n = std::min(n, data.size() - pos);
        setg(data.data() + pos, data.data() + pos, data.data() + pos + n);
        pos += n;
        return traits_type::to_int_type(*gptr());
    }

public:
    chunked(std::string d, std::vector<size_t> s)
        : data(std::move(d))
        , sizes(std::move(s))
    {}
};
std::string bytes(const vp::json& a)
{
    std::string s;
    for (auto& b : a)
        s.push_back((char)b.get<int>());
    return s;
}
vp::json bytes(const std::string& s)
{
    vp::json a = vp::json::array();
    for (unsigned char c : s)
        a.push_back((int)c);
    return a;
}
vp::reg rf("frame", [](const vp::json& c) {
    chunked buf(bytes(c["in"]), c["chunks"].get<std::vector<size_t>>());
    std::istream in(&buf);
    newline_is_space::imbue_stream(in);
    std::ostringstream out;
    base_protocol_channel ch(in, out);
    vp::json got = vp::json::array();
    while (got.size() < 1000)
    {
        auto m = ch.read();
        if (!m)
            break;
        got.push_back(bytes(m->dump()));
        ch.write(*m);
    }
    return vp::json { { "got", got }, { "out", bytes(out.str()) } };
});
std::string frame(const std::string& b) { return "Content-Length: " + std::to_string(b.size()) + "\r\n\r\n" + b; }
vp::reg rs("session", [](const vp::json& c) {
    std::string all;
    for (auto& m : c["msgs"])
        all += frame(m.get<std::string>());
    chunked buf(all, { 7, 64, 3 });
    std::istream in(&buf);
    newline_is_space::imbue_stream(in);
    std::ostringstream out;
    int ret;
    {
        std::atomic<bool> cancel = false;
        parser_library::workspace_manager ws(&cancel);
        base_protocol_channel ch(in, out);
        request_manager rm(&cancel, c["async"].get<bool>() ? request_manager::async_policy::ASYNC : request_manager::async_policy::SYNC);
        {
            lsp::server srv(ws);
            dispatcher d(json_channel_adapter(ch, ch), srv, rm);
            ret = d.run_server_loop();
        }
        rm.end_worker();
    }
    // decode the output
    std::string o = out.str();
    size_t p = 0;
    bool framed = true;
    vp::json resp = vp::json::array();
    while (p < o.size())
    {
        const std::string h = "Content-Length: ";
        size_t e = o.find("\r\n\r\n", p);
        if (o.compare(p, h.size(), h) != 0 || e == std::string::npos)
        {
            framed = false;
            break;
        }
        size_t n = std::stoul(o.substr(p + h.size(), e - p - h.size()));
        auto b = json::parse(o.substr(e + 4, n), nullptr, false);
        p = e + 4 + n;
        if (b.is_discarded() || p > o.size())
        {
            framed = false;
            break;
        }
        const bool res = b.contains("result"), err = b.contains("error");
        if (res || err || (b.contains("id") && !b.contains("method")))
            resp.push_back({ { "id", b.contains("id") ? b["id"].dump() : "" }, { "k", res && !err ? "result" : err && !res ? "error" : "odd" } });
    }
    return vp::json { { "resp", resp }, { "ret", ret }, { "framed", framed } };
});
} // namespace
