// C04: client messages routed to the language server and to debug sessions, composed as in main.cpp
#include <condition_variable>
#include <mutex>
#include <sstream>
#include <thread>
#include "base_protocol_channel.h"
#include "dap/dap_session_manager.h"
#include "dispatcher.h"
#include "json_queue_channel.h"
#include "lsp/lsp_server.h"
#include "message_router.h"
#include "request_manager.h"
#include "scope_exit.h"
#include "vp_run.h"
#include "workspace_manager.h"

using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
namespace {
const std::string tunnel(dap::broadcom_tunnel_method);
// what reaches the client
class client final : public json_sink
{
public:
    std::mutex m;
    std::condition_variable cv;
    std::ostringstream text;
    std::istringstream none;
    base_protocol_channel ch { none, text };
    std::vector<vp::json> log;
    void got(const nlohmann::json& j)
    {
        vp::json o = { { "c", "other" } };
        try
        {
            if (j.contains("method") && j.at("method").get<std::string>().rfind(tunnel + "/", 0) == 0)
            {
                const auto& p = j.at("params");
                o = { { "c", j.at("method").get<std::string>().substr(tunnel.size() + 1) }, { "seq", p.value("seq", -1) }, { "t", p.value("type", "") } };
                if (p.value("type", "") == "event")
                    o["cmd"] = p.value("event", ""), o["rs"] = 0, o["n"] = 0;
                else
                {
                    o["cmd"] = p.value("command", "");
                    o["rs"] = p.at("request_seq");
                    o["n"] = p.contains("body") && p["body"].is_object() && p["body"].contains("breakpoints") ? (int)p["body"]["breakpoints"].size() : 0;
                }
            }
            else if (j.contains("result") || j.contains("error"))
                o = { { "c", "lsp" }, { "rs", j.at("id") } };
        }
        catch (const std::exception& e)
        {
            o["c"] = std::string("odd:") + e.what();
        }
        std::lock_guard g(m);
        if (o["c"] != "other")
            log.push_back(o);
        cv.notify_all();
    }
    bool wait(const vp::json& c, const vp::json& rs)
    {
        std::unique_lock l(m);
        return cv.wait_for(l, std::chrono::seconds(20), [&]() {
            for (auto& o : log)
                if (o["c"] == c && o.value("rs", vp::json(0)) == rs)
                    return true;
            return false;
        });
    }
    void write(const nlohmann::json& j) override
    {
        ch.write(j);
        got(j);
    }
    void write(nlohmann::json&& j) override
    {
        nlohmann::json k = j;
        ch.write(std::move(j));
        got(k);
    }
};
vp::reg rd("dap", [](const vp::json& c) {
    client out;
    bool stuck = false;
    {
        std::atomic<bool> cancel = false;
        parser_library::workspace_manager ws(&cancel);
        json_queue_channel lsp_queue;
        message_router router(&lsp_queue);
        std::thread lsp([&]() {
            request_manager rm(&cancel);
            scope_exit e([&]() { rm.end_worker(); });
            lsp::server srv(ws);
            dispatcher d(json_channel_adapter(lsp_queue, out), srv, rm);
            d.run_server_loop();
        });
        {
            dap::session_manager sm(ws, out);
            router.register_route(sm.get_filtering_predicate(), sm);
            for (auto& s : c["steps"])
            {
                const std::string a = s["a"];
                vp::json m;
                if (a == "wait")
                {
                    if (!stuck)
                        stuck = !out.wait(s["s"], s["q"]);
                    continue;
                }
                if (a == "reg")
                    m = { { "jsonrpc", "2.0" }, { "method", tunnel }, { "params", std::stoull(s["s"].get<std::string>()) } };
                else if (a == "dap")
                {
                    const std::string cmd = s["cmd"];
                    vp::json p = { { "seq", s["q"] }, { "type", "request" }, { "command", cmd } };
                    if (cmd == "initialize")
                        p["arguments"] = { { "linesStartAt1", true }, { "columnsStartAt1", true }, { "pathFormat", "path" } };
                    else if (cmd == "setBreakpoints")
                    {
                        vp::json b = vp::json::array();
                        for (int i = 0; i < s["n"].get<int>(); ++i)
                            b.push_back({ { "line", i + 1 } });
                        p["arguments"] = { { "source", { { "path", "/nowhere/x" } } }, { "breakpoints", b } };
                    }
                    else if (cmd == "notype")
                        p["type"] = "event";
                    else if (cmd == "noseq")
                    {
                        p["command"] = "threads";
                        p.erase("seq");
                    }
                    else if (cmd == "badargs")
                    {
                        p["command"] = "setBreakpoints";
                        p["arguments"] = vp::json::object();
                    }
                    m = { { "jsonrpc", "2.0" }, { "method", tunnel + "/" + s["s"].get<std::string>() }, { "params", p } };
                }
                else if (a == "lsp")
                    m = { { "jsonrpc", "2.0" }, { "id", s["q"] }, { "method", "textDocument/hover" }, { "params", { { "textDocument", { { "uri", "file:///nowhere/y" } } }, { "position", { { "line", 0 }, { "character", 0 } } } } } };
                else
                    m = s["m"];
                if (s.value("mv", false))
                    router.write(nlohmann::json(m));
                else
                    router.write(static_cast<const nlohmann::json&>(m));
            }
        }
        lsp_queue.terminate();
        lsp.join();
    }
    // the byte stream carries exactly what was written
    std::string o = out.text.str();
    size_t p = 0, k = 0;
    bool framed = true;
    while (p < o.size() && framed)
    {
        const std::string h = "Content-Length: ";
        size_t e = o.find("\r\n\r\n", p);
        framed = o.compare(p, h.size(), h) == 0 && e != std::string::npos;
        if (!framed)
            break;
        size_t n = std::stoul(o.substr(p + h.size(), e - p - h.size()));
        framed = e + 4 + n <= o.size() && !nlohmann::json::parse(o.substr(e + 4, n), nullptr, false).is_discarded();
        p = e + 4 + n;
        ++k;
    }
    return vp::json { { "log", out.log }, { "stuck", stuck }, { "framed", framed && k >= out.log.size() } };
});
} // namespace
