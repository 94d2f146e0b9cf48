// C02: request_manager under a scripted schedule. The servers block in message_received until released.
#include <atomic>
#include <chrono>
#include <condition_variable>
#include <mutex>
#include <thread>
#include "request_manager.h"
#include "server.h"
#include "vp_run.h"
#include "workspace_manager.h"

using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
namespace {
struct board
{
    std::mutex m;
    std::condition_variable cv;
    std::thread::id fin_thread;
    int run = 0, run_srv = 0, frun = 0; // request in the worker / in the finishing thread
    bool rel_w = false, rel_f = false, overlap = false;
    std::vector<int> done, started;
    std::vector<std::pair<int, bool>> start_flag;
    bool fin_active = false, free_run = false;
    int fin_srv = 0;
};
class gate_server final : public server
{
public:
    board& b;
    int no;
    std::atomic<bool>& cancel;
    gate_server(parser_library::workspace_manager& w, board& b, int no, std::atomic<bool>& c)
        : server(w)
        , b(b)
        , no(no)
        , cancel(c)
    {}
    void message_received(const json& msg) override
    {
        int id = msg["id"].get<int>();
        std::unique_lock l(b.m);
        b.started.push_back(id);
        b.start_flag.emplace_back(id, cancel.load());
        const bool f = std::this_thread::get_id() == b.fin_thread;
        int& slot = f ? b.frun : b.run;
        bool& rel = f ? b.rel_f : b.rel_w;
        if (slot != 0)
            b.overlap = true;
        slot = id;
        if (!f)
            b.run_srv = no;
        b.cv.notify_all();
        b.cv.wait(l, [&] { return rel || b.free_run; });
        rel = false;
        slot = 0;
        if (!f)
            b.run_srv = 0;
        b.done.push_back(id);
        b.cv.notify_all();
    }
    void request(const json&, const std::string&, const json&, method) override {}
    void respond(const json&, const std::string&, const json&) override {}
    void notify(const std::string&, const json&) override {}
    void respond_error(const json&, const std::string&, int, const std::string&, const json&) override {}
};
json msg_of(const vp::json& r)
{
    json m { { "id", r["id"] } };
    if (r["k"] != "none")
        m["method"] = r["k"] == "open" ? "textDocument/didOpen" : r["k"] == "edit" ? "textDocument/didChange" : r["k"] == "close" ? "textDocument/didClose" : r["k"] == "query" ? "textDocument/hover" : "workspace/other";
    if (r["f"] != "")
        m["params"] = { { "textDocument", { { "uri", r["f"] } } } };
    return m;
}
vp::reg r("reqq", [](const vp::json& c) {
    using namespace std::chrono_literals;
    board b;
    std::atomic<bool> cancel = false;
    parser_library::workspace_manager ws;
    gate_server s1(ws, b, 1, cancel), s2(ws, b, 2, cancel);
    server* srv[3] = { nullptr, &s1, &s2 };
    vp::json obs = vp::json::array();
    bool stuck = false;
    {
        request_manager rm(&cancel);
        std::thread fin;
        size_t added = 0;
        auto quiet = [&] {
            std::unique_lock l(b.m);
            auto stable = [&] {
                if (b.fin_active)
                    return b.frun != 0 || (b.run != 0 && b.run_srv == b.fin_srv);
                return b.run != 0 || b.started.size() == added;
            };
            b.cv.wait_for(l, 3s, stable);
            if (b.fin_active && b.frun == 0)
            { // the finishing thread has to keep waiting
                l.unlock();
                std::this_thread::sleep_for(25ms);
                l.lock();
            }
        };
        auto snap = [&] {
            std::unique_lock l(b.m);
            vp::json o;
            o["run"] = b.run;
            o["frun"] = b.frun;
            o["cancel"] = cancel.load();
            o["fin"] = b.fin_active;
            o["done"] = b.done;
            vp::json sf = vp::json::array();
            for (auto& [i, f] : b.start_flag)
                sf.push_back({ { "id", i }, { "c", f } });
            o["flags"] = sf;
            obs.push_back(o);
        };
        for (auto& s : c["steps"])
        {
            const std::string a = s["a"];
            if (a == "add")
            {
                ++added;
                rm.add_request(srv[s["s"].get<int>()], msg_of(s));
            }
            else if (a == "rel" || a == "relf")
            {
                std::unique_lock l(b.m);
                int was = a == "rel" ? b.run : b.frun;
                (a == "rel" ? b.rel_w : b.rel_f) = true;
                b.cv.notify_all();
                b.cv.wait_for(l, 3s, [&] { return !b.done.empty() && std::find(b.done.begin(), b.done.end(), was) != b.done.end(); });
            }
            else if (a == "fin")
            {
                std::unique_lock l(b.m);
                b.fin_active = true;
                b.fin_srv = s["s"];
                if (fin.joinable())
                    fin.join();
                fin = std::thread([&, n = b.fin_srv] {
                    {
                        std::unique_lock l(b.m);
                        b.fin_thread = std::this_thread::get_id();
                    }
                    rm.finish_server_requests(srv[n]);
                    std::unique_lock l(b.m);
                    b.fin_active = false;
                    // executed by the finishing thread
                    b.cv.notify_all();
                });
            }
            quiet();
            snap();
        }
        // drain
        {
            std::unique_lock l(b.m);
            b.free_run = true;
            b.cv.notify_all();
            stuck = !b.cv.wait_for(l, 5s, [&] { return !b.fin_active && b.run == 0 && b.frun == 0 && b.started.size() >= added; });
        }
        if (fin.joinable())
            fin.join();
        rm.end_worker();
    }
    return vp::json { { "obs", obs }, { "final", b.done }, { "overlap", b.overlap }, { "stuck", stuck } };
});
// free running producers: everything is executed once, in the order of each producer, one at a time
class count_server final : public server
{
public:
    std::vector<std::array<int, 2>> log;
    std::atomic<int> inside = 0;
    bool overlap = false;
    explicit count_server(parser_library::workspace_manager& w)
        : server(w)
    {}
    void message_received(const json& m) override
    {
        if (inside++ != 0)
            overlap = true;
        log.push_back({ m["p"].get<int>(), m["n"].get<int>() });
        --inside;
    }
    void request(const json&, const std::string&, const json&, method) override {}
    void respond(const json&, const std::string&, const json&) override {}
    void notify(const std::string&, const json&) override {}
    void respond_error(const json&, const std::string&, int, const std::string&, const json&) override {}
};
vp::reg r2("reqstress", [](const vp::json& c) {
    using namespace std::chrono_literals;
    std::atomic<bool> cancel = false;
    parser_library::workspace_manager ws;
    count_server s(ws);
    const int P = c["p"], N = c["n"];
    bool fin = c["fin"];
    {
        request_manager rm(&cancel);
        std::vector<std::thread> t;
        for (int p = 1; p <= P; ++p)
            t.emplace_back([&, p] {
                for (int i = 1; i <= N; ++i)
                    rm.add_request(&s, json { { "p", p }, { "n", i }, { "method", "textDocument/didChange" }, { "params", { { "textDocument", { { "uri", "f" + std::to_string(i % 2) } } } } } });
            });
        for (auto& x : t)
            x.join();
        if (fin)
            rm.finish_server_requests(&s);
        else
            for (int i = 0; i < 2000 && rm.is_running(); ++i)
                std::this_thread::sleep_for(1ms);
        if (!fin)
            rm.finish_server_requests(&s);
        rm.end_worker();
    }
    vp::json l = vp::json::array();
    for (auto& e : s.log)
        l.push_back({ { "p", e[0] }, { "n", e[1] } });
    return vp::json { { "log", l }, { "overlap", s.overlap } };
});
} // namespace
