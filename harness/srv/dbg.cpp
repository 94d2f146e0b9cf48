// C14: the macro debugger driven through the debug adapter's requests
#include <condition_variable>
#include <filesystem>
#include <fstream>
#include <mutex>
#include <thread>
#include "dap/dap_feature.h"
#include "vp_run.h"
#include "vp_sched.h"
#include "workspace_manager.h"

using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
namespace fs = std::filesystem;
namespace {
class adapter final : public response_provider
{
public:
    std::mutex m;
    std::condition_variable cv;
    int stops = 0, exits = 0, terms = 0;
    json body; // of the last response
    int responses = 0;
    void request(const json&, const std::string&, const json&, method) override {}
    void respond(const json&, const std::string&, const json& a) override { body = a, ++responses; }
    void notify(const std::string& n, const json&) override
    {
        std::lock_guard g(m);
        stops += n == "stopped";
        exits += n == "exited";
        terms += n == "terminated";
        cv.notify_all();
    }
    void respond_error(const json&, const std::string&, int, const std::string&, const json&) override { body = json(); }
    // waits for an event that was not seen yet
    std::string next(int s, int e, int secs)
    {
        std::unique_lock l(m);
        if (!cv.wait_for(l, std::chrono::seconds(secs), [&]() { return stops > s || exits > e; }))
            return "hang";
        return exits > e ? "exit" : "stop";
    }
};
struct session
{
    adapter a;
    std::atomic<bool> cancel = false;
    parser_library::workspace_manager ws { &cancel };
    dap::dap_feature f { ws, a, nullptr };
};
using dap_fn = void (dap::dap_feature::*)(const json&, const json&);
vp::reg rd("dbg", [](const vp::json& c) {
    const std::string root = fs::absolute("case" + std::to_string(c["id"].get<int>())).lexically_normal().string();
    fs::remove_all(root);
    fs::create_directories(root + "/.hlasmplugin");
    fs::create_directories(root + "/lib");
    auto put = [&](const std::string& f, const std::string& t) { std::ofstream(root + "/" + f, std::ios::binary) << t; };
    put(".hlasmplugin/pgm_conf.json", R"({"pgms":[{"program":"PROG","pgroup":"G"}]})");
    put(".hlasmplugin/proc_grps.json", R"({"pgroups":[{"name":"G","libs":["lib"]}]})");
    put("PROG", c["src"]);
    for (auto& [n, t] : c["libs"].items())
        put("lib/" + n, t);
    auto rel = [&](const std::string& p) { return p.rfind(root + "/", 0) == 0 ? p.substr(root.size() + 1) : p; };
    auto* s = new session;
    auto& f = s->f;
    auto& a = s->a;
    int id = 0;
    int base = c.value("base", 0);
    auto req = [&](dap_fn fn, json args) {
        a.body = json();
        (f.*fn)(json(++id), args);
        return a.body;
    };
    s->ws.add_workspace("W", root.c_str());
    s->ws.did_open_file((root + "/PROG").c_str(), 1, c["src"].get_ref<const std::string&>().c_str(), c["src"].get_ref<const std::string&>().size());
    req(&dap::dap_feature::on_initialize, { { "linesStartAt1", base == 1 }, { "columnsStartAt1", false }, { "pathFormat", "path" } });
    auto setbp = [&](const vp::json& b) {
        vp::json l = vp::json::array();
        for (auto& x : b["l"])
            l.push_back({ { "line", x.get<int>() + base } });
        req(&dap::dap_feature::on_set_breakpoints, { { "source", { { "path", root + "/" + b["f"].get<std::string>() } } }, { "breakpoints", l } });
    };
    std::function<void(const json&, const std::string&, vp::json&, int)> vars = [&](const json& ref, const std::string& pre, vp::json& out, int d) {
        json v = req(&dap::dap_feature::on_variables, { { "variablesReference", ref } });
        if (!v.contains("variables"))
            return;
        for (auto& x : v["variables"])
        {
            std::string n = pre + x["name"].get<std::string>();
            out.push_back({ { "n", n }, { "v", x["value"] }, { "t", x.value("type", "") } });
            if (d < 4 && x["variablesReference"] != 0)
                vars(x["variablesReference"], n + "/", out, d + 1);
        }
    };
    auto look = [&]() {
        vp::json fr = vp::json::array();
        json st = req(&dap::dap_feature::on_stack_trace, json());
        if (!st.contains("stackFrames"))
            return fr;
        for (auto& x : st["stackFrames"])
        {
            vp::json o = { { "n", x["name"] }, { "f", rel(x["source"]["path"].get<std::string>()) }, { "l", x["line"].get<int>() - base }, { "el", x["endLine"].get<int>() - base } };
            json sc = req(&dap::dap_feature::on_scopes, { { "frameId", x["id"] } });
            o["g"] = o["v"] = o["s"] = vp::json::array();
            if (sc.contains("scopes"))
                for (auto& y : sc["scopes"])
                    vars(y["variablesReference"], "", o[y["name"] == "Globals" ? "g" : y["name"] == "Locals" ? "v" : "s"], 0);
            fr.push_back(o);
        }
        return fr;
    };
    for (auto& b : c["bps"])
        setbp(b);
    vp::json obs = vp::json::array();
    bool hang = false, gone = false;
    int es = 0, ee = 0;
    auto wait = [&]() {
        std::string e = a.next(es, ee, c.value("wait", 15));
        if (e == "hang")
            hang = true;
        if (e == "stop")
            ++es;
        if (e == "exit")
            ++ee;
        return e;
    };
    vp::sched_delay(c.value("delay", 0));
    auto launch = [&]() { req(&dap::dap_feature::on_launch, { { "program", root + "/PROG" }, { "stopOnEntry", c["entry"].get<int>() == 1 } }); };
    auto command = [&](const vp::json& k) {
        const std::string q = k["a"];
        if (q == "bp")
            setbp(k);
        else if (q == "launch")
            launch();
        else if (q == "look")
            look();
        else
            req(q == "next" ? &dap::dap_feature::on_next : q == "in" ? &dap::dap_feature::on_step_in : &dap::dap_feature::on_continue, json());
    };
    auto disconnect = [&]() {
        // watched from another thread: a disconnect that does not return is a hang
        auto done = std::make_shared<std::atomic<bool>>(false);
        std::thread t([done, s]() {
            s->f.on_disconnect(json(0), json());
            *done = true;
        });
        for (int i = 0; i < 1500 && !*done; ++i)
            std::this_thread::sleep_for(std::chrono::milliseconds(i < 20 ? 1 : 10));
        if (*done)
            t.join();
        else
            t.detach(), hang = true;
        gone = true;
    };
    for (auto& k : c["pre"])
        command(k);
    launch();
    std::string e = wait();
    obs.push_back({ { "e", e }, { "fr", look() } });
    for (auto& k : c["cmds"])
    {
        if (hang)
            break;
        const std::string q = k["a"];
        if (q == "bp")
        {
            setbp(k);
            continue;
        }
        if (q == "disc")
        {
            disconnect();
            obs.push_back({ { "e", hang ? "hang" : "gone" }, { "fr", vp::json::array() } });
            continue;
        }
        if (q == "race")
        {
            // commands sent without waiting for what the previous one does; then the program is let go or left
            for (auto& x : k["q"])
            {
                command(x);
                if (int us = x.value("us", 0))
                    std::this_thread::sleep_for(std::chrono::microseconds(us));
            }
            if (k["end"] == "disc")
                disconnect();
            else
            {
                for (auto& b : c["files"])
                    setbp({ { "f", b }, { "l", vp::json::array() } });
                for (int i = 0; !hang; ++i)
                {
                    req(&dap::dap_feature::on_continue, json());
                    std::unique_lock l(a.m);
                    const int seen = a.stops;
                    if (a.cv.wait_for(l, std::chrono::milliseconds(50), [&]() { return a.exits > 0 || a.stops > seen; }) && a.exits > 0)
                        break;
                    hang = i > 400;
                }
            }
            {
                std::lock_guard g(a.m);
                es = a.stops;
                if (k["end"] == "disc")
                    ee = a.exits;
                else
                    ee = 1;
            }
            obs.push_back({ { "e", hang ? "hang" : gone ? "gone" : "exit" }, { "fr", vp::json::array() } });
            continue;
        }
        command(k);
        if (ee || gone) // the program ended: nothing happens any more
        {
            obs.push_back({ { "e", "none" }, { "fr", gone ? vp::json::array() : look() } });
            continue;
        }
        e = wait();
        obs.push_back({ { "e", e }, { "fr", hang ? vp::json::array() : look() } });
    }
    if (!hang) // a session that hangs is abandoned
    {
        int extra_s, extra_e;
        {
            std::lock_guard g(a.m);
            extra_s = a.stops - es, extra_e = a.exits - ee;
        }
        delete s;
        fs::remove_all(root);
        return vp::json { { "obs", obs }, { "xs", extra_s }, { "xe", extra_e } };
    }
    fs::remove_all(root);
    return vp::json { { "obs", obs }, { "xs", 0 }, { "xe", 0 } };
});
} // namespace
