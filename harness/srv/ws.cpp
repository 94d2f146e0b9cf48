// C05, C06: a workspace on disk driven through the language server, the client's view of the diagnostics
#include <filesystem>
#include <fstream>
#include "feature.h"
#include "lsp/lsp_server.h"
#include "vp_run.h"
#include "workspace_manager.h"

using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
namespace fs = std::filesystem;
namespace {
class view final : public send_message_provider
{
public:
    std::string root;
    std::map<std::string, std::vector<std::string>> diags;
    std::vector<vp::json> resp;
    json config_id = "none";
    std::string rel(const std::string& uri) const
    {
        std::string p = feature::uri_to_path(uri);
        if (p.rfind(root + "/", 0) == 0)
            p = p.substr(root.size() + 1);
        return p;
    }
    void reply(const json& m) override
    {
        if (m.contains("result"))
            resp.push_back(m);
        if (m.contains("method") && m["method"] == "workspace/configuration")
            config_id = m["id"];
        if (!m.contains("method") || m["method"] != "textDocument/publishDiagnostics")
            return;
        auto& d = diags[rel(m["params"]["uri"].get<std::string>())];
        d.clear();
        for (auto& x : m["params"]["diagnostics"])
            d.push_back(x["code"].get<std::string>() + ":" + std::to_string(x["range"]["start"]["line"].get<long long>() + 1));
        std::sort(d.begin(), d.end());
    }
    vp::json get() const
    {
        vp::json a = vp::json::array();
        for (auto& [f, d] : diags)
            if (!d.empty())
                a.push_back({ { "f", f }, { "d", d } });
        return a;
    }
};
void put(const std::string& root, const std::string& f, const vp::json& t)
{
    const fs::path p = fs::path(root) / f;
    if (t.is_null() || t == "\x01")
    {
        fs::remove(p);
        return;
    }
    if (t == "\x02")
    {
        fs::create_directories(p);
        return;
    }
    fs::create_directories(p.parent_path());
    std::string text = t.get<std::string>();
    for (size_t i; (i = text.find("@ROOT@")) != std::string::npos;)
        text.replace(i, 6, root);
    std::ofstream(p, std::ios::binary) << text;
}
vp::reg rw("ws", [](const vp::json& c) {
    const std::string root = fs::absolute("case" + std::to_string(c["id"].get<int>())).lexically_normal().string();
    fs::remove_all(root);
    fs::create_directories(root);
    for (auto& [f, t] : c["files"].items())
        put(root, f, t);
    vp::json obs = vp::json::array();
    {
        std::atomic<bool> cancel = false;
        parser_library::workspace_manager ws(&cancel);
        lsp::server srv(ws);
        view v;
        v.root = root;
        srv.set_send_message_provider(&v);
        auto uri = [&](const std::string& f) { return feature::path_to_uri(root + (f.empty() ? "" : "/" + f)); };
        auto send = [&](const char* m, json p) { srv.message_received(json { { "jsonrpc", "2.0" }, { "method", m }, { "params", std::move(p) } }); };
        json folders = json::array();
        for (auto& f : c["folders"])
            folders.push_back({ { "uri", uri(f["p"].get<std::string>()) }, { "name", f["n"] } });
        srv.message_received(json { { "jsonrpc", "2.0" },
            { "id", 1 },
            { "method", "initialize" },
            { "params", { { "capabilities", { { "workspace", { { "workspaceFolders", true } } } } }, { "workspaceFolders", folders } } } });
        int version = 1;
        for (auto& s : c["steps"])
        {
            const std::string a = s["a"];
            const std::string f = s.value("f", "");
            v.resp.clear();
            if (a == "open")
                send("textDocument/didOpen", { { "textDocument", { { "uri", uri(f) }, { "languageId", "hlasm" }, { "version", version++ }, { "text", s["t"] } } } });
            else if (a == "change")
                send("textDocument/didChange", { { "textDocument", { { "uri", uri(f) }, { "version", version++ } } }, { "contentChanges", { { { "text", s["t"] } } } } });
            else if (a == "close")
                send("textDocument/didClose", { { "textDocument", { { "uri", uri(f) } } } });
            else if (a == "disk")
                put(root, f, s["t"]);
            else if (a == "watch")
            {
                json ch = json::array();
                for (auto& x : s["fs"])
                    ch.push_back({ { "uri", uri(x.get<std::string>()) }, { "type", 2 } });
                send("workspace/didChangeWatchedFiles", { { "changes", ch } });
            }
            else if (a == "folders")
            {
                json add = json::array(), rem = json::array();
                for (auto& x : s["add"])
                    add.push_back({ { "uri", uri(x["p"].get<std::string>()) }, { "name", x["n"] } });
                for (auto& x : s["rem"])
                    rem.push_back({ { "uri", uri(x["p"].get<std::string>()) }, { "name", x["n"] } });
                send("workspace/didChangeWorkspaceFolders", { { "event", { { "added", add }, { "removed", rem } } } });
            }
            else if (a == "config")
            {
                send("workspace/didChangeConfiguration", { { "settings", json::object() } });
                srv.message_received(json { { "jsonrpc", "2.0" }, { "id", v.config_id }, { "result", { s["v"] } } });
            }
            else
            {
                json p = s["p"];
                p["textDocument"] = { { "uri", uri(f) } };
                srv.message_received(json { { "jsonrpc", "2.0" }, { "id", 7 }, { "method", a }, { "params", p } });
            }
            vp::json o = { { "v", v.get() } };
            if (!v.resp.empty())
                o["r"] = v.resp[0]["result"];
            obs.push_back(o);
        }
    }
    fs::remove_all(root);
    return vp::json { { "obs", obs } };
});
} // namespace
