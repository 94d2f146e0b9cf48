// C01: LSP text synchronisation. JSON notifications -> real feature_text_synchronization -> real file manager.
#include <filesystem>
#include "lsp/feature_text_synchronization.h"
#include "vp_run.h"
#include "workspace_manager.h"
#include "workspaces/file_manager_impl.h"

using namespace hlasm_plugin;
using namespace hlasm_plugin::language_server;
namespace {
// The workspace manager's file side only; analysis is not wanted here.
class ws_files final : public parser_library::workspace_manager
{
public:
    parser_library::workspaces::file_manager_impl fm;
    void did_open_file(const char* u, parser_library::version_t v, const char* t, size_t n) override { fm.did_open_file(u, v, std::string(t, n)); }
    void did_change_file(const char* u, parser_library::version_t v, const parser_library::document_change* c, size_t n) override { fm.did_change_file(u, v, c, n); }
    void did_close_file(const char* u) override { fm.did_close_file(u); }
};
class no_response final : public response_provider
{
public:
    void request(const json&, const std::string&, const json&, method) override {}
    void respond(const json&, const std::string&, const json&) override {}
    void notify(const std::string&, const json&) override {}
    void respond_error(const json&, const std::string&, int, const std::string&, const json&) override {}
};
vp::reg r("textsync", [](const vp::json& c) {
    ws_files ws;
    no_response rp;
    lsp::feature_text_synchronization f(ws, rp);
    std::map<std::string, method> m;
    f.register_methods(m);
    auto uri = [](const vp::json& d) { return "file:///ws/dir%20a/" + d.get<std::string>(); };
    auto path = [](const vp::json& d) { return "/ws/dir a/" + d.get<std::string>(); };
    vp::json obs = vp::json::array();
    std::vector<std::shared_ptr<parser_library::workspaces::file>> held; // analyses keep references to old snapshots
    for (auto& s : c["steps"])
    {
        const std::string a = s["a"];
        if (a == "open")
            m["textDocument/didOpen"]("", json { { "textDocument", { { "uri", uri(s["d"]) }, { "languageId", "hlasm" }, { "version", s["v"] }, { "text", vp::cps_to_utf8(s["t"]) } } } });
        else if (a == "change")
        {
            json ch = json::array();
            for (auto& e : s["e"])
            {
                json x { { "text", vp::cps_to_utf8(e["t"]) } };
                if (!e["w"].get<bool>())
                    x["range"] = { { "start", { { "line", e["sl"] }, { "character", e["sc"] } } }, { "end", { { "line", e["el"] }, { "character", e["ec"] } } } };
                ch.push_back(x);
            }
            m["textDocument/didChange"]("", json { { "textDocument", { { "uri", uri(s["d"]) }, { "version", s["v"] } } }, { "contentChanges", ch } });
        }
        else if (a == "close")
            m["textDocument/didClose"]("", json { { "textDocument", { { "uri", uri(s["d"]) } } } });
        else if (a == "proc") // an analysis turns the document into a processor file and keeps a reference
            held.push_back(ws.fm.add_processor_file(path(s["d"])));
        else if (a == "hold")
            held.push_back(ws.fm.find(path(s["d"])));
        vp::json o = vp::json::object();
        for (auto& d : c["docs"])
        {
            auto file = ws.fm.find(path(d));
            if (!file || !file->get_lsp_editing())
                o[d.get<std::string>()] = vp::json { { "open", false }, { "text", vp::json::array() } };
            else
                o[d.get<std::string>()] = vp::json { { "open", true }, { "text", vp::utf8_to_cps(file->get_text()) } };
        }
        obs.push_back(o);
    }
    return vp::json { { "obs", obs } };
});
} // namespace
