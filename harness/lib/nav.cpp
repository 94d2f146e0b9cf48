// Analyses a program and answers definition, references and hover requests for the given positions.
#include "analyzer.h"
#include "lsp/lsp_context.h"
#include "vp_run.h"
#include "vp_asm.h"

using namespace hlasm_plugin::parser_library;
namespace {
vp::reg r("nav", [](const vp::json& c) {
    vp::map_libs libs;
    if (c.contains("libs"))
        for (auto& [k, v] : c["libs"].items())
            libs.libs[k] = v.get<std::string>();
    const std::string src = c["src"];
    analyzer a(src, "OPEN", libs);
    a.analyze();
    a.collect_diags();
    vp::json out;
    std::set<std::string> codes;
    for (auto& d : a.diags())
        codes.insert(d.code);
    for (auto& d : libs.lib_diags)
        codes.insert(d.code);
    out["codes"] = std::vector<std::string>(codes.begin(), codes.end());
    vp::json ans = vp::json::array();
    auto ctx = a.context().lsp_ctx;
    auto loc = [](const location& l) { return vp::json { l.file, l.pos.line, l.pos.column }; };
    for (auto& q : c["q"])
    {
        const std::string f = q[0];
        const position pos(q[1].get<size_t>(), q[2].get<size_t>());
        vp::json x;
        x["d"] = loc(ctx->definition(f, pos));
        std::set<vp::json> refs;
        for (auto& l : ctx->references(f, pos))
            refs.insert(loc(l));
        x["r"] = refs;
        x["h"] = ctx->hover(f, pos);
        ans.push_back(x);
    }
    out["a"] = ans;
    if (c.contains("comp"))
    {
        vp::json cs = vp::json::array();
        for (auto& q : c["comp"])
        {
            std::set<std::string> names;
            const std::string ch = q[3];
            if (ch == "I")
            {
                std::set<vp::json> macros;
                for (auto& i : ctx->completion(q[0].get<std::string>(), position(q[1].get<size_t>(), q[2].get<size_t>()), '\0', completion_trigger_kind::invoked))
                    if (i.kind == completion_item_kind::macro)
                        macros.insert(vp::json { i.label, i.detail, i.documentation });
                cs.push_back(macros);
                continue;
            }
            for (auto& i : ctx->completion(q[0].get<std::string>(), position(q[1].get<size_t>(), q[2].get<size_t>()), ch[0], completion_trigger_kind::trigger_character))
                names.insert(i.label);
            cs.push_back(names);
        }
        out["comp"] = cs;
    }
    return out;
});
} // namespace
