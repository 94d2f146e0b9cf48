// Assembles one abstract program rendered as HLASM text and reports everything a user can observe of the result.
#include "analyzer.h"
#include "context/ordinary_assembly/section.h"
#include "context/variables/set_symbol.h"
#include "vp_run.h"
#include "vp_asm.h"

using namespace hlasm_plugin::parser_library;
namespace vp {
workspaces::parse_result map_libs::parse_library(const std::string& library, analyzing_context ctx, const workspaces::library_data data)
{
    requested.push_back(library);
    auto it = libs.find(library);
    if (it == libs.end())
        return false;
    analyzer a(it->second, "LIB/" + library, ctx, *this, data);
    a.analyze();
    a.collect_diags();
    for (auto& d : a.diags())
        lib_diags.push_back(d);
    return true;
}
bool map_libs::has_library(const std::string& library, const std::string&) const { return libs.count(library) != 0; }
const asm_option& map_libs::get_asm_options(const std::string&) { return opts; }

json sym_json(const context::symbol* s)
{
    if (!s)
        return json { { "k", "none" } };
    json j;
    switch (s->kind())
    {
        case context::symbol_value_kind::ABS:
            j = { { "k", "abs" }, { "v", s->value().get_abs() } };
            break;
        case context::symbol_value_kind::RELOC: {
            const auto& a = s->value().get_reloc();
            json b = json::array();
            for (auto& e : a.bases())
                b.push_back({ { "s", e.first.owner ? *e.first.owner->name : std::string("?") }, { "n", e.second } });
            j = { { "k", "rel" }, { "v", a.offset() }, { "b", b }, { "unres", a.has_unresolved_space() } };
            break;
        }
        default:
            j = { { "k", "undef" } };
    }
    j["len"] = s->attributes().is_defined(context::data_attr_kind::L) ? (int)s->attributes().length() : -1;
    j["type"] = (int)s->attributes().type();
    return j;
}
json diag_codes(const std::vector<diagnostic_s>& ds, bool rel)
{
    json r = json::array();
    for (auto& d : ds)
    {
        json x { { "c", d.code }, { "l", d.diag_range.start.line }, { "f", d.file_name } };
        if (rel)
        {
            if (r.size() == 400)
                break;
            x["r"] = json::array();
            for (auto& y : d.related)
                x["r"].push_back({ { "f", y.location.uri }, { "l", y.location.rang.start.line } });
            if (std::find(r.begin(), r.end(), x) != r.end())
                continue;
        }
        r.push_back(std::move(x));
    }
    return r;
}
} // namespace vp
namespace {
vp::reg r("asm", [](const vp::json& c) {
    vp::map_libs libs;
    if (c.contains("libs"))
        for (auto& [k, v] : c["libs"].items())
            libs.libs[k] = v.get<std::string>();
    const std::string src = c["src"];
    analyzer a(src, "OPEN", libs);
    a.analyze();
    a.collect_diags();
    auto& h = a.hlasm_ctx();
    vp::json out;
    {
        std::set<std::string> codes;
        bool err = false;
        for (auto& d : a.diags())
        {
            codes.insert(d.code);
            err |= d.severity == diagnostic_severity::error;
        }
        out["codes"] = std::vector<std::string>(codes.begin(), codes.end());
        out["err"] = err;
        std::set<std::string> lc;
        for (auto& d : libs.lib_diags)
            lc.insert(d.code);
        out["libcodes"] = std::vector<std::string>(lc.begin(), lc.end());
        if (c.contains("dl"))
            out["diags"] = vp::diag_codes(a.diags(), c["dl"] == 2);
    }
    if (c.contains("log"))
    {
        vp::json log = vp::json::array();
        auto n = h.globals().find(h.ids().add("VPN"));
        auto l = h.globals().find(h.ids().add("VPL"));
        if (n != h.globals().end() && l != h.globals().end())
        {
            auto nn = n->second->access_set_symbol_base()->access_set_symbol<context::A_t>();
            auto ll = l->second->access_set_symbol_base()->access_set_symbol<context::C_t>();
            if (nn && ll)
                for (int i = 0; i < nn->get_value(); ++i)
                    log.push_back(ll->get_value(i));
        }
        out["log"] = log;
    }
    if (c.contains("syms"))
    {
        vp::json s = vp::json::object();
        for (auto& n : c["syms"])
            s[n.get<std::string>()] = vp::sym_json(std::as_const(h.ord_ctx).get_symbol(h.ids().add(n.get<std::string>())));
        out["sym"] = s;
    }
    if (c.contains("globs"))
    {
        // values of global SET symbols: [[index,value],...]
        vp::json g = vp::json::object();
        for (auto& n : c["globs"])
        {
            vp::json vals = vp::json::array();
            auto it = h.globals().find(h.ids().add(n.get<std::string>()));
            if (it != h.globals().end())
            {
                auto sb = it->second->access_set_symbol_base();
                for (auto k : sb->keys())
                {
                    auto at = [&](auto* sy) { return sb->is_scalar ? sy->get_value() : sy->get_value(k); };
                    if (auto x = sb->access_set_symbol<context::A_t>())
                        vals.push_back({ k + 1, at(x) });
                    else if (auto y = sb->access_set_symbol<context::B_t>())
                        vals.push_back({ k + 1, at(y) ? 1 : 0 });
                    else if (auto z = sb->access_set_symbol<context::C_t>())
                        vals.push_back({ k + 1, at(z) });
                }
            }
            g[n.get<std::string>()] = vals;
        }
        out["glob"] = g;
    }
    if (c.contains("reqs"))
        out["requested"] = libs.requested;
    return out;
});
} // namespace
