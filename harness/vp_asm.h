#pragma once
#include <map>
#include "analyzer.h"
#include "vp_run.h"
namespace vp {
namespace pl = hlasm_plugin::parser_library;
struct map_libs : pl::workspaces::parse_lib_provider
{
    std::map<std::string, std::string> libs;
    std::vector<std::string> requested;
    std::vector<pl::diagnostic_s> lib_diags;
    pl::asm_option opts;
    pl::workspaces::parse_result parse_library(const std::string& library, pl::analyzing_context ctx, const pl::workspaces::library_data data) override;
    bool has_library(const std::string& library, const std::string&) const override;
    const pl::asm_option& get_asm_options(const std::string&) override;
};
json sym_json(const pl::context::symbol* s);
json diag_codes(const std::vector<pl::diagnostic_s>& ds, bool rel);
} // namespace vp
