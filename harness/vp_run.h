// Case runner: reads NDJSON cases, runs each in a forked worker, writes one NDJSON result per case.
// A worker that dies or exceeds the time limit yields {"id":..,"crash":".."} for that case and a fresh worker continues.
#pragma once
#include <cstdio>
#include <functional>
#include <map>
#include <string>
#include "nlohmann/json.hpp"
namespace vp {
using json = nlohmann::json;
using case_fn = std::function<json(const json&)>;
std::map<std::string, case_fn>& modes();
struct reg
{
    reg(const char* n, case_fn f) { modes()[n] = std::move(f); }
};
int run_main(int argc, char** argv);
// text <-> code points
std::string cps_to_utf8(const json& cps);
json utf8_to_cps(const std::string& s);
} // namespace vp
