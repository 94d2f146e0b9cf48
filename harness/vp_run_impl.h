#include "vp_run.h"
#include <csignal>
#include <fstream>
#include <iostream>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <unistd.h>
namespace vp {
std::map<std::string, case_fn>& modes()
{
    static std::map<std::string, case_fn> m;
    return m;
}
std::string cps_to_utf8(const json& cps)
{
    std::string r;
    for (auto& e : cps)
    {
        unsigned c = e.get<unsigned>();
        if (c < 0x80) r += (char)c;
        else if (c < 0x800) { r += (char)(0xC0 | c >> 6); r += (char)(0x80 | (c & 63)); }
        else if (c < 0x10000) { r += (char)(0xE0 | c >> 12); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
        else { r += (char)(0xF0 | c >> 18); r += (char)(0x80 | (c >> 12 & 63)); r += (char)(0x80 | (c >> 6 & 63)); r += (char)(0x80 | (c & 63)); }
    }
    return r;
}
json utf8_to_cps(const std::string& s)
{
    json r = json::array();
    for (size_t i = 0; i < s.size();)
    {
        unsigned char c = s[i];
        unsigned n = c < 0x80 ? 1 : (c & 0xE0) == 0xC0 ? 2 : (c & 0xF0) == 0xE0 ? 3 : (c & 0xF8) == 0xF0 ? 4 : 0;
        bool ok = n && i + n <= s.size();
        for (unsigned j = 1; ok && j < n; ++j) ok = ((unsigned char)s[i + j] & 0xC0) == 0x80;
        if (!ok) { r.push_back(-(int)c); ++i; continue; } // invalid byte: never equals a code point
        unsigned v = n == 1 ? c : n == 2 ? c & 31 : n == 3 ? c & 15 : c & 7;
        for (unsigned j = 1; j < n; ++j) v = v << 6 | ((unsigned char)s[i + j] & 63);
        r.push_back(v);
        i += n;
    }
    return r;
}
int run_main(int argc, char** argv)
{
    if (argc < 4) { std::cerr << "usage: mode cases.ndjson out.ndjson [timeout_s]\n"; return 2; }
    auto it = modes().find(argv[1]);
    if (it == modes().end()) { std::cerr << "unknown mode " << argv[1] << "\n"; return 2; }
    unsigned tmo = argc > 4 ? atoi(argv[4]) : 20;
    std::vector<std::string> lines;
    {
        std::ifstream in(argv[2]);
        for (std::string l; std::getline(in, l);)
            if (!l.empty()) lines.push_back(l);
    }
    FILE* out = fopen(argv[3], "w");
    if (!out) return 2;
    size_t next = 0;
    while (next < lines.size())
    {
        fflush(out);
        int pfd[2];
        if (pipe(pfd)) return 2;
        pid_t pid = fork();
        if (pid < 0) return 2;
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(pfd[0]);
            FILE* w = fdopen(pfd[1], "w");
            for (size_t i = next; i < lines.size(); ++i)
            {
                alarm(tmo);
                json c = json::parse(lines[i]);
                json r;
                try { r = it->second(c); }
                catch (const std::exception& e) { r = json { { "exception", e.what() } }; }
                alarm(0);
                if (c.contains("id")) r["id"] = c["id"];
                auto s = r.dump(-1, ' ', true, json::error_handler_t::replace);
                fprintf(w, "%s\n", s.c_str());
                fflush(w);
            }
            _exit(0);
        }
        close(pfd[1]);
        FILE* r = fdopen(pfd[0], "r");
        char* buf = nullptr;
        size_t cap = 0;
        while (getline(&buf, &cap, r) > 0)
        {
            fputs(buf, out);
            ++next;
        }
        free(buf);
        fclose(r);
        int st = 0;
        waitpid(pid, &st, 0);
        if (next < lines.size())
        {
            json c = json::parse(lines[next]);
            json res { { "crash", WIFSIGNALED(st) ? (WTERMSIG(st) == SIGALRM ? std::string("timeout") : "signal " + std::to_string(WTERMSIG(st))) : "exit " + std::to_string(WEXITSTATUS(st)) } };
            if (c.contains("id")) res["id"] = c["id"];
            fprintf(out, "%s\n", res.dump().c_str());
            ++next;
        }
    }
    fclose(out);
    return 0;
}
} // namespace vp
