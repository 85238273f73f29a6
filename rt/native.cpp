// Native side of the harness interface: replays one input assignment.
#include <fmt/format.h>
// clang and gcc mangle this name differently, and the library is built with gcc
template void fmt::detail::vformat_to<char>(fmt::detail::buffer<char> &, fmt::string_view, fmt::format_args, fmt::detail::locale_ref);
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <exception>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>
static std::map<std::string, std::vector<uint8_t>> inputs;
static std::map<std::string, int> counts;
static std::vector<long long> params;
extern "C" {
void sx_symbolic(void *p, size_t n, const char *name)
{
    std::string k = std::string(name) + "#" + std::to_string(counts[name]++);
    memset(p, 0, n);
    auto it = inputs.find(k);
    if (it != inputs.end()) memcpy(p, it->second.data(), n < it->second.size() ? n : it->second.size());
}
void sx_assume(int c)
{
    if (!c) { printf("SX_ASSUME_FALSE\n"); fflush(stdout); _exit(78); }
}
void sx_assert_(int c, const char *msg)
{
    if (!c) { printf("SX_ASSERT_FAILED %s\n", msg); fflush(stdout); _exit(77); }
}
void sx_reach(const char *l) { printf("SX_REACH %s\n", l); }
uint64_t sx_concretize(uint64_t v) { return v; }
long long sx_param(int i) { return i < (int)params.size() ? params[i] : 0; }
void sx_print(const char *m, uint64_t v) { printf("[sx] %s %llu\n", m, (unsigned long long)v); }
void sx_merge_begin() {}
void sx_merge_end() {}
void sx_fp_abstract(int) {}
int sx_is_symbolic(uint64_t) { return 0; }
void sx_fail(const char *msg) { printf("SX_ASSERT_FAILED %s\n", msg); fflush(stdout); _exit(77); }
void sx_end() { printf("SX_END\n"); fflush(stdout); _exit(0); }
void sx_bound() { printf("SX_BOUND\n"); fflush(stdout); _exit(78); }
}
int main(int argc, char **argv)
{
    // argv: entry inputfile params...
    FILE *f = fopen(argv[2], "r");
    if (!f) { printf("no input file\n"); return 79; }
    std::string line;
    for (int ch; (ch = fgetc(f)) != EOF || !line.empty();) {
        if (ch != EOF && ch != '\n') { line += (char)ch; continue; }
        size_t sp = line.rfind(' ');
        std::string k, h;
        if (sp != std::string::npos) k = line.substr(0, sp), h = line.substr(sp + 1);
        std::vector<uint8_t> b;
        for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((uint8_t)strtol(h.substr(i, 2).c_str(), nullptr, 16));
        if (!k.empty()) inputs[k] = b;
        line.clear();
        if (ch == EOF) break;
    }
    fclose(f);
    for (int i = 3; i < argc; i++) params.push_back(atoll(argv[i]));
    auto fn = (void (*)())dlsym(RTLD_DEFAULT, argv[1]);
    if (!fn) { printf("no entry\n"); return 79; }
    try {
        fn();
    } catch (std::exception &e) {
        printf("SX_UNCAUGHT %s\n", e.what());
        fflush(stdout);
        _exit(76);
    }
    printf("SX_DONE\n");
    fflush(stdout);
    _exit(0);
}
