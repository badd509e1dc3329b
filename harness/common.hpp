// Common part of the bounded conformance harnesses.
#pragma once
#include <signal.h>
#include <unistd.h>

#include <chrono>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <functional>
#include <iostream>
#include <map>
#include <optional>
#include <random>
#include <set>
#include <sstream>
#include <string>
#include <unordered_set>
#include <vector>

namespace vh {
inline char g_case[65536];
inline volatile unsigned g_tick = 0;
inline unsigned g_seen_tick = 0;
inline int g_stuck = 0;
inline std::uint64_t g_evals = 0;
inline std::unordered_set<std::uint64_t> g_distinct;
inline int g_samples = 0;

inline std::string esc(std::string const& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c >= 32 and c < 127 and c != '"' and c != '\\') {
            r += static_cast<char>(c);
        }
        else {
            char b[8];
            snprintf(b, sizeof b, "\\x%02x", c);
            r += b;
        }
        if (r.size() > 4000) {
            r += "...";
            break;
        }
    }
    return r + "\"";
}
inline void handler(int sig) {
    if (sig == SIGALRM) {
        if (g_tick != g_seen_tick) {
            g_seen_tick = g_tick;
            g_stuck = 0;
            alarm(5);
            return;
        }
        if (++g_stuck < 18) {  // 90 s in one case
            alarm(5);
            return;
        }
    }
    char const* m = sig == SIGALRM ? "FAIL no result within 90 s on: " : "FAIL crash (signal) on: ";
    (void)!write(1, m, strlen(m));
    (void)!write(1, g_case, strlen(g_case));
    (void)!write(1, "\n", 1);
    _exit(1);
}
inline void setcase(std::string const& s) {
    auto n = std::min(s.size(), sizeof(g_case) - 1);
    memcpy(g_case, s.data(), n);
    g_case[n] = 0;
    g_tick = g_tick + 1;
}
inline void count(std::string const& key, bool nontrivial = true) {
    ++g_evals;
    if (nontrivial and g_distinct.size() < 2000000) {
        g_distinct.insert(std::hash<std::string>{}(key));
    }
    if (nontrivial and g_samples < 3 and g_evals % 97 == 5) {
        ++g_samples;
        std::cout << "SAMPLE " << esc(key.substr(0, 300)) << "\n";
    }
}
inline void stats() {
    std::cout << "STATS evaluations=" << g_evals << " distinct=" << g_distinct.size() << std::endl;
}
[[noreturn]] inline void fail(std::string const& what) {
    std::cout << "FAIL " << what << std::endl;
    std::cout << "case: " << g_case << std::endl;
    stats();
    std::cout.flush();
    _exit(1);
}
inline void check(bool b, std::string const& what) {
    if (not b) {
        fail(what);
    }
}
struct Rng {
    std::mt19937_64 g;
    explicit Rng(std::uint64_t s) : g(s) {}
    std::uint64_t u() { return g(); }
    int n(int k) { return k <= 0 ? 0 : static_cast<int>(g() % static_cast<std::uint64_t>(k)); }
    bool b(int num = 1, int den = 2) { return n(den) < num; }
    template <class T>
    T const& of(std::vector<T> const& v) { return v[n(static_cast<int>(v.size()))]; }
};
inline std::vector<std::string> g_dict;
inline void load_dict() {
    if (auto const* p = getenv("VERIF_DICT")) {
        std::ifstream f(p);
        std::string l;
        while (std::getline(f, l)) {
            // undo C escapes roughly
            std::string r;
            for (std::size_t i = 0; i < l.size(); ++i) {
                if (l[i] == '\\' and i + 1 < l.size()) {
                    ++i;
                    r += l[i] == 'n' ? '\n' : l[i] == 't' ? '\t' : l[i] == '0' ? '\0' : l[i];
                }
                else {
                    r += l[i];
                }
            }
            for (auto& c : r) if (c & 0x80) c = 'u';  // strings of the language are valid UTF-8
            g_dict.push_back(r);
        }
    }
}
struct Args {
    std::uint64_t seed{1};
    double secs{5};
    int index{0};
};
inline std::chrono::steady_clock::time_point g_start;
inline double elapsed() {
    return std::chrono::duration<double>(std::chrono::steady_clock::now() - g_start).count();
}
inline Args init(int argc, char** argv) {
    Args a;
    if (argc > 2) a.seed = strtoull(argv[2], nullptr, 10);
    if (argc > 3) a.secs = atof(argv[3]);
    if (argc > 4) a.index = atoi(argv[4]);
    g_start = std::chrono::steady_clock::now();
    for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGALRM}) {
        signal(s, handler);
    }
    alarm(5);
    std::set_terminate([] { abort(); });
    load_dict();
    return a;
}
}  // namespace vh
