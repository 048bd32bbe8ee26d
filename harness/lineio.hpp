// Line protocol of the unit drivers: one command per line, one answer per line.
// An exact-size heap copy is made of every input, so that the sanitizer sees any
// access outside of it.
#pragma once
#include <cstdio>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>

typedef std::vector<std::string> Args;

inline int hexv(char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
inline std::string unhex(const std::string& s) {
    std::string r;
    if (s == "-") return r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r.push_back((char) (hexv(s[i]) << 4 | hexv(s[i + 1])));
    return r;
}
inline std::string hex(const void* p, size_t n) {
    static const char* d = "0123456789abcdef";
    std::string r;
    const uint8_t* b = (const uint8_t*) p;
    for (size_t i = 0; i < n; ++i) { r.push_back(d[b[i] >> 4]); r.push_back(d[b[i] & 15]); }
    return n ? r : std::string("-");
}
inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }

// exact-size heap block
struct Block {
    uint8_t* p; size_t n;
    explicit Block(const std::string& s) : p((uint8_t*) malloc(s.size() ? s.size() : 1)), n(s.size()) { memcpy(p, s.data(), n); }
    ~Block() { free(p); }
};

static FILE* line_out;   // the protocol's output; the library's own log goes elsewhere
inline void answer(const std::string& s) { fwrite(s.data(), 1, s.size(), line_out); fputc('\n', line_out); }

inline void line_loop(const std::function<std::string(const Args&)>& f) {
    std::ios::sync_with_stdio(false);
    line_out = fdopen(dup(1), "w");
    setvbuf(line_out, nullptr, _IOFBF, 1 << 16);
    if (!getenv("DRV_LOG")) { freopen("/dev/null", "w", stdout); }
    std::string l;
    while (std::getline(std::cin, l)) {
        if (l == ".") { answer("."); fflush(line_out); continue; }
        Args a;
        std::istringstream is(l);
        std::string t;
        while (is >> t) a.push_back(t);
        if (!a.empty()) answer(f(a));
    }
    fflush(line_out);
    _exit(0);
}
