// Common parts of the executors: value pieces, keys, JSON output
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <sstream>
#include <fstream>
#include <iostream>

typedef std::vector<long> Pieces;
static const long BLOB = 1000, STAMP = 2000000;

// ---- value encoding: bytes are themselves, blob i = "\x01" + 6 digits + pattern, stamp k = "\x02" + 7 digits
struct Values {
    std::map<long, size_t> blob_len;
    static char pat(long id, size_t pos) { return (char)('a' + (unsigned)((id * 31 + pos * 7 + pos / 26) % 26)); }
    std::string blob(long id) const {
        std::string s; size_t n = blob_len.at(id);
        char head[16]; snprintf(head, sizeof head, "\x01%06ld", id - BLOB);
        for (size_t i = 0; i < n; ++i) s.push_back(i < 7 ? head[i] : pat(id, i));
        return s;
    }
    static std::string stamp(long k) { char b[16]; snprintf(b, sizeof b, "\x02%07ld", k); return std::string(b, 8); }
    std::string encode(const Pieces & p) const {
        std::string s;
        for (long x : p) {
            if (x < BLOB) s.push_back((char)x);
            else if (x >= STAMP) s += stamp(x - STAMP);
            else s += blob(x);
        }
        return s;
    }
    Pieces decode(const char * b, size_t n) const {
        Pieces out; size_t i = 0;
        while (i < n) {
            unsigned char c = (unsigned char)b[i];
            bool done = false;
            if ((c == 1 && i + 7 <= n) || (c == 2 && i + 8 <= n)) {
                size_t digits = c == 1 ? 6 : 7; long id = 0; bool ok = true;
                for (size_t j = 1; j <= digits; ++j) { char d = b[i + j]; if (d < '0' || d > '9') { ok = false; break; } id = id * 10 + (d - '0'); }
                if (ok && c == 2) { out.push_back(STAMP + id); i += 8; done = true; }
                else if (ok) {
                    auto it = blob_len.find(BLOB + id);
                    if (it != blob_len.end() && i + it->second <= n) {
                        for (size_t j = 7; j < it->second && ok; ++j) ok = b[i + j] == pat(BLOB + id, j);
                        if (ok) { out.push_back(BLOB + id); i += it->second; done = true; }
                    }
                }
            }
            if (not done) { out.push_back(c); ++i; }
            if (out.size() > 400) { out.push_back(999); break; } // garbage, never equal to a model value
        }
        return out;
    }
};

inline Pieces parse_pieces(const std::string & s) {
    Pieces p; if (s == "-") return p;
    std::stringstream ss(s); std::string t;
    while (std::getline(ss, t, ',')) p.push_back(atol(t.c_str()));
    return p;
}
inline std::string js(const Pieces & p) {
    std::string s = "["; for (size_t i = 0; i < p.size(); ++i) { if (i) s += ','; s += std::to_string(p[i]); } return s + "]";
}
inline std::string js_digits(const std::string & d) {
    std::string s = "["; for (size_t i = 0; i < d.size(); ++i) { if (i) s += ','; s.push_back(d[i]); } return s + "]";
}
inline std::string unhex(const std::string & h) {
    std::string s; for (size_t i = 0; i + 1 < h.size(); i += 2) s.push_back((char)strtol(h.substr(i, 2).c_str(), nullptr, 16)); return s;
}
inline long cap_ttl(unsigned long ttl) { return ttl > 1500000000ul ? 1500000000l : (long)ttl; }

// coarse time: traces about far future count in units of g_scale seconds
static long g_scale = 1;
inline long units(unsigned long secs) { return g_scale == 1 ? cap_ttl(secs) : (long)secs % g_scale == 0 ? (long)secs / g_scale : 999999999l; }
