// Executor for string_conv.h.  Script:
//   T            new trace
//   f t value    int_to_str (and ascii_length) of the value in type t (i8 i16 i32 i64 u8 u16 u32 u64), value given in decimal
//   p t hex      str_to_int<t> of the bytes
//   r t lo hi    format and parse back lo..hi, one event per value
#include <cmath>
#include <cstdlib>
#include <cachelot/common.h>
#include <cachelot/string_conv.h>
#include <cinttypes>
#include "trace.h"
using namespace cachelot;
static std::string ev; static FILE * out; static bool open_ = false;
static void emit(const std::string & s) { if (not ev.empty()) ev += ","; ev += "{" + s + "}"; }
static std::string bytes(const char * b, size_t n) { std::string s = "["; for (size_t i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string((unsigned char)b[i]); } return s + "]"; }
static std::string dig(unsigned __int128 v) { std::string d; do { d.insert(d.begin(), char('0' + int(v % 10))); v /= 10; } while (v); return js_digits(d); }
template <class T> std::string num(T v) {      // sign and digits, by 128 bit arithmetic
    __int128 w = v; return std::string("\"neg\":") + (w < 0 ? "true" : "false") + ",\"n\":" + dig(w < 0 ? (unsigned __int128)(-w) : (unsigned __int128)w);
}
template <class T, bool S = std::is_signed<T>::value> struct Len { static size_t of(T v) { return uint_ascii_length(v); } };
template <class T> struct Len<T, true> { static size_t of(T v) { return int_ascii_length(v); } };
template <class T> void parse(const char * name, const std::string & raw) {
    char * p = (char *)malloc(raw.size() ? raw.size() : 1); memcpy(p, raw.data(), raw.size());   // exact size: over-reads are seen by asan
    error_code e; T v = str_to_int<T>((const char *)p, (const char *)p + raw.size(), e);
    bool thrown = false; T w = 0;
    try { w = str_to_int<T>((const char *)p, (const char *)p + raw.size()); } catch (const system_error &) { thrown = true; }
    std::string s = bytes(raw.data(), raw.size());
    free(p);
    emit(std::string("\"o\":\"parse\",\"t\":\"") + name + "\",\"x\":" + s + ",\"ok\":" + (e ? "false" : "true") + ",\"same\":" + ((thrown == bool(e) && (e || v == w)) ? "true" : "false") + "," + num<T>(e ? T(0) : v));
}
template <class T> void format(const char * name, T v, bool back) {
    char b[64]; memset(b, '#', sizeof b);
    size_t n = int_to_str(v, b + 8);
    bool clean = true; for (size_t i = 0; i < sizeof b; ++i) if (i < 8 || i >= 8 + n) clean = clean && b[i] == '#';
    if (n > 40) n = 40;
    emit(std::string("\"o\":\"format\",\"t\":\"") + name + "\"," + num<T>(v) + ",\"x\":" + bytes(b + 8, n) + ",\"clean\":" + (clean ? "true" : "false") + ",\"len\":" + std::to_string(Len<T>::of(v)));
    if (back) parse<T>(name, std::string(b + 8, n));
}
template <class T> void go(const char * name, const std::string & o, std::stringstream & s) {
    if (o == "f") { std::string t; s >> t; __int128 v = 0; bool neg = t[0] == '-'; for (size_t i = neg; i < t.size(); ++i) v = v * 10 + (t[i] - '0'); format<T>(name, T(neg ? -v : v), false); }
    else if (o == "p") { std::string h; s >> h; parse<T>(name, h == "-" ? "" : unhex(h)); }
    else { long lo, hi; s >> lo >> hi; for (long v = lo; v <= hi; ++v) format<T>(name, T(v), true); }
}
int main(int, char ** argv) {
    std::ifstream in(argv[1]); out = fopen(argv[2], "w"); std::string line;
    auto finish = [&] { if (open_) { fprintf(out, "{\"hdr\":{\"x\":0},\"ev\":[%s]}\n", ev.c_str()); fflush(out); } };
    while (std::getline(in, line)) {
        std::stringstream s(line); std::string o, t; s >> o >> t;
        if (o == "T") { finish(); ev.clear(); open_ = true; continue; }
        if (t == "i8") go<int8>("i8", o, s); else if (t == "i16") go<int16>("i16", o, s); else if (t == "i32") go<int32>("i32", o, s); else if (t == "i64") go<int64>("i64", o, s);
        else if (t == "u8") go<uint8>("u8", o, s); else if (t == "u16") go<uint16>("u16", o, s); else if (t == "u32") go<uint32>("u32", o, s); else if (t == "u64") go<uint64>("u64", o, s);
        else return 3;
    }
    finish(); return 0;
}
