// Executor for server/io_buffer.h and cachelot/slice.h.  Script:
//   B init max               new buffer, new trace
//   !n before w or e         the n-th allocation of that operation fails
//   w need byte:count,...    begin_write(need), fill the runs, confirm_write of their total
//   e need                   ensure_capacity
//   r n                      confirm_read(n)     a   read_all      u hex  try_read_until
//   s / R                    read savepoint / rollback to it      S / W   write savepoint / rollback to it
//   c  compact               z  reset            n   look at the unread data (begin_read)
//   X                        new trace of slice operations:  x op hexA hexB
#include <cachelot/common.h>
#include <cachelot/slice.h>
#include <server/io_buffer.h>
#include "trace.h"
#include "fault.h"
using namespace cachelot;
static std::string rle(const char * b, size_t n) {
    std::string s = "["; size_t i = 0; int k = 0;
    while (i < n) { size_t j = i; while (j < n && b[j] == b[i]) ++j; if (k++) s += ","; s += "[" + std::to_string((unsigned char)b[i]) + "," + std::to_string(j - i) + "]"; i = j; if (k > 3000) { s += ",[999,1]"; break; } }
    return s + "]";
}
static std::string bytes(const char * b, size_t n) { std::string s = "["; for (size_t i = 0; i < n; ++i) { if (i) s += ","; s += std::to_string((unsigned char)b[i]); } return s + "]"; }
int main(int, char ** argv) {
    std::ifstream in(argv[1]); FILE * out = fopen(argv[2], "w"); std::string line, ev; std::unique_ptr<io_buffer> b; size_t mx = 0; bool open_ = false, sl = false; std::string first;
    auto finish = [&] { if (open_) { fprintf(out, "{\"hdr\":{\"max\":%zu,\"slices\":%s%s},\"ev\":[%s]}\n", mx, sl ? "true" : "false", first.c_str(), ev.c_str()); fflush(out); } };
    auto B = [](bool x) { return x ? "true" : "false"; };
    std::vector<io_buffer::read_savepoint_type> rs; std::vector<io_buffer::write_savepoint_type> ws;
    auto state = [&] { return std::string(",\"cap\":") + std::to_string(b->capacity()) + ",\"size\":" + std::to_string(b->size()) + ",\"nr\":" + std::to_string(b->non_read()) + ",\"av\":" + std::to_string(b->available()); };
    auto emit = [&](const std::string & s) { if (not ev.empty()) ev += ","; ev += "{" + s + (sl ? "" : state()) + "}"; };
    while (std::getline(in, line)) {
        std::stringstream s(line); std::string o; s >> o;
        long bad = 0; if (o[0] == '!') { bad = atol(o.c_str() + 1); s >> o; }
        if (o == "B") {
            finish(); ev.clear(); open_ = true; sl = false; rs.clear(); ws.clear(); size_t init; s >> init >> mx; b.reset();
            bool thrown = false; try { b.reset(new io_buffer(init, mx)); } catch (const std::length_error &) { thrown = true; }
            first = ",\"init\":" + std::to_string(init) + ",\"thrown\":" + B(thrown) + ",\"cap\":" + std::to_string(b ? b->capacity() : 0);
        } else if (o == "X") { finish(); ev.clear(); open_ = true; sl = true; mx = 0; first = ""; b.reset(); }
        else if (o == "x") {
            std::string op, ha, hb; s >> op >> ha >> hb; std::string A = ha == "-" ? "" : unhex(ha), W = hb == "-" ? "" : unhex(hb);
            std::vector<char> ma(A.begin(), A.end()), mw(W.begin(), W.end()); ma.reserve(1); mw.reserve(1);
            slice a(ma.data(), ma.size()), w(mw.data(), mw.size());
            std::string r = "\"o\":\"" + op + "\",\"a\":" + bytes(A.data(), A.size()) + ",\"b\":" + bytes(W.data(), W.size());
            if (op == "search") { slice f = a.search(w); r += ",\"at\":" + std::to_string(f ? long(f.begin() - a.begin()) : -1L) + ",\"n\":" + std::to_string(f.length()); }
            else if (op == "split") { slice x, y; tie(x, y) = a.split(w); r += ",\"x\":" + bytes(x.begin(), x.length()) + ",\"y\":" + bytes(y.begin(), y.length()); }
            else if (op == "splitc") { slice x, y; tie(x, y) = a.split(W[0]); r += ",\"x\":" + bytes(x.begin(), x.length()) + ",\"y\":" + bytes(y.begin(), y.length()); }
            else if (op == "starts") r += std::string(",\"r\":") + B(a.startswith(w));
            else if (op == "ends") r += std::string(",\"r\":") + B(a.endswith(w));
            else if (op == "has") r += std::string(",\"r\":") + B(a.contains(w));
            else if (op == "eq") r += std::string(",\"r\":") + B(a == w && not (a != w));
            else if (op == "trim") { slice x = a.rtrim_n(W.size()); r += ",\"x\":" + bytes(x.begin(), x.length()); }
            else return 3;
            emit(r);
        } else if (not b) continue;
        else if (o == "w" || o == "e") {
            size_t need; s >> need; std::string runs; s >> runs; bool thrown = false, nomem = false; char * p = nullptr; fault::arm(bad);
            try { fault::Scope scope; if (o == "w") p = b->begin_write(need); else b->ensure_capacity(need); } catch (const std::length_error &) { thrown = true; } catch (const std::bad_alloc &) { nomem = true; }
            fault::disarm();
            if (nomem) { emit("\"o\":\"nomem\",\"need\":" + std::to_string(need) + ",\"flt\":" + B(fault::fired)); continue; }
            std::string d = "[";
            if (not thrown && o == "w") {
                std::stringstream rr(runs); std::string t; size_t total = 0;
                std::string data;
                while (std::getline(rr, t, ',')) { size_t c = t.find(':'); data.append(strtoul(t.c_str() + c + 1, nullptr, 10), (char)atoi(t.c_str())); }
                total = data.size(); if (total > b->available()) total = b->available();
                memcpy(p, data.data(), total); b->confirm_write(total);
                d = rle(data.data(), total);
            } else d = "[]";
            emit("\"o\":\"" + std::string(o == "w" ? "write" : "ensure") + "\",\"need\":" + std::to_string(need) + ",\"thrown\":" + B(thrown) + ",\"d\":" + d);
        } else if (o == "r") { size_t k; s >> k; if (k > b->non_read()) k = b->non_read(); slice x = b->confirm_read(k); emit("\"o\":\"read\",\"n\":" + std::to_string(k) + ",\"d\":" + rle(x.begin(), x.length())); }
        else if (o == "a") { slice x = b->read_all(); emit("\"o\":\"all\",\"d\":" + rle(x.begin(), x.length())); }
        else if (o == "u") { std::string h; s >> h; h = unhex(h); slice x = b->try_read_until(slice(h.data(), h.size())); emit("\"o\":\"until\",\"t\":" + bytes(h.data(), h.size()) + ",\"d\":" + rle(x.begin(), x.length())); }
        else if (o == "n") emit("\"o\":\"look\",\"d\":" + rle(b->begin_read(), b->non_read()));
        else if (o == "s") { rs.push_back(b->read_savepoint()); emit("\"o\":\"rsave\""); }
        else if (o == "S") { ws.push_back(b->write_savepoint()); emit("\"o\":\"wsave\""); }
        else if (o == "R") { b->rollback_read_transaction(rs.back()); rs.pop_back(); emit("\"o\":\"rback\""); }
        else if (o == "W") { b->rollback_write_transaction(ws.back()); ws.pop_back(); emit("\"o\":\"wback\""); }
        else if (o == "c") { b->compact(); rs.clear(); ws.clear(); emit("\"o\":\"compact\""); }
        else if (o == "z") { b->reset(); rs.clear(); ws.clear(); emit("\"o\":\"reset\""); }
        else return 3;
    }
    finish(); return 0;
}
