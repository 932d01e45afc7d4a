// Executor for the creation of caches.  Script (sizes in decimal):
//   T                      new trace
//   c api m p h e          create (api: cpp or c), and use it shortly if that worked
//   f m p h                create without evictions, fill the whole memory with items of nearly one page, read all back
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <cachelot/c_api.h>
#include <cachelot/hash_fnv1a.h>
#include "trace.h"
using namespace cachelot;
static std::string ev; static FILE * out; static bool open_ = false;
static void emit(const std::string & s) { if (not ev.empty()) ev += ","; ev += "{" + s + "}"; }
static std::string B(bool b) { return b ? "true" : "false"; }
static std::string pat(size_t i, size_t n) { std::string s(n, char('a' + i % 26)); std::string h = std::to_string(i); for (size_t j = 0; j < h.size() && j < n; ++j) { s[j] = h[j]; s[n - 1 - j] = h[j]; } if (n > 2000) for (size_t j = 997; j < n; j += 997) s[j] = char((i * 7 + j) & 0xff); return s; }
static uint32 hash_of(const std::string & k) { auto h = fnv1a<uint32>::hasher(); return h(slice(k.data(), k.size())); }
static bool put(cache::Cache & c, const std::string & k, const std::string & v) {
    try { auto it = c.create_item(slice(k.data(), k.size()), hash_of(k), v.size(), 0, cache::Item::infinite_TTL); it->assign_value(slice(v.data(), v.size())); c.do_set(it); return true; }
    catch (const std::exception &) { return false; }
}
static bool has(cache::Cache & c, const std::string & k, const std::string & v) {
    auto i = c.do_get(slice(k.data(), k.size()), hash_of(k));
    return i && i->value().length() == v.size() && memcmp(i->value().begin(), v.data(), v.size()) == 0;
}
int main(int, char ** argv) {
    std::ifstream in(argv[1]); out = fopen(argv[2], "w"); std::string line;
    auto finish = [&] { if (open_) { fprintf(out, "{\"hdr\":{\"x\":0},\"ev\":[%s]}\n", ev.c_str()); fflush(out); } };
    while (std::getline(in, line)) {
        std::stringstream s(line); std::string o; s >> o;
        if (o == "T") { finish(); ev.clear(); open_ = true; continue; }
        if (o == "c") {
            std::string api, m, p, h; int e; s >> api >> m >> p >> h >> e;
            size_t M = strtoull(m.c_str(), 0, 10), P = strtoull(p.c_str(), 0, 10), H = strtoull(h.c_str(), 0, 10);
            bool ok = false;
            std::string k = "key", v = "value";
            if (api == "cpp") {
                try { auto c = cache::Cache::Create(M, P, H, e); ok = put(c, k, v) && has(c, k, v) && c.do_delete(slice(k.data(), k.size()), hash_of(k)); if (not ok) { fprintf(stderr, "created but not usable\n"); return 9; } }
                catch (const std::exception &) { ok = false; }
            } else {
                CachelotOptions opt; memset(&opt, 0, sizeof opt); opt.memory_limit = M; opt.mem_page_size = P; opt.initial_dict_size = H; opt.enable_evictions = e;
                CachelotError er; memset(&er, 0, sizeof er);
                auto c = cachelot_init(opt, &er);
                ok = c != nullptr;
                if (not ok && er.desription[0] == 0) { fprintf(stderr, "refused without an error\n"); return 9; }
                cachelot_destroy(c);
            }
            emit("\"o\":\"create\",\"m\":" + js_digits(m) + ",\"p\":" + js_digits(p) + ",\"h\":" + js_digits(h) + ",\"ok\":" + B(ok));
        } else if (o == "f") {
            std::string m, p, h; s >> m >> p >> h;
            size_t M = strtoull(m.c_str(), 0, 10), P = strtoull(p.c_str(), 0, 10), H = strtoull(h.c_str(), 0, 10);
            size_t n = M / P, stored = 0, good = 0; bool refused = false, after = false;
            try {
                auto c = cache::Cache::Create(M, P, H, false);
                auto key = [](size_t i) { char b[32]; snprintf(b, sizeof b, "k%09zu", i); return std::string(b); };
                size_t len = P - 10 - 64;
                for (size_t i = 0; i < n; ++i) stored += put(c, key(i), pat(i, len));
                refused = not put(c, key(n), pat(n, len));
                for (size_t i = 0; i < n; ++i) good += has(c, key(i), pat(i, len));
                std::string k0 = key(n / 2);      // freed memory can be used again
                after = c.do_delete(slice(k0.data(), k0.size()), hash_of(k0)) && put(c, key(n), pat(n, len)) && has(c, key(n), pat(n, len)) && not has(c, k0, pat(n / 2, len));
            } catch (const std::exception & x) { fprintf(stderr, "%s\n", x.what()); }
            emit("\"o\":\"fill\",\"m\":" + js_digits(m) + ",\"p\":" + js_digits(p) + ",\"tried\":" + std::to_string(n) + ",\"tried_d\":" + js_digits(std::to_string(n)) + ",\"stored\":" + std::to_string(stored) + ",\"good\":" + std::to_string(good) + ",\"refused\":" + B(refused) + ",\"after\":" + B(after));
        } else return 3;
    }
    finish(); return 0;
}
