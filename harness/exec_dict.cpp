// Executor of scripts on cachelot::dict / cachelot::hash_table (!n before p or i: the n-th allocation of that operation fails)
//   T kind cap nk      kind: d = dict, t = hash_table
//   K hash             (nk times)
//   g k | c k | p k v | i k v (entry_for+insert/replace) | d k | x k (entry_for+remove) | r m (remove values divisible by m) | Z | A (all) | F a b v
#include <cachelot/common.h>
#include <cachelot/dict.h>
#include "trace.h"
#include "fault.h"
using namespace cachelot;
struct Opt { typedef uint32 size_type; typedef uint32 hash_type; static constexpr size_type max_load_factor_percent = 93; };
typedef dict<int, int, std::equal_to<int>, internal::hash_table_entry<int, int>, Opt> Dict;
typedef hash_table<int, int, std::equal_to<int>, internal::hash_table_entry<int, int>, Opt> Table;
static std::vector<uint32> H;

int main(int argc, char ** argv) {
    std::ifstream in(argv[1]); FILE * out = fopen(argv[2], "w");
    std::string line; std::unique_ptr<Dict> d; std::unique_ptr<Table> t; std::string ev; int nk = 0;
    auto finish = [&] { if (d || t) { fprintf(out, "{\"hdr\":{\"nk\":%d},\"ev\":[%s]}\n", nk, ev.c_str()); fflush(out); } };
    auto emit = [&](const std::string & s) {
        if (not ev.empty()) ev += ",";
        ev += "{" + s + ",\"n\":" + std::to_string(d ? d->size() : t->size()) + ",\"e\":" + ((d ? d->empty() : t->empty()) ? "true" : "false") + "}";
    };
    auto B = [](bool b) { return b ? "true" : "false"; };
    auto put = [&](int k, int v, bool via) -> std::string {
        bool fresh, good; fault::Scope scope;
        if (d) {
            bool found; Dict::iterator it; tie(found, it) = d->entry_for(k, H[k]);
            fresh = not found;
            if (found) it.unsafe_replace_kv(k, H[k], v); else it = d->insert(it, k, H[k], v);
            good = bool(it) && it.key() == k && it.value() == v;
        } else if (via) {
            bool found; Opt::size_type at; tie(found, at) = t->entry_for(k, H[k]);
            fresh = not found;
            if (found) { good = t->entry_at(at).key() == k && not t->put(k, H[k], v); }
            else { at = t->insert(at, k, H[k], v); good = not t->empty_at(at) && t->hash_at(at) == H[k] && t->entry_at(at).key() == k && t->entry_at(at).value() == v; }
        } else { fresh = t->put(k, H[k], v); good = true; }
        fault::Pause pause;
        return std::string("\"new\":") + B(fresh) + ",\"pos\":" + B(good);
    };
    while (std::getline(in, line)) {
        std::stringstream s(line); std::string o; s >> o;
        long bad = 0; if (o[0] == '!') { bad = atol(o.c_str() + 1); s >> o; }
        if (o == "T") {
            finish(); ev.clear(); H.assign(1, 0); d.reset(); t.reset();
            std::string kind; size_t cap; s >> kind >> cap >> nk;
            if (kind == "d") d.reset(new Dict(cap)); else t.reset(new Table(cap));
        } else if (o == "K") { uint32 h; s >> h; H.push_back(h); }
        else if (o == "g") { int k; s >> k; bool f; int v; if (d) tie(f, v) = d->get(k, H[k]); else tie(f, v) = t->get(k, H[k]);
            emit("\"o\":\"get\",\"k\":" + std::to_string(k) + ",\"hit\":" + B(f) + ",\"v\":" + std::to_string(f ? v : 0)); }
        else if (o == "l") { int k; s >> k; bool f; int v = 0;     // read-only entry_for
            if (d) { Dict::iterator it; tie(f, it) = d->entry_for(k, H[k], true); if (f) v = it.key() == k ? it.value() : -1; }
            else { Opt::size_type at; tie(f, at) = t->entry_for(k, H[k]); if (f) v = t->entry_at(at).key() == k ? t->entry_at(at).value() : -1; }
            emit("\"o\":\"get\",\"k\":" + std::to_string(k) + ",\"hit\":" + B(f) + ",\"v\":" + std::to_string(v)); }
        else if (o == "c") { int k; s >> k; emit("\"o\":\"has\",\"k\":" + std::to_string(k) + ",\"hit\":" + B(d ? d->contains(k, H[k]) : t->contains(k, H[k]))); }
        else if (o == "p" || o == "i") { int k, v; s >> k >> v;
            if (t && t->threshold_reached()) continue;
            std::string r; fault::arm(bad);
            try { r = put(k, v, o == "i"); } catch (const std::bad_alloc &) { r = "thrown"; }
            fault::disarm();
            if (r == "thrown") emit("\"o\":\"nomem\",\"k\":" + std::to_string(k) + ",\"flt\":" + B(fault::fired));
            else emit("\"o\":\"put\",\"k\":" + std::to_string(k) + ",\"v\":" + std::to_string(v) + "," + r); }
        else if (o == "F") { int a, b, v; s >> a >> b >> v; bool ok = true;
            for (int k = a; k <= b; ++k) ok = put(k, v + k, true).find("\"new\":true,\"pos\":true") != std::string::npos && ok;
            emit("\"o\":\"fill\",\"a\":" + std::to_string(a) + ",\"b\":" + std::to_string(b) + ",\"v\":" + std::to_string(v) + ",\"ok\":" + B(ok)); }
        else if (o == "d") { int k; s >> k; emit("\"o\":\"del\",\"k\":" + std::to_string(k) + ",\"r\":" + B(d ? d->del(k, H[k]) : t->del(k, H[k]))); }
        else if (o == "x") { int k; s >> k; bool f;
            if (d) { Dict::iterator it; tie(f, it) = d->entry_for(k, H[k], true); if (f) d->remove(it); }
            else { Opt::size_type at; tie(f, at) = t->entry_for(k, H[k]); if (f) t->remove(at); }
            emit("\"o\":\"del\",\"k\":" + std::to_string(k) + ",\"r\":" + B(f)); }
        else if (o == "r") { int m; s >> m; auto pred = [m](int v) { return v % m == 0; };
            if (d) d->remove_if(pred); else t->remove_if(pred);
            emit("\"o\":\"rmif\",\"m\":" + std::to_string(m)); }
        else if (o == "Z") { if (d) d->clear(); else t->clear(); emit("\"o\":\"clear\""); }
        else if (o == "A") {
            std::string a;
            for (int k = 1; k <= nk; ++k) {
                bool f; int v; if (d) tie(f, v) = d->get(k, H[k]); else tie(f, v) = t->get(k, H[k]);
                if (f != (d ? d->contains(k, H[k]) : t->contains(k, H[k]))) v = -7;
                if (k > 1) a += ","; a += std::to_string(f ? v : 0);
            }
            emit("\"o\":\"all\",\"c\":[" + a + "]");
        } else return 3;
    }
    finish(); return 0;
}
