// Executes scripts against the real cachelot::cache::Cache (or, with -DUSE_C_API, through the C API)
// and records the observed history, one JSON line per script.
#include <cachelot/common.h>
#include <cachelot/cache.h>
#include <cachelot/c_api.h>
#include <cachelot/stats.h>
#include "vclock.h"
#include "trace.h"
#include "fault.h"
using namespace cachelot;
typedef cachelot::cache::Cache Cache;

struct Key { std::string bytes; uint32 hash; };

static Values V;
static std::vector<Key> K;              // 1-based
static std::unordered_map<std::string, long> KID;
static size_t g_page = 0, g_np = 0; static bool g_addr = true; static long long g_page0 = -1;
static std::string g_ev; static bool g_use_hash_fn = false;
static bool g_made = false, g_want = true;
static std::string g_err; // last error structure inconsistency (C API)

static long key_id(const std::string & k) { auto i = KID.find(k); return i == KID.end() ? 0 : i->second; }

static void addr_of(const void * p, long & pg, long & off) {
    if (not g_addr) { pg = -1; off = 0; return; }
    auto a = (unsigned long long)p;
    long long n = (long long)(a / g_page);
    if (g_page0 < 0) g_page0 = n;
    pg = (long)(n - g_page0 + 100000); off = (long)(a % g_page);
}

static void record_eviction(const std::string & key, const char * v, size_t n, unsigned fl, const void * p) {
    fault::Pause pause; long pg, off; addr_of(p, pg, off);
    if (not g_ev.empty()) g_ev += ',';
    g_ev += "{\"k\":" + std::to_string(key_id(key)) + ",\"val\":" + js(V.decode(v, n)) + ",\"fl\":" + std::to_string(fl)
          + ",\"pg\":" + std::to_string(pg) + ",\"off\":" + std::to_string(off) + "}";
}

static const char * err_name(const system_error & e) {
    if (e.code() == make_error_code(error::key_too_long)) return "err_key";
    if (e.code() == make_error_code(error::item_too_big)) return "err_big";
    if (e.code() == make_error_code(error::out_of_memory)) return "err_oom";
    if (e.code() == make_error_code(error::numeric_convert)) return "err_num";
    if (e.code() == make_error_code(error::numeric_overflow)) return "err_num";
    return "err_other";
}

// version tokens are opaque 64-bit numbers: the trace names them by the order of their first appearance
static std::map<unsigned long, long> g_tokens;
static long token_name(unsigned long raw) {
    auto it = g_tokens.find(raw);
    if (it == g_tokens.end()) it = g_tokens.insert({raw, (long)g_tokens.size() + 1}).first;
    return it->second;
}

struct Seen { bool hit = false; std::string val = "[]"; unsigned fl = 0; unsigned long tok = 0; long pg = -1, off = 0; long ttl = -1; };

#ifdef USE_C_API
static const bool HAVE_TOKENS = false;
// -------- C API backend ------------------------------------------------------------------------
static CachelotPtr C = nullptr;
static bool g_with_err = true; static CachelotError ERRS; static uint32 g_flip = 0;
static CachelotError * errp() { // alternate between a dirty error struct and no struct at all
    g_with_err = (++g_flip % 5) != 0 || fault::countdown;
    memset(&ERRS, 0x5a, sizeof ERRS); ERRS.code = 77777; ERRS.category = "stale";
    return g_with_err ? &ERRS : nullptr;
}
static void expect_clear(const char * where) {
    if (g_with_err && (ERRS.code != 0 || ERRS.category != nullptr || ERRS.desription[0] != 0)) g_err = std::string("error-not-cleared:") + where;
}
static const char * errcode(const char * where) {
    if (not g_with_err) return "err_any";
    if (fault::fired && ERRS.category && strcmp(ERRS.category, "stale") != 0 && ERRS.desription[0] != 0) return "err_sys"; // (not an error of its own: code 0, named by the category)
    if (ERRS.code == 77777 || ERRS.code == 0 || ERRS.category == nullptr || strcmp(ERRS.category, "stale") == 0) { g_err = std::string("error-not-set:") + where; return "err_other"; }
    if (memchr(ERRS.desription, 0, sizeof ERRS.desription) == nullptr || ERRS.desription[0] == 0) g_err = std::string("error-description:") + where;
    static const struct { int code; const char * name; } tab[] = {
        { (int)error::key_too_long, "err_key" }, { (int)error::item_too_big, "err_big" }, { (int)error::out_of_memory, "err_oom" },
        { (int)error::numeric_convert, "err_num" }, { (int)error::numeric_overflow, "err_num" } };
    for (auto & t : tab) if (t.code == ERRS.code) return t.name;
    return "err_other";
}
static void on_evict(CachelotConstItemPtr i) {
    record_eviction(std::string(cachelot_item_get_key(i), cachelot_item_get_keylen(i)), cachelot_item_get_value(i), cachelot_item_get_valuelen(i), 0, i);
}
static void on_evict_stale(CachelotConstItemPtr) { g_err = "stale-callback-called"; }
static bool open_cache(size_t mem, size_t page, size_t dict, bool evict) {
    CachelotOptions o; o.memory_limit = mem; o.mem_page_size = page; o.initial_dict_size = dict; o.enable_evictions = evict;
    C = cachelot_init(o, errp());
    if (C) { expect_clear("init"); cachelot_on_eviction_callback(C, on_evict_stale); cachelot_on_eviction_callback(C, nullptr); cachelot_on_eviction_callback(C, on_evict); return true; }
    errcode("init"); return false;
}
static void close_cache() { cachelot_destroy(C); C = nullptr; }
// registers callbacks one after the other (A, B, 0 = none) on a cache of its own, which is overfilled in each step
static long g_a, g_b;
static void cb_a(CachelotConstItemPtr) { ++g_a; }
static void cb_b(CachelotConstItemPtr) { ++g_b; }
static std::string callbacks(const std::string & plan) {
    CachelotOptions o; o.memory_limit = 8 * 1024; o.mem_page_size = 1024; o.initial_dict_size = 16; o.enable_evictions = true;
    CachelotError e; CachelotPtr c = cachelot_init(o, &e); std::string out; long n = 0; std::map<long, bool> there; std::string val(300, 'v');
    for (char p : plan) {
        if (p != '-') cachelot_on_eviction_callback(c, p == 'A' ? cb_a : p == 'B' ? cb_b : nullptr);
        g_a = g_b = 0; long gone = 0; long ok = 0;
        auto key = [](const std::string & s, long i) { CachelotItemKey k; k.key = s.data(); k.keylen = s.size(); k.hash = (uint32_t)(i * 2654435761u); return k; };
        for (long i = 0; i < 30; ++i) { std::string k = "key" + std::to_string(n); auto it = cachelot_create_item_raw(c, key(k, n), val.data(), val.size(), &e); if (it && cachelot_set(c, it, &e)) { ++ok; there[n] = true; } ++n; }
        for (auto & x : there) if (x.second) { std::string k = "key" + std::to_string(x.first); if (not cachelot_get_unsafe(c, key(k, x.first), &e)) { x.second = false; ++gone; } }
        if (not out.empty()) out += ',';
        out += std::string("{\"cb\":\"") + p + "\",\"a\":" + std::to_string(g_a) + ",\"b\":" + std::to_string(g_b) + ",\"gone\":" + std::to_string(gone) + ",\"ok\":" + std::to_string(ok) + "}";
    }
    cachelot_destroy(c);
    return "{\"o\":\"cb\",\"steps\":[" + out + "]}";
}
static CachelotItemKey ck(long k) { CachelotItemKey x; x.key = K[k].bytes.data(); x.keylen = K[k].bytes.size(); x.hash = K[k].hash; return x; }
static Seen do_get(long k) {
    Seen s; auto i = cachelot_get_unsafe(C, ck(k), errp()); expect_clear("get");
    if (i) {
        s.hit = true; s.val = js(V.decode(cachelot_item_get_value(i), cachelot_item_get_valuelen(i)));
        if (std::string(cachelot_item_get_key(i), cachelot_item_get_keylen(i)) != K[k].bytes) s.val = "[999]";
        addr_of(i, s.pg, s.off); s.ttl = units(cachelot_item_get_ttl_seconds(i));
    }
    return s;
}
static std::string do_store(const std::string & verb, long k, const std::string & val, unsigned, unsigned long ttl, unsigned long, unsigned long & tok, long & pg, long & off) {
    tok = 0; pg = -1; off = 0;
    auto key = ck(k); CachelotItemPtr i; CachelotError * e = errp();
    { fault::Scope scope; i = cachelot_create_item_raw(C, key, val.data(), val.size(), e); }
    if (not i) return errcode("create");
    expect_clear("create"); g_made = true;
    addr_of(i, pg, off);
    if (std::string(cachelot_item_get_key(i), cachelot_item_get_keylen(i)) != K[k].bytes) g_err = "created-item-key";
    if (std::string(cachelot_item_get_value(i), cachelot_item_get_valuelen(i)) != val) g_err = "created-item-value";
    long long before = vclock::now_sec; cachelot_item_set_ttl_seconds(i, (uint32_t)ttl); long long got = cachelot_item_get_ttl_seconds(i);
    if ((long long)ttl + vclock::now_sec < 4294967295ll && (got > (long long)ttl || (ttl && got < (long long)ttl - (vclock::now_sec - before)))) g_err = "created-item-ttl";
    if (verb == "discard") { cachelot_destroy_item(C, i); return "discarded"; }
    e = errp(); bool ok;
    // an untouched structure after a false result means neither success nor failure was reported
    { fault::Scope scope;
    if (verb == "set") ok = cachelot_set(C, i, e);
    else if (verb == "add") ok = cachelot_add(C, i, e);
    else if (verb == "replace") ok = cachelot_replace(C, i, e);
    else if (verb == "append") ok = cachelot_append(C, i, e);
    else ok = cachelot_prepend(C, i, e); }
    if (ok) { expect_clear(verb.c_str()); return "stored"; }
    if (g_with_err) { if (ERRS.code == 0 && not (fault::fired && ERRS.category)) { expect_clear(verb.c_str()); return "not_stored"; } return errcode(verb.c_str()); }
    return "not_stored_or_err";
}
static std::string do_del(long k) { bool r = cachelot_delete(C, ck(k), errp()); expect_clear("delete"); return r ? "deleted" : "not_found"; }
static std::string do_touch(long k, unsigned long ttl) { bool r = cachelot_touch(C, ck(k), (uint32_t)ttl, errp()); expect_clear("touch"); return r ? "touched" : "not_found"; }
static std::string do_arith(bool incr, long k, unsigned long long d, std::string & n) {
    uint64_t res = 424242; CachelotError * e = errp();
    bool want = (g_flip % 7) != 3; g_want = want;
    bool ok; auto key = ck(k);
    { fault::Scope scope; ok = incr ? cachelot_incr(C, key, d, want ? &res : nullptr, e) : cachelot_decr(C, key, d, want ? &res : nullptr, e); }
    if (ok) { expect_clear("arith"); n = want ? std::to_string((unsigned long long)res) : ""; return "stored"; }
    if (g_with_err) { if (ERRS.code == 0 && not (fault::fired && ERRS.category)) { expect_clear("arith"); return "not_found"; } return errcode("arith"); }
    return "not_stored_or_err";
}
static void do_flush() { cachelot_flush_all(C, errp()); expect_clear("flush"); }
static void publish() {}
#else
static const bool HAVE_TOKENS = true;
// -------- C++ API backend ----------------------------------------------------------------------
static std::unique_ptr<Cache> C;
static bool open_cache(size_t mem, size_t page, size_t dict, bool evict) {
    try { C.reset(new Cache(Cache::Create(mem, page, dict, evict))); } catch (const std::exception &) { return false; }
    C->on_eviction = [](cache::ConstItemPtr i) {
        record_eviction(std::string(i->key().begin(), i->key().length()), i->value().begin(), i->value().length(), i->opaque_flags(), i);
    };
    return true;
}
static void close_cache() { C.reset(); }
static slice sl(const std::string & s) { return slice(s.data(), s.size()); }
static Seen do_get(long k) {
    Seen s; cache::ConstItemPtr i; { fault::Scope scope; i = C->do_get(sl(K[k].bytes), K[k].hash); }
    if (i) {
        s.hit = true; s.val = js(V.decode(i->value().begin(), i->value().length()));
        if (i->key() != sl(K[k].bytes)) s.val = "[999]";
        s.fl = i->opaque_flags(); s.tok = (unsigned long)i->timestamp(); addr_of(i, s.pg, s.off);
    }
    return s;
}
static std::string do_store(const std::string & verb, long k, const std::string & val, unsigned fl, unsigned long ttl, unsigned long cas, unsigned long & tok, long & pg, long & off) {
    tok = 0; pg = -1; off = 0;
    try {
        fault::Scope scope;
        auto i = C->create_item(sl(K[k].bytes), K[k].hash, val.size(), (cache::opaque_flags_type)fl, cache::seconds((uint32)ttl));
        g_made = true; i->assign_value(sl(val));
        tok = (unsigned long)i->timestamp(); addr_of(i, pg, off);
        if (verb == "discard") { C->destroy_item(i); return "discarded"; }
        if (verb == "set") { C->do_set(i); return "stored"; }
        if (verb == "add") return C->do_add(i) ? "stored" : "not_stored";
        if (verb == "replace") return C->do_replace(i) ? "stored" : "not_stored";
        if (verb == "append") return C->do_append(i) ? "stored" : "not_stored";
        if (verb == "prepend") return C->do_prepend(i) ? "stored" : "not_stored";
        bool found, stored; tie(found, stored) = C->do_cas(i, cas);
        if (not found) return stored ? "err_other" : "not_found";
        return stored ? "stored" : "exists";
    } catch (const system_error & e) { return err_name(e); } catch (const std::bad_alloc &) { return "err_sys"; }
}
static std::string do_del(long k) { fault::Scope scope; return C->do_delete(sl(K[k].bytes), K[k].hash) ? "deleted" : "not_found"; }
static std::string do_touch(long k, unsigned long ttl) { fault::Scope scope; return C->do_touch(sl(K[k].bytes), K[k].hash, cache::seconds((uint32)ttl)) ? "touched" : "not_found"; }
static std::string do_arith(bool incr, long k, unsigned long long d, std::string & n) {
    try {
        bool found; uint64 v;
        { fault::Scope scope; if (incr) tie(found, v) = C->do_incr(sl(K[k].bytes), K[k].hash, d); else tie(found, v) = C->do_decr(sl(K[k].bytes), K[k].hash, d); }
        if (found) n = std::to_string((unsigned long long)v);
        return found ? "stored" : "not_found";
    } catch (const system_error & e) { return err_name(e); } catch (const std::bad_alloc &) { return "err_sys"; }
}
static void do_flush() { C->do_flush_all(); }
static void publish() { C->publish_stats(); }
#endif

int main(int argc, char * argv[]) {
    std::ifstream in(argv[1]); std::ofstream out(argv[2]);
    std::string line; std::vector<std::string> evs; std::string hdr; std::map<long, unsigned long> reg;
    bool open = false; size_t limit = argc > 3 ? atol(argv[3]) : 0; (void)limit;
    bool stats = false, evict = false, nd = false; size_t dict = 16;
    std::string meta;
    auto finish = [&]() {
        if (not open) return;
        std::string kl = "[", bl = "[";
        for (size_t i = 1; i < K.size(); ++i) { if (i > 1) kl += ','; kl += std::to_string(K[i].bytes.size()); }
        for (auto & b : V.blob_len) { if (bl.size() > 1) bl += ','; bl += std::to_string(b.second); }
        size_t bh = memalloc::header_size();
        std::string o = "{\"hdr\":{\"nk\":" + std::to_string(K.size() - 1) + ",\"kl\":" + kl + "],\"bl\":" + bl + "],\"isz\":" + std::to_string(sizeof(cache::Item))
            + ",\"page\":" + std::to_string(g_page) + ",\"np\":" + std::to_string(g_np) + ",\"bh\":" + std::to_string(bh) + ",\"evict\":" + (evict ? "true" : "false")
            + ",\"addr\":" + (g_addr ? "true" : "false") + ",\"stats\":" + (stats ? "true" : "false") + ",\"nd\":" + (nd ? "true" : "false") + ",\"tmax\":" + std::to_string(g_scale > 1 ? 4294967295l / g_scale + 1 : 2147483647l) + "},\"ev\":[";
        for (size_t i = 0; i < evs.size(); ++i) { if (i) o += ','; o += evs[i]; }
        out << o << "]}\n"; out.flush();
        close_cache(); open = false;
    };
    while (std::getline(in, line)) {
        if (line.empty()) continue;
        std::stringstream ss(line); std::string o; ss >> o;
        if (o == "T") { // T page np dict evict clock stats addr nd
            finish(); evs.clear(); K.assign(1, Key()); KID.clear(); V.blob_len.clear(); reg.clear(); g_tokens.clear(); g_page0 = -1; g_err.clear();
            int ev, st, ad, n; ss >> g_page >> g_np >> dict >> ev >> vclock::now_sec >> st >> ad >> n;
            g_scale = 1; evict = ev; stats = st; g_addr = ad; nd = n; vclock::calls_to_tick = 0;
            ResetStats();
            if (not open_cache(g_page * g_np, g_page, dict, evict)) { std::cerr << "cannot create cache: " << line << "\n"; return 3; }
            open = true; continue;
        }
        if (o == "X") { ss >> g_scale; vclock::now_sec *= g_scale; continue; } // one time unit of this trace is so many seconds
        if (o == "K") { std::string h; Key k; unsigned long hash; ss >> hash >> h; k.bytes = unhex(h); k.hash = (uint32)hash; KID[k.bytes] = (long)K.size(); K.push_back(k); continue; }
        if (o == "B") { long id; size_t n; ss >> id >> n; V.blob_len[id] = n; continue; }
        if (o == "c") { long s; ss >> s; vclock::now_sec += s * g_scale; continue; }
        long bad = 0; if (o[0] == '!') { bad = atol(o.c_str() + 1); ss >> o; } // the n-th allocation of this operation fails
        long tick = 0; if (o[0] == '~') { tick = atol(o.c_str() + 1); ss >> o; }
        long long t0 = vclock::now_sec; vclock::calls_to_tick = tick; g_ev.clear(); g_made = false; g_want = true;
        std::string e; fault::arm(bad);
        auto times = [&]() { return std::string(bad ? fault::fired ? ",\"flt\":true" : ",\"flt\":false" : "") + ",\"t0\":" + std::to_string(t0 / g_scale) + ",\"t1\":" + std::to_string(vclock::now_sec / g_scale); };
        if (o == "g" || o == "G") { // g k [register] | G k n: n times, the last one is recorded
            long k, r = -1; ss >> k; ss >> r;
            if (o == "G") { for (long j = 1; j < r; ++j) if (not do_get(k).hit) break; r = -1; }
            Seen s = do_get(k); if (r >= 0 && s.hit) reg[r] = s.tok;
            e = "{\"o\":\"get\",\"k\":" + std::to_string(k) + ",\"hit\":" + (s.hit ? "true" : "false") + ",\"val\":" + s.val + ",\"fl\":" + std::to_string(s.fl)
              + ",\"tok\":" + std::to_string(HAVE_TOKENS && s.hit ? token_name(s.tok) : 0) + ",\"pg\":" + std::to_string(s.pg) + ",\"off\":" + std::to_string(s.off) + ",\"ttl\":" + std::to_string(s.ttl) + times() + "}";
        } else if (o == "s") { // s verb k flags ttl cas pieces
            std::string verb, cas, ps; long k; unsigned fl; unsigned long ttl; ss >> verb >> k >> fl >> ttl >> cas >> ps;
            unsigned long c = 0; if (cas[0] == 'r') { c = reg[atol(cas.c_str() + 1)]; auto plus = cas.find('+'); if (plus != std::string::npos) c += strtoul(cas.c_str() + plus + 1, nullptr, 10); } else if (cas != "-") c = strtoul(cas.c_str(), nullptr, 10);
            Pieces p = parse_pieces(ps); unsigned long tok; long pg, off;
            std::string r = do_store(verb, k, V.encode(p), fl, ttl * g_scale, c, tok, pg, off);
            vclock::calls_to_tick = 0;
            e = std::string("{\"o\":\"") + (verb == "discard" ? "discard" : "store") + "\",\"verb\":\"" + verb + "\",\"k\":" + std::to_string(k) + ",\"val\":" + js(p) + ",\"fl\":" + std::to_string(fl)
              + ",\"ttl\":" + std::to_string(cap_ttl(ttl)) + ",\"cas\":" + std::to_string(verb == "cas" ? token_name(c) : 0) + ",\"r\":\"" + r + "\",\"tok\":" + std::to_string(HAVE_TOKENS && (tok != 0 || pg >= 0) ? token_name(tok) : 0) + ",\"pg\":" + std::to_string(pg)
              + ",\"off\":" + std::to_string(off) + ",\"made\":" + (g_made ? "true" : "false") + ",\"ev\":[" + g_ev + "]" + times() + "}";
        } else if (o == "d") {
            long k; ss >> k; std::string r = do_del(k);
            e = "{\"o\":\"del\",\"k\":" + std::to_string(k) + ",\"r\":\"" + r + "\"" + times() + "}";
        } else if (o == "t") {
            long k; unsigned long ttl; ss >> k >> ttl; std::string r = do_touch(k, ttl * g_scale);
            e = "{\"o\":\"touch\",\"k\":" + std::to_string(k) + ",\"ttl\":" + std::to_string(cap_ttl(ttl)) + ",\"r\":\"" + r + "\"" + times() + "}";
        } else if (o == "a") { // a incr|decr k delta
            std::string op, d; long k; ss >> op >> k >> d; std::string n;
            std::string r = do_arith(op == "incr", k, strtoull(d.c_str(), nullptr, 10), n);
            e = "{\"o\":\"arith\",\"op\":\"" + op + "\",\"k\":" + std::to_string(k) + ",\"d\":" + js_digits(d) + ",\"r\":\"" + r + "\",\"n\":" + js_digits(n) + ",\"want\":" + (g_want ? "true" : "false") + ",\"ev\":[" + g_ev + "]" + times() + "}";
        } else if (o == "f") { do_flush(); e = "{\"o\":\"flush\"" + times() + "}";
        } else if (o == "F") { // fill lo hi
            long lo, hi; ss >> lo >> hi; std::string r = "stored";
            for (long k = lo; k <= hi; ++k) { unsigned long tok; long pg, off; std::string x = do_store("set", k, Values::stamp(k), 0, 0, 0, tok, pg, off); if (x != "stored") r = x; }
            e = "{\"o\":\"fill\",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"r\":\"" + r + "\",\"ev\":[" + g_ev + "]" + times() + "}";
        } else if (o == "W") { // sweep lo hi
            long lo, hi; ss >> lo >> hi; std::string vals;
            for (long k = lo; k <= hi; ++k) { Seen s = do_get(k); if (k > lo) vals += ','; vals += s.hit ? s.val : std::string("[-1]"); }
            e = "{\"o\":\"sweep\",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"vals\":[" + vals + "]" + times() + "}";
#ifndef USE_C_API
        } else if (o == "Z") { // many modifications of a key that is not part of the history, which is gone afterwards
            long n; ss >> n; std::string z("\x7f-scratch");
            for (long j = 0; j < n; ++j) { auto i = C->create_item(sl(z), 12345, 1, 0, cache::Item::infinite_TTL); i->assign_value(slice("x", 1)); C->do_set(i); }
            C->do_delete(sl(z), 12345); continue;
#endif
#ifdef USE_C_API
        } else if (o == "P") { std::string plan; ss >> plan; e = callbacks(plan);
#endif
        } else if (o == "D") { // delete lo hi
            long lo, hi; ss >> lo >> hi; long n = 0;
            for (long k = lo; k <= hi; ++k) if (do_del(k) == "deleted") ++n;
            e = "{\"o\":\"delall\",\"lo\":" + std::to_string(lo) + ",\"hi\":" + std::to_string(hi) + ",\"n\":" + std::to_string(n) + times() + "}";
        } else if (o == "S") { // statistics snapshot
            publish();
            e = "{\"o\":\"stat\",";
#ifndef USE_C_API
            e += "\"curr\":" + std::to_string(STAT_GET(cache, curr_items)) + ",";
#endif
            e += "\"used\":" + std::to_string(STAT_GET(mem, used_memory))
              + ",\"limit\":" + std::to_string(STAT_GET(mem, limit_maxbytes)) + ",\"pagesize\":" + std::to_string(STAT_GET(mem, page_size)) + ",\"num_free\":" + std::to_string(STAT_GET(mem, num_free));
            if (stats) {
                std::string c;
                #define X(t, n, d) if (not c.empty()) c += ','; c += "\"" #n "\":" + std::to_string((unsigned long long)STAT_GET(cache, n));
                CACHE_STATS(X)
                #undef X
                #define X(t, n, d) c += ",\"" #n "\":" + std::to_string((unsigned long long)STAT_GET(mem, n));
                MEMORY_STATS(X)
                #undef X
                e += ",\"c\":{" + c + "}";
            }
            e += "}";
        } else { std::cerr << "bad script line: " << line << "\n"; return 3; }
        vclock::calls_to_tick = 0;
        if (not g_err.empty()) { evs.push_back("{\"o\":\"ERROR\",\"what\":\"" + g_err + "\"}"); g_err.clear(); }
        evs.push_back(e);
    }
    finish();
    return 0;
}
