// Executes scripts against the real memalloc and records the observed history.
//   T page np | a id size evict | f id | r id size | t id
#include <cachelot/common.h>
#include <cachelot/memalloc.h>
#include <cachelot/stats.h>
#include "trace.h"
using namespace cachelot;

struct Live { unsigned char * p; size_t size; };
static std::map<long, Live> L; // live allocations by id
static unsigned char pat(long id, size_t i) { return (unsigned char)(id * 37 + i * 11 + (i >> 8)); }
// big areas are looked at in places only: at both ends and here and there
static size_t next_pos(size_t i, size_t size) { if (size <= 20000 || i < 64 || i + 64 >= size) return i + 1; size_t n = i - i % 4096 + 4096; return n + 64 < size ? n : size - 64; }
static void paint(long id, size_t from) { auto & l = L[id]; for (size_t i = from; i < l.size; i = next_pos(i, l.size)) l.p[i] = pat(id, i); }
// a resized area has other places
static void repaint(long id) { paint(id, 0); }

int main(int, char * argv[]) {
    std::ifstream in(argv[1]); std::ofstream out(argv[2]);
    std::unique_ptr<memalloc> A; std::string line; std::vector<std::string> evs; size_t page = 0, np = 0; long long page0 = -1; bool open = false;
    auto finish = [&]() {
        if (not open) return;
        std::string o = "{\"hdr\":{\"page\":" + std::to_string(page) + ",\"np\":" + std::to_string(np) + ",\"bh\":" + std::to_string(memalloc::header_size()) + "},\"ev\":[";
        for (size_t i = 0; i < evs.size(); ++i) { if (i) o += ','; o += evs[i]; }
        out << o << "]}\n"; out.flush(); open = false; L.clear(); A.reset();
    };
    while (std::getline(in, line)) {
        std::stringstream ss(line); std::string o; ss >> o; if (o.empty()) continue;
        if (o == "T") { finish(); ss >> page >> np; ResetStats(); A.reset(new memalloc(page * np, (uint32)page)); evs.clear(); page0 = -1; open = true; continue; }
        long id; ss >> id; size_t size = 0; int evict = 0; std::string name, ev; bool ok = true; bool evbad = false;
        auto whose = [&](void * p) -> long { for (auto & l : L) if (l.second.p == p) return l.first; return -1; };
        std::string badlist;
        auto bad = [&](long x) { if (not badlist.empty()) badlist += ','; badlist += std::to_string(x); };
        auto check_content = [&](long x) { auto & l = L[x]; for (size_t i = 0; i < l.size; i = next_pos(i, l.size)) if (l.p[i] != pat(x, i)) { bad(x); return; } };
        unsigned char * p = nullptr;
        if (o == "a") {
            name = "alloc"; ss >> size >> evict;
            std::vector<long> gone;
            p = (unsigned char *)A->alloc_or_evict(size, evict, [&](void * q) {
                long w = whose(q); if (not ev.empty()) ev += ','; ev += std::to_string(w);
                if (w > 0) { check_content(w); gone.push_back(w); }
            });
            for (long w : gone) L.erase(w);
            ok = p != nullptr;
            if (ok) { L[id] = Live{ p, size }; for (auto & l : L) if (l.first != id) check_content(l.first); paint(id, 0); }
        } else {
            if (L.find(id) == L.end()) continue; // evicted meanwhile
            p = L[id].p;
            if (o == "f") { name = "free"; A->free(p); L.erase(id); p = nullptr; }
            else if (o == "t") { name = "touch"; A->touch(p); }
            else if (o == "r") {
                name = "realloc"; ss >> size; void * q = A->realloc_inplace(p, size); ok = q != nullptr;
                if (ok) {
                    size_t was = L[id].size; p = (unsigned char *)q; L[id].p = p;
                    for (size_t i = 0; i < std::min(was, size); i = next_pos(i, was)) if (p[i] != pat(id, i)) { bad(id); break; }
                    L[id].size = size; repaint(id);
                }
            } else return 3;
        }
        for (auto & l : L) check_content(l.first);
        long pg = -1, off = 0; size_t act = 0;
        if (p) { long long n = (long long)((unsigned long long)p / page); if (page0 < 0) page0 = n; pg = (long)(n - page0 + 100000); off = (long)((unsigned long long)p % page); act = A->reveal_actual_size(p); }
        evs.push_back("{\"o\":\"" + name + "\",\"id\":" + std::to_string(id) + ",\"sz\":" + std::to_string(size) + ",\"evict\":" + (evict ? "true" : "false") + ",\"ok\":" + (ok ? "true" : "false")
            + ",\"pg\":" + std::to_string(pg) + ",\"off\":" + std::to_string(off) + ",\"act\":" + std::to_string(act) + ",\"ev\":[" + ev + "],\"bad\":[" + badlist + "],\"used\":" + std::to_string(STAT_GET(mem, used_memory)) + "}");
    }
    finish();
    return 0;
}
