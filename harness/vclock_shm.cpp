// Controlled clock of the daemon: the current second lies in the file named by VERIF_CLOCK (mmap, 8 bytes).
#include <chrono>
#include <cstdlib>
#include <ctime>
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>
static volatile long long * shm() {
    static volatile long long * p = [] () -> volatile long long * {
        const char * f = getenv("VERIF_CLOCK"); if (not f) return nullptr;
        int fd = open(f, O_RDONLY); if (fd < 0) return nullptr;
        void * m = mmap(nullptr, 8, PROT_READ, MAP_SHARED, fd, 0); close(fd);
        return m == MAP_FAILED ? nullptr : (volatile long long *)m;
    }();
    return p;
}
namespace std { namespace chrono { inline namespace _V2 {
    steady_clock::time_point steady_clock::now() noexcept {
        if (auto p = shm()) return time_point(std::chrono::seconds(*p));
        timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts);
        return time_point(std::chrono::seconds(ts.tv_sec) + std::chrono::nanoseconds(ts.tv_nsec));
    }
} } }
