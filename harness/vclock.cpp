#include "vclock.h"
namespace vclock { long long now_sec = 1000; long calls_to_tick = 0; }
namespace std { namespace chrono { inline namespace _V2 {
    steady_clock::time_point steady_clock::now() noexcept {
        if (vclock::calls_to_tick > 0 && --vclock::calls_to_tick == 0) { vclock::now_sec += 1; }
        return time_point(std::chrono::seconds(vclock::now_sec));
    }
} } }
