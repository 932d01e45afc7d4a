// Controlled clock: replaces std::chrono::steady_clock::now() (the only time source of cachelot).
#pragma once
#include <chrono>
namespace vclock {
    extern long long now_sec;      // current fake second
    extern long calls_to_tick;     // >0: the n-th following call advances the clock by one second first
}
