// Controlled clock: replaces libstdc++'s clocks in the executable.
#pragma once
#include <chrono>
#include <cstdint>
inline int64_t& fake_ns() { static int64_t t = 1000000000ll; return t; }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(fake_ns())); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1700000000000000000ll + fake_ns())); }
}}}
