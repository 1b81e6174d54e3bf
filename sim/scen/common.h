// What the scenarios need to know about the platform they are compiled for.
#pragma once
#include "core/sim.h"
#include "hal/bus.h"
#include <algorithm>
#ifdef SIM_ARDUINO
#include "Arduino.h"
#include "sim_arduino.h"
#else
#include "sim_esp.h"
#endif

namespace scen
{
using namespace sim;
#ifdef SIM_ARDUINO
constexpr u64 Gran = 1000;               // us, granularity of waiting
constexpr u64 EarlyTolerance = 3000, LateTolerance = 5000;
constexpr bool Arduino = true;
#else
constexpr u64 Gran = hal::TickUs;
constexpr u64 EarlyTolerance = 2 * Gran + 2000, LateTolerance = 2 * Gran + 3000;
constexpr bool Arduino = false;
#endif

// Where the device's clock stands when the run starts.
inline void drawClock()
{
    const u64 ms32 = 4294967296ull * 1000, us32 = 4294967296ull;
    switch (choose(6))
    {
    case 0: hal::bootOffset = 0; break;
    case 1: hal::bootOffset = 1 + choose(100000000); break;
    case 2: case 3:                      // the millisecond counter wraps soon
        hal::bootOffset = ms32 - 1 - (u64)choose(1u << (8 + choose(20)));
        hal::wrapRun = true;
        break;
    case 4:                              // the low word of the microsecond counter wraps soon
        hal::bootOffset = us32 * (1 + choose(900)) - 1 - (u64)choose(1u << (8 + choose(18)));
        hal::wrapRun = true;
        break;
    case 5:                              // signed interpretations of the counter change
        hal::bootOffset = ms32 / 2 - 1 - (u64)choose(1u << (8 + choose(20)));
        break;
    }
    if (hal::wrapRun) set_wrap_run();
    if (hal::bootOffset) logf("the device has been up for %llu us", (unsigned long long)hal::bootOffset);
}
// How many steps a run has. Now and then a device lives long.
inline u32 history(u32 lo, u32 hi, u32 longer = 20)
{
    const u32 n = range(lo, hi);
    if (!chance(1, 150)) return n;
    probe("long history");
    return hi * longer / 2 + choose(hi * longer);
}
// The caller loses the processor just when a wait is about to end, so that it looks at the clock late.
inline void drawStallNear(u64 deadline)
{
    no_stall_at();
    if (!chance(1, 10)) return;
    const u64 before = choose(choose(2) ? 1200 : 12000);
    stall_at(std::max(now(), deadline > before ? deadline - before : 0), 1 + choose(pick({ 2000u, 12000u, 40000u, 400000u })));
}
inline void drawStalls(u32 maxUs)
{
    if (chance(1, 4)) enable_stalls(pick({ 200u, 20u, 5u }), maxUs);
}
} // namespace scen
