// Delays and tick counters.
#include "scen/common.h"
#include "Delays.h"

using namespace scen;

SIM_SCENARIO(delays, "T01")
{
    hal::reset_all();
    drawClock();
    drawStalls(40000);
    const u32 waits = choose(4);
    routine(waits == 0 ? "delay(1)" : waits == 1 ? "delayMicroseconds(1)" : "delay(0)", [&] {
        Cut cut;
        if (waits == 1) embedded::delayMicroseconds(1);
        else embedded::delay(waits == 0);
    });
    u32 steps = history(1, 12);
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        if (choose(2)) advance(choose(30000));
        hal::clear_poll();
        u64 t0 = now(), st0 = stalled_total();
        set_step_limit(20000000);
        if (choose(2) == 0)
        {
            u32 ms;
            switch (choose(5))
            {
            case 0: ms = choose(40); break;
            case 1: ms = choose(1000); break;
            case 2: ms = choose(4000000); break;
            case 3: ms = 0xFFFFFFFFu - choose(2000); break;
            default: ms = choose(12); break;
            }
            drawStallNear(t0 + (u64)ms * 1000);
            set_time_guard(t0 + (u64)ms * 1000 + Gran + 1000, "T01", "late", "delay");
            logf("delay(%u) at t=%llu", ms, (unsigned long long)t0);
            { Cut cut; embedded::delay(ms); }
            clear_time_guard();
            no_stall_at();
            u64 spent = now() - t0, stalled = stalled_total() - st0;
            logf(" returned after %llu us", (unsigned long long)spent);
            if (spent + Gran < (u64)ms * 1000) fail("T01", "early", "delay(%u) returned after %llu us, one tick is %llu us", ms, (unsigned long long)spent, (unsigned long long)Gran);
            if (spent > (u64)ms * 1000 + Gran + 1000 + stalled) fail("T01", "late", "delay(%u) returned after %llu us", ms, (unsigned long long)spent);
            state(mix(1, mix(ms % 16, ms > 1000)));
        }
        else
        {
            u32 us = 0;
            switch (choose(4))
            {
            case 0: us = choose(20); break;
            case 1: us = choose(1000); break;
            case 2: us = choose(30000); break;
            case 3: us = chance(1, 20) ? 65500 + choose(200000) : choose(3000); break;
            }
            if (chance(1, 40))
            {
                us = choose(10000000);
                if (chance(1, 40)) us = chance(1, 2) ? 0xFFFFFFFFu - choose(3000) : mix(us, 5) >> 32;
                else if (chance(1, 2)) us = 0xFFFFFFFFu / 1000 + choose(2000) - 1000;
                set_step_limit(400000000);
                probe("microsecond delay of seconds");
            }
            drawStallNear(t0 + us);
            set_time_guard(t0 + us + Gran + 1000, "T01", "late", "delayMicroseconds");
            logf("delayMicroseconds(%u) at t=%llu", us, (unsigned long long)t0);
            { Cut cut; embedded::delayMicroseconds(us); }
            clear_time_guard();
            no_stall_at();
            u64 spent = now() - t0, stalled = stalled_total() - st0;
            logf(" returned after %llu us", (unsigned long long)spent);
            if (spent < us) fail("T01", "early", "delayMicroseconds(%u) returned after %llu us", us, (unsigned long long)spent);
            if (spent > us + Gran + 1000 + stalled) fail("T01", "late", "delayMicroseconds(%u) returned after %llu us", us, (unsigned long long)spent);
            state(mix(2, us % 16));
        }
    }
}

// Tasks that wait at the same time.
SIM_SCENARIO(delays_tasks, "T01 T04")
{
    hal::reset_all();
    drawClock();
    const u32 tasks = range(2, 4);
    set_preemption(pick({ 3u, 1u, 10u }));
    if (choose(2)) set_instruction_preemption(pick({ 10u, 3u, 60u }));
    set_step_limit(20000000);
    set_time_guard(now() + 4000000000ull, "-", "late", "tasks");
    for (u32 i = 0; i < tasks; ++i)
        spawn(("waiter" + std::to_string(i)).c_str(), [i] {
            const u32 steps = range(1, 5);
            for (u32 k = 0; k < steps; ++k)
            {
                const bool ms = choose(2) == 0;
                const u32 n = ms ? choose(pick({ 12u, 60u, 3u, 3000u })) : choose(pick({ 300u, 20u, 3000u, 30000u }));
                const u64 wanted = ms ? n * 1000ull : n, early = ms ? Gran : 0;
                const u64 t0 = now(), st0 = stalled_total(), d0 = hal::device_us();
                logf("task %u: %s(%u)", i, ms ? "delay" : "delayMicroseconds", n);
                u64 ticks;
                u32 ticksMs;
                {
                    Cut cut;
                    if (ms) embedded::delay(n);
                    else embedded::delayMicroseconds(n);
                }
                const u64 spent = now() - t0, stalled = stalled_total() - st0, d1 = hal::device_us();
                logf("task %u: returned after %llu us, %llu of them not scheduled", i, (unsigned long long)spent, (unsigned long long)stalled);
                if (spent + early < wanted) fail("T01", "early", "%s(%u) returned after %llu us", ms ? "delay" : "delayMicroseconds", n, (unsigned long long)spent);
                if (spent > wanted + Gran + 1000 + stalled) fail("T01", "late", "%s(%u) returned after %llu us, in %llu of which others ran", ms ? "delay" : "delayMicroseconds", n, (unsigned long long)spent, (unsigned long long)stalled);
                {
                    Cut cut;
                    ticks = embedded::getMicrosecondTicks();
                    ticksMs = embedded::getMillisecondTicks();
                }
                const u64 d2 = hal::device_us();
                if (!Arduino && (ticks + 1 < d1 || ticks > d2 + 1)) fail("T04", "wrong-microseconds", "the microsecond counter is %llu, the device has been up for %llu us", (unsigned long long)ticks, (unsigned long long)d2);
                if ((u32)(ticksMs - (u32)(d1 / 1000 - 1)) > (u32)(d2 / 1000 - d1 / 1000 + 2) && d0 > 1000) fail("T04", "wrong-milliseconds", "the millisecond counter is %u, the device has been up for %llu us", ticksMs, (unsigned long long)d2);
                state(mix(mix(i, ms), mix(n % 16, stalled > 0)));
            }
        });
    run_tasks();
}

SIM_SCENARIO(ticks, "T04")
{
    hal::reset_all();
    drawClock();
    drawStalls(2000000);
    u64 last = 0;
    bool have = false;
    const bool inMs = choose(2);
    routine("the clock is read", [&] {
        Cut cut;
        if (inMs) embedded::getMillisecondTicks();
        else embedded::getMicrosecondTicks();
    });
    u32 steps = history(1, 60);
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        if (chance(1, 25))
        {
            // the device restarts, and its counters with it
            const Boot kind = pick({ Boot::Soft, Boot::Wake, Boot::Power });
            reset_statics();
#ifdef SIM_ARDUINO
            reset_retained(kind);
#else
            hal::esp_boot(kind);
#endif
            hal::bootOffset = 0 - now();
            have = false;
            fault("device restarts");
            logf("the device restarts");
            if (choose(2)) advance(choose(1000000));
        }
        switch (choose(6))
        {
        case 0: advance(choose(2000)); break;
        case 1: advance(choose(1u << (10 + choose(18)))); break;
        case 2: if (choose(8) == 0) { advance((u64)choose(5000) * 1000000); fault("clock jumps ahead"); } break;
        default: break;
        }
        hal::clear_poll();
        u64 before = hal::device_us();
        set_step_limit(1000000);
        if (choose(2))
        {
            u32 v;
            { Cut cut; v = embedded::getMillisecondTicks(); }
            u64 after = hal::device_us();
            u32 lo = (u32)(before / 1000 - 1), hi = (u32)(after / 1000 + 1);
            if (before < 1000) lo = 0;
            if (v - lo > hi - lo) fail("T04", "wrong-milliseconds", "the millisecond counter is %u, the device has been up for %llu us", v, (unsigned long long)after);
            state(mix(3, v >> 20));
        }
        else
        {
            u64 v;
            { Cut cut; v = embedded::getMicrosecondTicks(); }
            u64 after = hal::device_us();
            logf("microseconds %llu", (unsigned long long)v);
            bool right = v + 1 >= before && v <= after + 1;
            if (!right)
            {
                // The recorded defect: the Arduino counter is the low word of the uptime.
                u64 w = v;
                bool low = Arduino && v <= 0xFFFFFFFFull && after >= 0x100000000ull && (u32)((u32)w - (u32)before + 1) <= (u32)(after - before + 2);
                if (low) finding("T04", "arduino-microseconds-32-bit", "the microsecond counter is %llu after %llu us", (unsigned long long)v, (unsigned long long)after);
                else fail("T04", "wrong-microseconds", "the microsecond counter is %llu, the device has been up for %llu us", (unsigned long long)v, (unsigned long long)after);
            }
            else if (have && v < last) fail("T04", "runs-backwards", "the microsecond counter went from %llu to %llu", (unsigned long long)last, (unsigned long long)v);
            if (right) { last = v; have = true; }
        }
    }
}
