#include "hal/model.h"
#include "hal/bus.h"

namespace hal
{
FaultPlan faults;
u64 bootOffset;
bool wrapRun;
Uart uart[3];
static u32 clockReads, idlePolls;

bool fails(const char* function)
{
    if (!faults.enabled || !faults.num) return false;
    if (faults.filter && !faults.filter(function)) return false;
    if (!chance(faults.num, faults.den)) return false;
    ++faults.fired;
    faults.last = function;
    fault((std::string(function) + " fails").c_str());
    return true;
}

u64 device_us() { return now() + bootOffset; }
// Code that spins on the clock gets less and less of the CPU, so that simulated
// time passes: at most 40 us between looks, and 800 us in waits of several seconds.
void clock_read()
{
    u64 c = 1;
    if (++clockReads > 64) c = clockReads > 20000 ? 800 : clockReads > 512 ? 40 : 1 + (clockReads - 64) / 12;
    vendor_call(c);
}
void poll_cost(bool useful)
{
    clockReads = 0;
    if (useful) { idlePolls = 0; vendor_call(2); return; }
    u64 c = 2;
    if (++idlePolls > 16) c = idlePolls > 200 ? 200 : idlePolls;
    vendor_call(c);
}
void clear_poll() { clockReads = idlePolls = 0; }

void Uart::poll()
{
    while (!coming.empty() && coming.front().t <= now())
    {
        if (available() < capacity)
        {
            delivered.push_back(coming.front().b);
            deliveredAt.push_back(coming.front().t);
        }
        else fault("UART receive buffer overflow");
        coming.pop_front();
    }
}
u64 Uart::next() const { return coming.empty() ? UINT64_MAX : coming.front().t; }
void Uart::discard()
{
    discarded += available();
    consumed = delivered.size();
}
void Uart::put(const u8* p, size_t n)
{
    size_t holdAt = SIZE_MAX;
    u64 hold = 0;
    if (held && n && chance(held, 16))
    {
        // the other side stops the line before one of the bytes, most often one that is in the FIFO by then
        holdAt = n - 1 - choose((u32)std::min<size_t>(n, fifo));
        hold = choose(pick({ 20000u, 300000u, 5000000u }));
        fault("UART line held by flow control");
    }
    for (size_t i = 0; i < n; ++i)
    {
        if (i == holdAt) txIdle = std::max(txIdle, now()) + hold;
        txIdle = std::max(txIdle, now()) + byteTime;
        line.push_back({ p[i], txIdle });
    }
    // The caller waits until the rest fits into the FIFO.
    u64 fits = line.size() > fifo ? line[line.size() - 1 - fifo].left : 0;
    if (fits > now()) wait_until(fits, nullptr);
}

void reset_all()
{
    faults = FaultPlan();
    bootOffset = 0;
    wrapRun = false;
    for (auto &u: uart) u = Uart();
    clear_poll();
    reset_bus();
    set_event_source([] { u64 t = UINT64_MAX; for (auto &u: uart) t = std::min(t, u.next()); return t; },
                     [] { for (auto &u: uart) u.poll(); });
    reset_platform();
}
} // namespace hal
