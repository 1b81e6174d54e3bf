// SPI transfers and chip selects.
#include "scen/common.h"
#include <functional>
#include "SpiDevice.h"
#include "GpioDigitalPin.h"
#include "GpioPinDefinition.h"
#include "SpiBus.h"
#include <algorithm>
#include <stdexcept>

using namespace scen;

namespace
{
enum Kind { Send, Receive, Both };
#ifdef SIM_ARDUINO
constexpr int Line = 0;
constexpr u32 MaxLength = 65535;
#else
constexpr int Line = 1;
constexpr u32 MaxLength = 65535;
#endif

u32 drawLength()
{
    switch (choose(10))
    {
    case 0: case 1: case 2: return choose(9);
    case 3: case 4: return choose(140);
    case 5: return 250 + choose(270);
    case 6: return 4088 + choose(10);
    case 7: return chance(1, 4) ? 8180 + choose(10) : choose(40);
    case 8: return chance(1, 12) ? 12270 + choose(20000) : choose(70);
    default: return chance(1, 60) ? MaxLength - choose(3) : 60 + choose(10);
    }
}

// Compares one transfer with what happened on the bus from log index `from`.
// Only the bytes of `task` count.
void judge(const char* what, int kind, size_t from, int task, const std::vector<u8> &tx, const u8* rx, u32 n, bool ok, int number = Line)
{
    auto &line = hal::spi[number];
    u32 i = 0;
    for (size_t k = from; k < line.log.size(); ++k)
    {
        auto &b = line.log[k];
        if (b.task != task) continue;
        if (i >= n) { fail("B01", "too-many-bytes", "%s of %u bytes put more than that on the bus", what, n); return; }
        if (kind != Receive && (b.tx != tx[i] || !b.txMeaningful)) { fail("B01", "wrong-byte-sent", "%s of %u bytes: byte %u on the bus is %02x instead of %02x", what, n, i, b.tx, tx[i]); return; }
        if (kind != Send && ok && rx[i] != b.rx) { fail("B01", "wrong-byte-received", "%s of %u bytes: byte %u was %02x on the bus, the buffer has %02x", what, n, i, b.rx, rx[i]); return; }
        if (kind != Send && ok && !b.rxMeaningful) { fail("B01", "wrong-byte-received", "%s of %u bytes: byte %u was clocked but not stored", what, n, i); return; }
        ++i;
    }
    if (ok && i != n) fail("B01", "incomplete-success", "%s of %u bytes reports success, %u bytes were moved", what, n, i);
}
} // namespace

// ---------------------------------------------------------------- B01
SIM_SCENARIO(spi_transfer, "B01")
{
    hal::reset_all();
    drawClock();
    drawStalls(5000);
#ifdef SIM_ARDUINO
    embedded::SpiBus bus(SPI, 1000000 * (1 + choose(40)));
    const bool half = false;
#else
    embedded::SpiBus bus(Line);
    const bool half = choose(2) == 0;
    embedded::GpioPinDefinition p1 { 18 }, p2 { 19 }, p3 { 23 };
    bool up;
    { Cut cut; up = bus.init(p1, p2, p3, 4000000, half ? embedded::SpiBus::DuplexMode::Half : embedded::SpiBus::DuplexMode::Full); }
    if (!up) discard("bus not up");
    if (chance(2, 3))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 6u, 3u, 20u });
    }
#endif
    embedded::SpiDevice device(bus);
    auto &line = hal::spi[Line];
    const u32 usual = choose(3);
    routine("a transfer", [&] {
        u8 b[2] = {};
        Cut cut;
        if (usual == 0) device.sendSync(b, 1);
        else if (usual == 1) device.receiveSync(b, 1);
        else device.sendAndReceive(b, b + 1, 1);
    });
    u32 steps = history(1, thorough() ? 16 : 8);
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        arena_release_all();
        int kind = (int)choose(3);
        // a half duplex device cannot send and receive at once
        const bool impossible = half && kind == Both;
        static const char* names[] = { "sendSync", "receiveSync", "sendAndReceive" };
        u32 n = drawLength();
        // the bus itself can be asked as well, and takes longer transfers on one platform
        const bool direct = choose(4) == 0;
        if (direct && !Arduino && chance(1, 40)) n = 65536 + choose(80000);
        u8* txb = arena_alloc(kind == Receive ? 0 : n, choose(4), 0);
        std::vector<u8> tx(kind == Receive ? 0 : n);
        for (u32 i = 0; i < tx.size(); ++i) txb[i] = tx[i] = (u8)(mix(s, i / 8) >> (8 * (i % 8)));
        arena_set_readonly(txb);
        u8* rxb = arena_alloc(kind == Send ? 0 : n, choose(4), 0xC3);
        size_t from = line.log.size();
        line.failedAt = SIZE_MAX;
        u64 fired = hal::faults.fired;
        set_step_limit(3000000);
        logf("%s(%u bytes)", names[kind], n);
        bool ok;
        {
            Cut cut;
#ifdef SIM_ARDUINO
            if (direct && kind == Send && s % 2)
            {
                if (n == 1) bus.sendByte(*txb);
                else bus.sendBytes(txb, (uint16_t)n);
                ok = true;
            }
            else
#endif
            if (direct) ok = bus.transfer(kind == Receive ? nullptr : txb, kind == Send ? nullptr : rxb, n);
            else if (kind == Send) ok = device.sendSync(txb, (uint16_t)n);
            else if (kind == Receive) ok = device.receiveSync(rxb, (uint16_t)n);
            else ok = device.sendAndReceive(txb, rxb, (uint16_t)n);
        }
        logf(" -> %d", ok);
        judge(names[kind], kind, from, current_task(), tx, rxb, n, ok);
        bool failed = hal::faults.fired != fired;
        if (failed && ok) fail("B01", "failure-hidden", "%s of %u bytes reports success although the driver failed", names[kind], n);
        if (!failed && !ok && !impossible) fail("B01", "failed-for-no-reason", "%s of %u bytes failed although the driver did not", names[kind], n);
        if (line.failedAt != SIZE_MAX && line.log.size() != line.failedAt)
            fail("B01", "continued-after-failure", "%s of %u bytes put %zu more bytes on the bus after the driver had failed", names[kind], n, line.log.size() - line.failedAt);
        if (n > 4092) probe("transfer longer than one descriptor");
        if (n > 65535) probe("transfer of more than 65535 bytes");
        state(mix(kind, mix(n > 4092, mix(n % 4, ok))));
#ifndef SIM_ARDUINO
        if (!hal::esp.misuse.empty()) fail("B01", "driver-misuse", "%s", hal::esp.misuse.c_str());
#endif
    }
}

// ---------------------------------------------------------------- B02
#ifdef SIM_ARDUINO
SIM_SCENARIO(spi_tasks, "B01 B02")
{
    hal::reset_all();
    drawClock();
    u32 tasks = range(2, 4);
    std::vector<embedded::SpiBus> buses;
    std::vector<u32> freq, host;
    SPIClass second(1);
    const u32 two = choose(2);
    for (u32 i = 0; i < tasks; ++i)
    {
        freq.push_back(1000000 * (i + 1) + choose(1000));
        // a second controller works independently of the first one
        host.push_back(i ? two * choose(2) : 0);
        buses.emplace_back(host[i] ? second : SPI, freq[i]);
    }
    arena_release_all();
    drawStalls(3000);
    set_preemption(pick({ 2u, 1u, 5u, 20u }));
    if (choose(3) == 0) set_instruction_preemption(pick({ 20u, 5u, 100u }));
    std::vector<u32> done(tasks), planned(tasks);
    // long transfers now and then: they are the ones somebody may want to split
    const u32 longest = choose(12) ? 150 : choose(8) ? 3000 : 65535, extent = longest + 1250;
    u8* shared = arena_alloc(extent, 0, 0);
    for (u32 i = 0; i < extent; ++i) shared[i] = (u8)(i * 31 + (i >> 8));
    set_step_limit(20000000);
    for (u32 i = 0; i < tasks; ++i)
    {
        planned[i] = 1 + choose(4);
        spawn(("task" + std::to_string(i)).c_str(), [&, i] {
            embedded::SpiDevice device(buses[i]);
            int me = current_task();
            auto &line = hal::spi[host[i]];
            auto &bus = hal::arduinoSpi[host[i]];
            for (u32 k = 0; k < planned[i]; ++k)
            {
                u32 kind = choose(3), n = choose(4) ? 1 + choose(longest) : choose(6);
                u32 off = choose(1200);
                if (chance(1, 16))
                {
                    // nothing to send and nowhere to put what is received
                    logf("transfer without data");
                    { Cut cut; buses[i].transfer(nullptr, nullptr, (uint16_t)n); }
                    if (bus.locked && bus.owner == me) fail("B02", "transaction-left-open", "a transfer without data returned without ending its bus transaction");
                }
                std::vector<u8> rx(n + 1);
                size_t from = line.log.size();
                logf("transfer of %u bytes starts", n);
                yield_point("before");
                bool ok;
                {
                    Cut cut;
                    if (kind == 0) ok = device.sendSync(shared + off, (uint16_t)n);
                    else if (kind == 1) ok = device.receiveSync(rx.data(), (uint16_t)n);
                    else ok = device.sendAndReceive(shared + off, rx.data(), (uint16_t)n);
                }
                logf("transfer of %u bytes ended", n);
                {
                    std::vector<u8> tx(shared + off, shared + off + n);
                    judge("a transfer", (int)kind, from, me, tx, rx.data(), n, ok, (int)host[i]);
                    for (size_t x = 0; x < hal::spi[1 - host[i]].log.size(); ++x)
                        if (hal::spi[1 - host[i]].log[x].task == me) { fail("B01", "wrong-host", "bytes of a transfer appeared on the other bus"); break; }
                    if (!ok) fail("B01", "failed-for-no-reason", "a transfer of %u bytes failed although nothing else did", n);
                }
                if (bus.locked && bus.owner == me) fail("B02", "transaction-left-open", "a transfer of %u bytes returned without ending its bus transaction", n);
                u64 tr = 0;
                u32 mine = 0;
                size_t first = SIZE_MAX, last = 0;
                for (size_t x = from; x < line.log.size(); ++x)
                {
                    auto &b = line.log[x];
                    if (b.task != me) continue;
                    if (!b.transaction) { fail("B02", "outside-transaction", "byte %u of a transfer of %u bytes moved outside a bus transaction", mine, n); return; }
                    if (b.frequency != freq[i]) { fail("B02", "foreign-settings", "byte %u of a transfer of %u bytes moved with the settings of another device", mine, n); return; }
                    if (tr && b.transaction != tr) { fail("B02", "split-transaction", "a transfer of %u bytes was spread over several bus transactions", n); return; }
                    tr = b.transaction;
                    if (first == SIZE_MAX) first = x;
                    last = x;
                    ++mine;
                }
                if (ok && mine && last - first + 1 != mine) fail("B02", "interleaved", "the bytes of a transfer of %u bytes were interleaved with those of another task", n);
                if (ok && mine != n) fail("B02", "interleaved", "%u of %u bytes of a transfer moved", mine, n);
                ++done[i];
                state(mix(kind, mix(n > 150 ? n / 64 : n / 8, mix(tasks, line.log.size() - from > mine))));
                if (choose(2)) advance(choose(500));
                yield_point("after");
            }
        });
    }
    run_tasks();
    for (u32 i = 0; i < tasks; ++i)
        if (done[i] != planned[i]) fail("B02", "starved", "task %u finished %u of %u transfers", i, done[i], planned[i]);
    for (auto &bus: hal::arduinoSpi)
    {
        if (bus.foreignUses) fail("B02", "outside-transaction", "the bus was used inside another task's transaction");
        if (bus.unlockedUses) fail("B02", "outside-transaction", "the bus was used outside a transaction");
    }
}
#endif

#ifndef SIM_ARDUINO
// Two hosts, each used by a task of its own.
SIM_SCENARIO(spi_tasks, "B01")
{
    hal::reset_all();
    drawClock();
    arena_release_all();
    embedded::SpiBus buses[2] = { embedded::SpiBus(1), embedded::SpiBus(2) };
    embedded::GpioPinDefinition p1 { 18 }, p2 { 19 }, p3 { 23 };
    bool half[2];
    for (u32 i = 0; i < 2; ++i)
    {
        half[i] = choose(2) == 0;
        bool up;
        { Cut cut; up = buses[i].init(p1, p2, p3, 4000000 + i, half[i] ? embedded::SpiBus::DuplexMode::Half : embedded::SpiBus::DuplexMode::Full); }
        if (!up) discard("bus not up");
    }
    u8* buffer[2][2];
    const u32 longest = choose(4) ? 200 : 9000;
    for (auto &b: buffer) for (auto &x: b) x = arena_alloc(longest, 0, 0xC3);
    set_preemption(pick({ 2u, 1u, 5u }));
    set_step_limit(20000000);
    if (choose(2)) set_instruction_preemption(pick({ 20u, 5u, 100u }));
    const bool faulty = chance(1, 2);
    if (faulty)
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 12u, 4u });
    }
    for (u32 i = 0; i < 2; ++i)
        spawn(i ? "host2" : "host1", [&, i] {
            embedded::SpiDevice device(buses[i]);
            const int number = (int)i + 1;
            auto &line = hal::spi[number];
            u32 steps = range(1, 4);
            for (u32 s = 0; s < steps; ++s)
            {
                int kind = (int)choose(3);
                u32 n = choose(4) ? 1 + choose(longest) : choose(9);
                u8* txb = buffer[i][0];
                u8* rxb = buffer[i][1];
                std::vector<u8> tx(n);
                for (u32 k = 0; k < n; ++k) txb[k] = tx[k] = (u8)(mix(s * 2 + i, k / 8) >> (8 * (k % 8)));
                memset(rxb, 0xC3, longest);
                size_t from = line.log.size();
                line.failedAt = SIZE_MAX;
                static const char* names[] = { "sendSync", "receiveSync", "sendAndReceive" };
                logf("host %d %s(%u bytes)", number, names[kind], n);
                bool ok;
                {
                    Cut cut;
                    if (kind == Send) ok = device.sendSync(txb, (uint16_t)n);
                    else if (kind == Receive) ok = device.receiveSync(rxb, (uint16_t)n);
                    else ok = device.sendAndReceive(txb, rxb, (uint16_t)n);
                }
                logf("host %d -> %d", number, ok);
                judge(names[kind], kind, from, current_task(), tx, rxb, n, ok, number);
                for (size_t k = from; k < line.log.size(); ++k) if (line.log[k].task != current_task()) { fail("B01", "wrong-host", "a transfer of another task appeared on host %d", number); break; }
                if (line.failedAt != SIZE_MAX && ok) fail("B01", "failure-hidden", "%s of %u bytes reports success although the driver failed", names[kind], n);
                if (!faulty && !ok && !(half[i] && kind == Both)) fail("B01", "failed-for-no-reason", "%s of %u bytes failed although the driver did not", names[kind], n);
                if (line.failedAt != SIZE_MAX && line.log.size() != line.failedAt) fail("B01", "continued-after-failure", "%s of %u bytes put %zu more bytes on the bus after the driver had failed", names[kind], n, line.log.size() - line.failedAt);
                for (u32 k = n; k < longest; ++k) if (rxb[k] != 0xC3) { fail("B01", "out-of-bounds", "%s of %u bytes stored byte %u", names[kind], n, k); break; }
                if (!hal::esp.misuse.empty()) fail("B01", "driver-misuse", "%s", hal::esp.misuse.c_str());
                state(mix(i, mix(kind, mix(n > 4092, ok))));
            }
        });
    run_tasks();
}
#endif

// ---------------------------------------------------------------- B04
SIM_SCENARIO(chip_select, "B04")
{
    hal::reset_all();
    drawClock();
    drawStalls(5000);
#ifdef SIM_ARDUINO
    embedded::SpiBus bus(SPI);
    embedded::SpiBus &ready = bus;
#else
    embedded::SpiBus ready(Line), broken(2);
    embedded::GpioPinDefinition p1 { 18 }, p2 { 19 }, p3 { 23 };
    bool up;
    { Cut cut; up = ready.init(p1, p2, p3); }
    if (!up) discard("bus not up");
    hal::faults.num = choose(2);
    hal::faults.den = pick({ 4u, 2u, 8u });
    hal::faults.filter = [](const char* f) { return !strncmp(f, "spi_device", 10); };
#endif
    auto &line = hal::spi[Line];
    u32 count = range(1, 3);
    static const u8 all[] = { 5, 15, 22, 0, 2, 27, 32, 33 };
    u8 pins[3];
    for (u32 i = 0; i < 3; ++i)
        for (pins[i] = all[choose(8)]; std::count(pins, pins + i, pins[i]); pins[i] = all[(std::find(all, all + 8, pins[i]) - all + 1) % 8]) {}
    std::vector<embedded::GpioPinDefinition> defs(count);
    std::vector<embedded::GpioDigitalPin> cs;
    for (u32 i = 0; i < count; ++i)
    {
        defs[i].pin = pins[i];
        line.csPins.push_back(pins[i]);
    }
    for (u32 i = 0; i < count; ++i)
    {
        cs.emplace_back(defs[i]);
        Cut cut;
        cs[i].init();
        if (chance(3, 4)) cs[i].set();
        else
        {
            // nobody drove the pin so far
            {
                embedded::ChipSelector select(cs[i]);
                if (hal::gpio.level[pins[i]]) fail("B04", "not-selected", "pin %u is high inside the scope of its first selector", pins[i]);
            }
            probe("pin first driven by a selector");
        }
    }
    embedded::SpiDevice device(ready);
    arena_release_all();
    u8* tx = arena_alloc(300, 0, 0x5A);
    u8* rx = arena_alloc(300, 0, 0);
    set_step_limit(5000000);
    auto level = [&](u32 i) { return hal::gpio.level[pins[i]]; };
    auto allHigh = [&](const char* when) {
        for (u32 i = 0; i < count; ++i) if (!level(i)) fail("B04", "left-selected", "peripheral %u is still selected %s", i, when);
    };
    allHigh("after bring-up");
    // One exchange; checks who was selected.
    auto exchange = [&](u64 expected, const char* where) {
        size_t from = line.log.size();
        u32 n = choose(40), kind = Arduino ? choose(3) : choose(2);
        bool ok;
        {
            Cut cut;
            if (kind == 0) ok = device.sendSync(tx, (uint16_t)n);
            else if (kind == 1) ok = device.receiveSync(rx, (uint16_t)n);
            else ok = device.sendAndReceive(tx, rx, (uint16_t)n);
        }
        logf("exchange of %u bytes %s -> %d", n, where, ok);
        for (size_t k = from; k < line.log.size(); ++k)
            if (line.log[k].selected != expected) { fail("B04", "wrong-selection", "a byte exchanged %s was seen by the peripherals on pins %llx instead of %llx", where, (unsigned long long)line.log[k].selected, (unsigned long long)expected); break; }
        return ok;
    };
    routine("a peripheral is selected", [&] { Cut cut; embedded::ChipSelector select(cs[0]); });
    u32 steps = history(1, 12);
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        if (choose(4) == 0) { exchange(0, "outside every scope"); continue; }
        struct Oops {};
        std::function<void(u64)> scope = [&](u64 outer) {
            u32 i = choose(count);
            while (outer >> i & 1) i = (i + 1) % count;  // no second selector for the same pin
            const u32 exit = choose(4);
            const u64 held = outer | 1ull << i;
            auto mask = [&](u64 which) {
                u64 m = 0;
                for (u32 k = 0; k < count; ++k) if (which >> k & 1) m |= 1ull << pins[k];
                return m;
            };
            Cut cut;
            embedded::ChipSelector select(cs[i]);
            {
                Stub st;
                if (level(i)) fail("B04", "not-selected", "pin %u is high inside the scope of its selector", pins[i]);
                u32 n = range(1, 3);
                for (u32 k = 0; k < n; ++k)
                {
                    bool ok = exchange(mask(held), "inside a scope");
                    if (held + 1 != 1ull << count && choose(5) == 0)
                    {
                        probe("selectors on several pins nested");
                        logf("another selector inside the scope");
                        bool thrown = false;
                        try { scope(held); }
                        catch (const Oops&) { thrown = true; }
                        for (u32 k2 = 0; k2 < count; ++k2)
                            if (level(k2) == (bool)(held >> k2 & 1)) fail("B04", level(k2) ? "not-selected" : "left-selected", "pin %u is %s after the scope of another pin's selector", pins[k2], level(k2) ? "high" : "low");
                        if (thrown && choose(2)) { fault("exception inside a scope"); throw Oops(); }
                        ok = exchange(mask(held), "after an inner scope");
                    }
                    if (!ok) probe("failed transfer inside a scope");
                    if (!ok && exit == 1) { fault("early return after a failed transfer"); return; }
                    if (exit == 2 && choose(2)) { fault("exception inside a scope"); throw Oops(); }
                    if (level(i)) fail("B04", "not-selected", "pin %u went high inside the scope of its selector", pins[i]);
                }
                if (exit == 3) return;
            }
        };
        try { scope(0); }
        catch (const Oops&) { logf("exception left the scope"); }
        allHigh("after its scope");
    }
}
