// I2C transfers and bus services.
#include "scen/common.h"
#include "I2CDevice.h"
#include "I2CBus.h"
#ifndef SIM_ARDUINO
#include "storage/shim.h"
#endif

using namespace scen;

namespace
{
constexpr int Bus = 0;

u32 drawCount()
{
    switch (choose(6))
    {
    case 0: return choose(3);
    case 4: return 125 + choose(8);
    case 5: return chance(1, 3) ? 250 + choose(300) : 1 + choose(40);
    default: return 1 + choose(30);
    }
}

struct World
{
    const int number;
    hal::I2cBus &bus = hal::i2c[number];
#ifdef SIM_ARDUINO
    embedded::I2CBus lib { number ? Wire1 : Wire };
#else
    embedded::I2CBus lib { number };
#endif
    explicit World(int n = Bus) : number(n) {}
    bool inTask = false;                 // the step limit is set for all tasks together
    void limit(u64 n) { if (!inTask) set_step_limit(n); }
    void peripherals()
    {
#ifdef SIM_ARDUINO
        // the boards' libraries differ in how much they buffer
        hal::arduinoWire[number].bufferSize = pick({ 128u, 32u, 256u, 64u, 512u });
#endif
        u32 n = range(1, 4);
        for (u32 i = 0; i < n; ++i)
        {
            hal::I2cPeripheral p;
            // every seven-bit address but the general call, all of them different
            p.address = (u16)(choose(3) ? 0x08 + choose(0x70) : 1 + choose(0x7F));
            while (bus.find(p.address)) p.address = (u16)(p.address % 0x7F + 1);
            bus.peripherals.push_back(p);
        }
    }
#ifndef SIM_ARDUINO
    bool probe(u16 a, bool up, bool alone)
    {
        size_t from = bus.log.size();
        bool ok;
        u64 fired = hal::faults.fired;
        auto there = bus.find(a);
        limit(100000);
        { Cut cut; ok = lib.testAddress((uint8_t)a); }
        logf("testAddress(%02x) -> %d", a, ok);
        bool acked = false;
        for (size_t i = from; i < bus.log.size(); ++i) acked = acked || (bus.log[i].addressAcked && bus.log[i].address == a);
        if (ok != acked) fail("I02", "wrong-presence", "probing %02x reports %s although the address was %s", a, ok ? "presence" : "absence", acked ? "acknowledged" : "not acknowledged");
        if (!ok && up && hal::faults.fired == fired && there && there->present) fail("I02", "wrong-presence", "probing %02x reports absence although the peripheral is there and no driver call failed", a);
        if (bus.log.size() > from && !bus.log.back().stopped) fail("I02", "bus-left-claimed", "probing %02x left the bus without a stop condition", a);
        for (size_t i = from; i < bus.log.size(); ++i)
            if (bus.log[i].address != a || !bus.log[i].bytes.empty()) fail("I02", "probe-disturbs", "probing %02x transferred something else", a);
        if (alone && hal::esp.liveCmdLinks) fail("I02", "command-link-leaked", "after probing %02x, %d command links were not deleted", a, hal::esp.liveCmdLinks);
        return ok;
    }
#endif
    bool send(hal::I2cPeripheral &p, u32 n, int step)
    {
        u8* buf = arena_alloc(n, choose(4), 0);
        for (u32 i = 0; i < n; ++i) buf[i] = (u8)(mix(step, i) >> 7);
        arena_set_readonly(buf);
        embedded::I2CDevice d(lib, p.address);
        size_t from = bus.log.size(), got = p.got.size();
        limit(2000000);
        bool ok;
        { Cut cut; ok = d.sendSync(buf, (uint16_t)n); }
        logf("sendSync(%u bytes) to %02x -> %d", n, p.address, ok);
        checkSend("sendSync", from, p, got, buf, n, ok);
        return ok;
    }
    void checkSend(const char* what, size_t from, hal::I2cPeripheral &p, size_t got, const u8* buf, u32 n, bool ok)
    {
        bool took = false;
        for (size_t i = from; i < bus.log.size(); ++i)
            took = took || (!bus.log[i].read && bus.log[i].address == p.address && bus.log[i].addressAcked && bus.log[i].bytes.size() == bus.log[i].wanted && bus.log[i].wanted == n);
        bool all = took && p.got.size() - got == n && std::equal(p.got.begin() + got, p.got.end(), buf);
        if (ok && !all) fail("I01", "false-success", "%s of %u bytes reports success, the peripheral acknowledged %zu bytes", what, n, p.got.size() - got);
        if (!ok && all) fail("I01", "false-failure", "%s of %u bytes reports failure although the peripheral acknowledged all of them", what, n);
        size_t k = p.got.size() - got;
        if (k > n || !std::equal(p.got.begin() + got, p.got.end(), buf)) fail("I01", "wrong-bytes", "%s of %u bytes: the peripheral received something else", what, n);
    }
    bool receive(hal::I2cPeripheral &p, u32 n)
    {
        u8* buf = arena_alloc(n, choose(4), 0x99);
        embedded::I2CDevice d(lib, p.address);
        u64 supplied = p.supplied;
        limit(2000000);
        bool ok;
        { Cut cut; ok = d.receiveSync(buf, (uint16_t)n); }
        logf("receiveSync(%u bytes) from %02x -> %d", n, p.address, ok);
        checkReceive("receiveSync", p, supplied, buf, n, ok);
        return ok;
    }
    void checkReceive(const char* what, hal::I2cPeripheral &p, u64 supplied, const u8* buf, u32 n, bool ok)
    {
        if (n == 0) return;
        bool all = p.supplied - supplied == n;
        if (ok && !all) fail("I01", "false-success", "%s of %u bytes reports success, the peripheral supplied %llu", what, n, (unsigned long long)(p.supplied - supplied));
        if (!ok && all) fail("I01", "false-failure", "%s of %u bytes reports failure although the peripheral supplied all of them", what, n);
        if (ok)
            for (u32 i = 0; i < n; ++i)
                if (buf[i] != p.byteAt(supplied + i)) { fail("I01", "wrong-bytes", "%s of %u bytes: byte %u is not what the peripheral supplied", what, n, i); break; }
    }
    void combined(hal::I2cPeripheral &p, u32 tn, u32 rn, int step)
    {
        u8* tx = arena_alloc(tn, 0, 0);
        u8* rx = arena_alloc(rn, 1, 0x77);
        for (u32 i = 0; i < tn; ++i) tx[i] = (u8)(mix(step, i) >> 5);
        arena_set_readonly(tx);
        embedded::I2CDevice d(lib, p.address);
        size_t from = bus.log.size(), got = p.got.size();
        u64 supplied = p.supplied;
        limit(2000000);
        bool ok;
        { Cut cut; ok = d.sendThenReceive(tx, (uint16_t)tn, rx, (uint16_t)rn); }
        logf("sendThenReceive(%u, %u) with %02x -> %d", tn, rn, p.address, ok);
        bool sent = p.got.size() - got == tn && std::equal(p.got.begin() + got, p.got.end(), tx), reached = false, read = false;
        for (size_t i = from; i < bus.log.size(); ++i)
        {
            reached = reached || (!bus.log[i].read && bus.log[i].addressAcked);
            read = read || bus.log[i].read;
        }
        if (read && !(sent && reached)) fail("I01", "read-after-failed-send", "sendThenReceive read from the peripheral although sending had failed");
        if (rn == 0) return;
        bool supplied_all = p.supplied - supplied == rn;
        if (ok && !(sent && reached && supplied_all)) fail("I01", "false-success", "sendThenReceive reports success, %zu of %u bytes were sent and %llu of %u supplied", p.got.size() - got, tn, (unsigned long long)(p.supplied - supplied), rn);
        if (!ok && sent && reached && supplied_all) fail("I01", "false-failure", "sendThenReceive reports failure although the peripheral took part in full");
        if (ok) checkReceive("sendThenReceive", p, supplied, rx, rn, ok);
    }
    void usable(int step)
    {
        hal::NoFaults nf;
        for (auto &p: bus.peripherals) { p.present = true; p.nackAfter = ~0u; }
        arena_release_all();
        auto &p = bus.peripherals[0];
        bool a = false, b = false;
        // from another task: a transfer that still holds the bus would block it
        spawn("other", [&] { a = send(p, 5, step); b = receive(p, 5); });
        run_tasks();
        const char* prop = focus("I02") ? "I02" : "I01";
        if (!a) fail(prop, "bus-unusable", "a send without faults failed after the transfers before it");
        if (!b) fail(prop, "bus-unusable", "a receive without faults failed after the transfers before it");
    }
};
} // namespace

SIM_SCENARIO(i2c_transfer, "I01")
{
    hal::reset_all();
    drawClock();
    drawStalls(5000);
    World w;
#ifndef SIM_ARDUINO
    hal::esp.i2c[Bus].installed = hal::esp.i2c[Bus].configured = true;
#endif
    w.peripherals();
    if (chance(3, 4))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 8u, 3u, 25u });
    }
    const u32 usual = choose(3);
    routine("a transfer", [&] {
        u8 b[2] = {};
        embedded::I2CDevice d(w.lib, w.bus.peripherals[0].address);
        Cut cut;
        if (usual == 0) d.sendSync(b, 1);
        else if (usual == 1) d.receiveSync(b, 1);
        else d.sendThenReceive(b, 1, b + 1, 1);
    });
    u32 steps = history(1, thorough() ? 24 : 12);
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        arena_release_all();
        auto &p = w.bus.peripherals[choose((u32)w.bus.peripherals.size())];
        if (choose(12) == 0)
        {
            p.present = !p.present;
            fault(p.present ? "I2C peripheral comes back" : "I2C peripheral disappears");
        }
        if (choose(12) == 0) p.nackAfter = choose(20);
        switch (choose(4))
        {
        case 0: case 1: w.send(p, drawCount(), s); break;
        case 2: w.receive(p, drawCount()); break;
        case 3: w.combined(p, drawCount(), drawCount(), s); break;
        }
        state(mix(p.present, w.bus.log.empty() ? 0 : w.bus.log.back().bytes.size()));
        if (choose(6) == 0) w.usable(s);
    }
    w.usable(100);
}

SIM_SCENARIO(i2c_bus, "I02")
{
    hal::reset_all();
    drawClock();
    drawStalls(5000);
    World w;
    w.peripherals();
    if (chance(3, 4))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 4u, 2u, 15u });
    }
    auto reset = [&] {
        std::vector<u64> before;
        for (auto &p: w.bus.peripherals) before.push_back(p.resets);
        size_t from = w.bus.log.size();
        u64 fired = hal::faults.fired;
        set_step_limit(1000000);
        logf("resetBus");
        { Cut cut; w.lib.resetBus(); }
        for (size_t i = from; i < w.bus.log.size(); ++i)
        {
            auto &t = w.bus.log[i];
            if (t.address != 0 || t.read) fail("I02", "reset-not-general-call", "a bus reset addressed %02x", t.address);
        }
        if (hal::faults.fired == fired)
            for (size_t i = 0; i < before.size(); ++i)
            {
                auto &p = w.bus.peripherals[i];
                if (p.present && p.resets != before[i] + 1) fail("I02", "reset-missed", "after a bus reset, peripheral %02x has seen %llu reset commands", p.address, (unsigned long long)(p.resets - before[i]));
            }
    };
#ifdef SIM_ARDUINO
    routine("resetBus", [&] { Cut cut; w.lib.resetBus(); });
    u32 steps = history(1, 10);
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        arena_release_all();
        auto &p = w.bus.peripherals[choose((u32)w.bus.peripherals.size())];
        if (choose(6) == 0) { p.present = !p.present; fault("I2C peripheral disappears or comes back"); }
        if (choose(3) == 0) w.send(p, 1 + choose(10), s);
        reset();
        if (choose(3) == 0) w.usable(s);
    }
    w.usable(100);
#else
    auto &driver = hal::esp.i2c[Bus];
    u32 steps = history(2, 20);
    bool up = false;
    if (chance(1, 8))
    {
        {
            hal::NoFaults nf;
            Cut cut;
            up = w.lib.init(21, 22, 100000, false, false);
        }
        if (!up) fail("I02", "init-fails", "init fails although no driver call failed");
        const bool resets = choose(4) == 0;
        routine("the bus is probed", [&] {
            Cut cut;
            if (resets) w.lib.resetBus();
            else w.lib.testAddress((uint8_t)w.bus.peripherals[0].address);
        });
    }
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        arena_release_all();
        u32 what = choose(6);
        if (!up && choose(4)) what = 0;
        auto &p = w.bus.peripherals[choose((u32)w.bus.peripherals.size())];
        if (choose(6) == 0) { p.present = !p.present; fault("I2C peripheral disappears or comes back"); }
        if (what == 0)
        {
            int sda = choose(2) ? 21 : 4, scl = choose(2) ? 22 : 5;
            u32 f = choose(2) ? 100000 : 400000 + choose(1000);
            bool pa = choose(2), pb = choose(2), was = driver.installed;
            bool ok;
            u64 fired = hal::faults.fired;
            set_step_limit(100000);
            { Cut cut; ok = w.lib.init(sda, scl, f, pa, pb); }
            logf("init -> %d", ok);
            auto &c = driver.config;
            if (!ok && !was && hal::faults.fired == fired) fail("I02", "init-fails", "init fails although no driver call failed");
            if (ok && was) fail("I02", "init-lies", "init reports success although the driver was installed before and not by it");
            if (ok && !(driver.installed && driver.configured)) fail("I02", "init-lies", "init reports success but the driver is %s and the bus %s", driver.installed ? "installed" : "not installed", driver.configured ? "configured" : "not configured");
            if (ok && (c.mode != I2C_MODE_MASTER || driver.mode != I2C_MODE_MASTER || c.sda_io_num != sda || c.scl_io_num != scl || c.master.clk_speed != f || (bool)c.sda_pullup_en != pa || (bool)c.scl_pullup_en != pb))
                fail("I02", "init-lies", "init reports success but the bus is configured differently");
            up = driver.installed;
        }
        else if (what <= 3)
        {
            const bool ok = w.probe(choose(3) ? p.address : (u16)choose(128), up, true);
            state(mix(ok, mix(up, p.present)));
        }
        else if (what == 4)
        {
            if (up) reset();
            else { Cut cut; w.lib.resetBus(); }
        }
        else if (up) w.send(p, 1 + choose(10), s);
        if (!hal::esp.misuse.empty()) fail("I02", "driver-misuse", "%s", hal::esp.misuse.c_str());
    }
    if (up) w.usable(100);
#endif
}

// Two buses, each used by a task of its own.
SIM_SCENARIO(i2c_tasks, "I01 I02")
{
    hal::reset_all();
    drawClock();
    arena_release_all();
    World w0(0), w1(1);
    World* worlds[] = { &w0, &w1 };
    for (auto w: worlds)
    {
        w->inTask = true;
        w->peripherals();
#ifndef SIM_ARDUINO
        hal::esp.i2c[w->number].installed = hal::esp.i2c[w->number].configured = true;
#endif
    }
    // the same addresses on both buses, now and then
    if (choose(2))
        for (size_t i = 0; i < w0.bus.peripherals.size() && i < w1.bus.peripherals.size(); ++i)
            if (const u16 same = w0.bus.peripherals[i].address; !w1.bus.find(same)) w1.bus.peripherals[i].address = same;
    if (chance(1, 2))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 12u, 4u });
    }
    set_preemption(pick({ 2u, 1u, 6u }));
    set_step_limit(20000000);
    if (choose(2)) set_instruction_preemption(pick({ 20u, 5u, 100u }));
    for (auto w: worlds)
        spawn(w->number ? "bus1" : "bus0", [w] {
            u32 steps = range(1, 5);
            for (u32 s = 0; s < steps; ++s)
            {
                auto &p = w->bus.peripherals[choose((u32)w->bus.peripherals.size())];
                if (choose(12) == 0)
                {
                    p.present = !p.present;
                    fault(p.present ? "I2C peripheral comes back" : "I2C peripheral disappears");
                }
                if (choose(12) == 0) p.nackAfter = choose(20);
                u32 n = 1 + choose(40), m = 1 + choose(40);
                switch (choose(Arduino ? 4 : 5))
                {
#ifndef SIM_ARDUINO
                case 4: w->probe(choose(3) ? p.address : (u16)(1 + choose(127)), true, false); break;
#endif
                case 0: case 1: w->send(p, n, s); break;
                case 2: w->receive(p, n); break;
                case 3: w->combined(p, n, m, s); break;
                }
                state(mix(w->number, mix(p.present, w->bus.log.empty() ? 0 : w->bus.log.back().bytes.size())));
            }
        });
    run_tasks();
#ifndef SIM_ARDUINO
    if (hal::esp.liveCmdLinks) fail("I02", "command-link-leaked", "%d command links were not deleted", hal::esp.liveCmdLinks);
    if (!hal::esp.misuse.empty()) fail("I02", "driver-misuse", "%s", hal::esp.misuse.c_str());
#endif
}
