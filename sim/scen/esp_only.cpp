// What only the ESP-IDF back end has: UART bring-up, SPI bus life cycle, sleeping, the ADC.
#include "scen/common.h"
#include "SimpleUartDevice.h"
#include "SpiDevice.h"
#include "GpioPinDefinition.h"
#include "SpiBus.h"
#include "SleepFunctions.h"
#include "AnalogPin.h"
#include "storage/shim.h"
#include <map>
#include <memory>
#include <string>

using namespace scen;

// for the other scenarios: the header defines functions, so that only one file can include it
namespace scen
{
void light_sleep(uint32_t ms) { Cut cut; embedded::ligntSleep(ms); }
void deep_sleep_for(uint32_t ms) { Cut cut; embedded::deepSleep(ms); }
}

// ---------------------------------------------------------------- U07
SIM_SCENARIO(uart_bringup, "U07")
{
    using D = embedded::SimpleUartDevice;
    hal::reset_all();
    drawClock();
    drawStalls(5000);
    const int port = (int)choose(3), rx = (int)choose(2) ? 16 : 3, tx = (int)choose(2) ? 17 : 1;
    const int baud = pick({ 115200, 9600, 921600, 1200 });
    auto db = pick({ D::DataBits::Bits8, D::DataBits::Bits5, D::DataBits::Bits6, D::DataBits::Bits7 });
    auto pc = pick({ D::ParityCheck::None, D::ParityCheck::Even, D::ParityCheck::Odd });
    auto sb = pick({ D::StopBits::Bits1, D::StopBits::Bit1_5, D::StopBits::Bits2 });
    auto fc = pick({ D::FlowControl::Disable, D::FlowControl::RTS, D::FlowControl::CTS, D::FlowControl::RTS_CTS });
    u32 boots = history(1, 8), quiet = 0;
    const u32 den = pick({ 3u, 2u, 6u });
    for (u32 b = 0; quiet < 2; ++b)
    {
        Span sp;
        bool faulty = b < boots;
        hal::faults.num = faulty;
        hal::faults.den = den;
        hal::esp_boot(b == 0 ? Boot::Power : hal::esp.restarted ? Boot::Soft : pick({ Boot::Wake, Boot::Soft, Boot::Power }));
        auto &d = hal::esp.uart[port];
        bool pre = choose(4) == 0;
        hal::EspUart other;
        if (pre)
        {
            // the driver was brought up by somebody else
            d.installed = d.configured = d.pins = true;
            d.config.baud_rate = 4800;
            d.config.data_bits = UART_DATA_7_BITS;
            d.tx = 33;
            d.rx = 32;
            d.rxBuffer = 1024;
            other = d;
        }
        u64 fired = hal::faults.fired, failedBefore = fired;
        bool result = false;
        u32 calls = range(1, 3), returned = 0;
        logf("boot %u, driver %s", b, pre ? "installed by somebody else" : "not installed");
        set_step_limit(200000);
        bool up = run_crashable([&] {
            for (u32 k = 0; k < calls; ++k)
            {
                if (k && chance(1, 4))
                {
                    // the application has no use for the UART for a while
                    uart_driver_delete(port);
                    d = hal::EspUart();
                    pre = false;
                    failedBefore = hal::faults.fired;
                    logf("driver removed");
                    probe("brought up again after removal");
                }
                {
                    Cut cut;
                    result = D::init(port, rx, tx, baud, db, pc, sb, fc);
                }
                ++returned;
                logf("init -> %d", result);
                bool failed = hal::faults.fired != failedBefore;
                if (failed && !pre) fail("U07", "went-on-after-failure", "bringing up the UART returned %d although %s failed; the device must restart", result, hal::faults.last.c_str());
                if (!result) { fail("U07", "no-restart", "bringing up the UART reports failure instead of restarting"); continue; }
                auto &c = d.config;
                if (!d.installed) fail("U07", "lies", "bringing up the UART reports success, but its driver is not installed");
                if (pre)
                {
                    if (d.touched != 0 || d.installs) fail("U07", "touched-foreign-driver", "bringing up a UART that was already up made %u configuration calls", d.touched);
                    continue;
                }
                if (!d.configured || !d.pins) fail("U07", "lies", "bringing up the UART reports success, but it is %s", d.configured ? "not connected to its pins" : "not configured");
                if (c.baud_rate != baud || c.data_bits != (uart_word_length_t)db || c.parity != (uart_parity_t)pc || c.stop_bits != (uart_stop_bits_t)sb || c.flow_ctrl != (uart_hw_flowcontrol_t)fc)
                    fail("U07", "wrong-configuration", "the UART was brought up with a rate or framing that was not asked for");
                if (d.tx != tx || d.rx != rx) fail("U07", "wrong-configuration", "the UART was brought up on pins rx %d tx %d instead of rx %d tx %d", d.rx, d.tx, rx, tx);
                if (d.installs != 1) fail("U07", "installed-twice", "the driver was installed %u times in one boot", d.installs);
            }
        });
        bool failed = hal::faults.fired != fired;
        if (up && returned != calls) fail("U07", "harness", "bring-up did not return");
        if (!up)
        {
            logf("device restarted: %s", hal::esp.restartReason.c_str());
            probe("restart after a failed bring-up step");
            if (!failed) fail("U07", "restart-for-no-reason", "the device restarted in a boot without faults");
        }
        if (!faulty) ++quiet;
        state(mix(pre, mix(up, returned)));
        for (int o = 0; o < 3; ++o)
            if (o != port && hal::esp.uart[o].touched) fail("U07", "wrong-port", "bringing up UART%d configured UART%d", port, o);
    }
}

// ---------------------------------------------------------------- B03
SIM_SCENARIO(spi_bus_life, "B03")
{
    hal::reset_all();
    drawClock();
    drawStalls(3000);
    const u32 objects = range(1, 3);
    std::unique_ptr<embedded::SpiBus> bus[3];
    int host[3];
    bool holds[3] = {}, leftover[3] = {};  // what the object holds; what a failed clean-up may have left it with
    embedded::GpioPinDefinition p1 { 18 }, p2 { 19 }, p3 { 23 };
    if (chance(3, 4))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 3u, 2u, 6u });
    }
    auto create = [&](u32 i) {
        host[i] = 1 + (int)choose(2);
        bus[i] = std::make_unique<embedded::SpiBus>(host[i]);
        holds[i] = leftover[i] = false;
    };
    for (u32 i = 0; i < objects; ++i) create(i);
    auto misused = [&] { if (!hal::esp.misuse.empty()) fail("B03", "driver-misuse", "%s", hal::esp.misuse.c_str()); };
    auto check = [&](const char* when) {
        misused();
        for (int h = 0; h < 3; ++h)
        {
            int owner = -1;
            bool maybe = false;
            for (u32 i = 0; i < objects; ++i)
                if (host[i] == h && bus[i]) { if (holds[i]) owner = (int)i; maybe = maybe || leftover[i]; }
            auto &d = hal::esp.spi[h];
            if (owner >= 0 && (!d.initialised || d.devices != 1)) fail("B03", "device-lost", "%s the bus held by an object is %s with %d devices", when, d.initialised ? "initialised" : "not initialised", d.devices);
            if (owner < 0 && !maybe && (d.initialised || d.devices)) fail("B03", "leak", "%s a bus that nobody holds is %s with %d devices", when, d.initialised ? "initialised" : "not initialised", d.devices);
        }
    };
    u32 steps = history(2, thorough() ? 40 : 20);
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        u32 i = choose(objects);
        set_step_limit(200000);
        auto &d = hal::esp.spi[host[i]];
        u64 fired = hal::faults.fired;
        switch (choose(6))
        {
        case 0: case 1:
        {
            bool before = d.initialised;
            int devices = d.devices;
            auto mode = choose(2) ? embedded::SpiBus::DuplexMode::Full : embedded::SpiBus::DuplexMode::Half;
            u32 f = 1000000 + choose(100);
            std::string seen;
            bool freeFailed = false;
            hal::faults.filter = [&](const char* n) { seen = n; return true; };
            bool ok;
            u32 used = hal::esp.spiDevicesUsed;
            { Cut cut; ok = bus[i]->init(p1, p2, p3, f, mode); }
            freeFailed = seen == "spi_bus_free" && hal::faults.fired != fired && hal::faults.last == "spi_bus_free";
            hal::faults.filter = nullptr;
            logf("init object %u on host %d -> %d", i, host[i], ok);
            if (ok)
            {
                if (before) fail("B03", "init-lies", "init reports success on a bus that was in use");
                if (!d.initialised || d.devices != 1) fail("B03", "init-lies", "init reports success, the bus is %s with %d devices", d.initialised ? "initialised" : "not initialised", d.devices);
                if (hal::esp.spiDevicesUsed == used + 1)
                {
                    auto &dev = hal::esp.spiDevices[used];
                    if (dev.frequency != (int)f || dev.mode != 0 || ((dev.flags & SPI_DEVICE_HALFDUPLEX) != 0) != (mode == embedded::SpiBus::DuplexMode::Half))
                        fail("B03", "init-lies", "init attached the device with other settings than asked for");
                }
                if (d.config.sclk_io_num != 18 || d.config.miso_io_num != 19 || d.config.mosi_io_num != 23) fail("B03", "init-lies", "init set up the bus on other pins than asked for");
                holds[i] = true;
                leftover[i] = false;
            }
            else
            {
                if (hal::faults.fired == fired && !before) fail("B03", "init-fails", "init failed although the driver did not and the bus was free");
                if (freeFailed) { leftover[i] = true; probe("clean-up of a failed init failed"); }
                else if (d.initialised != before || d.devices != devices)
                    fail("B03", "failed-init-leaks", "after a failed init the bus is %s with %d devices; before it was %s with %d", d.initialised ? "initialised" : "not initialised", d.devices, before ? "initialised" : "not initialised", devices);
                probe("failed init");
            }
            break;
        }
        case 2: case 3:
        {
            bool ok;
            bool mine = holds[i] || leftover[i];
            int devices = d.devices;
            bool before = d.initialised;
            { Cut cut; ok = bus[i]->release(); }
            logf("release object %u -> %d", i, ok);
            if (ok && mine && (d.initialised || d.devices)) fail("B03", "release-lies", "release reports success, the bus is %s with %d devices", d.initialised ? "initialised" : "not initialised", d.devices);
            if (!mine && (d.initialised != before || d.devices != devices)) fail("B03", "released-foreign-bus", "releasing an object that holds nothing changed the bus");
            if (!ok && hal::faults.fired == fired) fail("B03", "release-fails", "release failed although the driver did not");
            if (ok) holds[i] = leftover[i] = false;
            else
            {
                probe("failed release");
                misused();
                // It can be retried.
                if (holds[i]) { leftover[i] = true; holds[i] = false; }
                if (choose(2))
                {
                    hal::NoFaults nf;
                    bool again;
                    { Cut cut; again = bus[i]->release(); }
                    logf("release again without faults -> %d", again);
                    if (!again) fail("B03", "release-not-retryable", "a release that had failed fails again without faults");
                    if (d.initialised || d.devices) fail("B03", "release-not-retryable", "after retrying a failed release the bus is %s with %d devices", d.initialised ? "initialised" : "not initialised", d.devices);
                    holds[i] = leftover[i] = false;
                }
            }
            break;
        }
        case 4:
        {
            embedded::SpiDevice dev(*bus[i]);
            u8 b[8] = { 1, 2, 3 };
            size_t from = hal::spi[host[i]].log.size();
            bool ok;
            { Cut cut; ok = dev.sendSync(b, sizeof b); }
            logf("transfer on object %u -> %d", i, ok);
            if (ok && !holds[i] && !leftover[i]) fail("B03", "transfer-without-bus", "a transfer on an object that holds no bus reports success");
            if (!ok && holds[i] && hal::faults.fired == fired) fail("B03", "device-lost", "a transfer on an initialised bus failed although the driver did not");
            if (ok && hal::spi[host[i]].log.size() != from + 8) fail("B03", "device-lost", "a transfer on an initialised bus moved %zu of 8 bytes", hal::spi[host[i]].log.size() - from);
            break;
        }
        case 5:
        {
            hal::NoFaults nf;
            bool mine = holds[i] || leftover[i];
            { Cut cut; bus[i].reset(); }
            logf("object %u destroyed", i);
            if (mine && (d.initialised || d.devices)) fail("B03", "destroy-leaks", "after destroying the object its bus is %s with %d devices", d.initialised ? "initialised" : "not initialised", d.devices);
            holds[i] = leftover[i] = false;
            misused();
            create(i);
            break;
        }
        }
        check("afterwards");
        state(mix(holds[i], mix(leftover[i], d.devices * 2 + d.initialised)));
    }
    hal::NoFaults nf;
    for (u32 i = 0; i < objects; ++i) { Cut cut; bus[i].reset(); }
    misused();
    for (int h = 0; h < 3; ++h)
        if (hal::esp.spi[h].initialised || hal::esp.spi[h].devices) fail("B03", "destroy-leaks", "after destroying every object a bus is still in use");
}

// ---------------------------------------------------------------- T02
SIM_SCENARIO(light_sleep, "T02")
{
    hal::reset_all();
    drawClock();
    drawStalls(60000);
    hal::esp.earlyWake = pick({ 0u, 4u, 12u, 15u });
    hal::esp.rejects = pick({ 0u, 4u, 12u, 16u });
    routine("a light sleep", [&] { Cut cut; embedded::ligntSleep(1); });
    u32 steps = history(1, 6);
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        if (choose(2)) advance(choose(30000));
        hal::clear_poll();
        u32 ms;
        switch (choose(6))
        {
        case 0: ms = choose(6); break;
        case 1: case 2: ms = 1 + choose(100); break;
        case 3: ms = 1 + choose(100000); break;
        case 4: ms = 4294000 + choose(3000); break;          // around 2^32 us
        default: ms = chance(1, 4) ? 0xFFFFFFFFu - choose(5000) : choose(0x7FFFFFFF); break;
        }
        u64 t0 = now(), st0 = stalled_total();
        set_step_limit(5000000);
        logf("sleep for %u ms at t=%llu", ms, (unsigned long long)t0);
        const u64 tolerance = 2 * Gran + 3000;
        hal::esp.lastReject = 0;
        drawStallNear(t0 + (u64)ms * 1000);
        set_time_guard(t0 + (u64)ms * 1000 + tolerance + 80000, "T02", "overslept", "light sleep");
        { Cut cut; embedded::ligntSleep(ms); }
        clear_time_guard();
        no_stall_at();
        u64 spent = now() - t0, stalled = stalled_total() - st0;
        logf(" woke after %llu us", (unsigned long long)spent);
        if (spent < (u64)ms * 1000) fail("T02", "woke-early", "a light sleep of %u ms returned after %llu us", ms, (unsigned long long)spent);
        // a refusal that takes until after the end cannot be helped
        const u64 over = hal::esp.lastReject > t0 + (u64)ms * 1000 ? hal::esp.lastReject - t0 - (u64)ms * 1000 : 0;
        if (spent > (u64)ms * 1000 + tolerance + stalled + over) fail("T02", "overslept", "a light sleep of %u ms returned after %llu us, %llu of them not scheduled", ms, (unsigned long long)spent, (unsigned long long)stalled);
        state(mix(ms % 8, hal::esp.earlyWake + 17 * hal::esp.rejects));
    }
}

// ---------------------------------------------------------------- T03
SIM_SCENARIO(deep_sleep, "T03")
{
    hal::reset_all();
    drawClock();
    size_t size = pick({ 64u, 30u, 200u, 600u });
    u8* region = arena_alloc(size, choose(4), (u8)choose(256));
    alignas(16) u8 object[64];
    std::map<std::string, std::pair<size_t, std::vector<u8>>> model;
    const char* keys[] = { "a", "cfg", "k2", "cnt4" };
    size_t used = 0;
    u32 cycles = history(1, 8), counter = 0, lastMs = 0;
    bool first = true;
    for (u32 c = 0; c < cycles; ++c)
    {
        Span sp;
        hal::esp_boot(c == 0 ? Boot::Power : hal::esp.deepSleeping ? Boot::Wake : pick({ Boot::Soft, Boot::Power }));
        drawStalls(2000);
        u32 ms = choose(10) == 0 ? choose(3) : choose(3) == 0 ? 0xFFFFFFFFu - choose(100000) : choose(3) == 0 ? 4294960 + choose(20) : choose(2) ? 1 + choose(100000) : choose(0x7FFFFFFF);
        if (lastMs && choose(3) == 0) ms = lastMs;       // many devices sleep for the same time again and again
        lastMs = ms;
        bool plainReset = choose(4) == 0;
        u32 stores = choose(4);
        const u32 naps = choose(3) == 0 ? 1 + choose(2) : 0;
        bool init = first;
        first = false;
        set_step_limit(3000000);
        bool up = run_crashable([&] {
            { Cut cut; shim::storage_open(object, region, size, init); }
            for (auto &m: model)
            {
                auto &op = shim::ops[m.second.first];
                std::vector<u8> got(op.size);
                bool have;
                { Cut cut; have = op.get(object, m.first, got.data()); }
                if (!have || got != m.second.second)
                    fail("T03", "state-lost", "'%s' was stored before the device went to sleep; after waking it reads %s", m.first.c_str(), have ? hex(got.data(), got.size()).c_str() : "nothing");
            }
            for (u32 k = 0; k < stores; ++k)
            {
                std::string key = keys[choose(4)];
                auto it = model.find(key);
                size_t t = it != model.end() ? it->second.first : choose(20);
                auto &op = shim::ops[t];
                std::vector<u8> data(op.size);
                for (size_t i = 0; i < data.size(); ++i) data[i] = (u8)(mix(++counter, i) >> 3);
                bool fits = it != model.end() || used + 6 + op.size <= size;
                bool ok;
                { Cut cut; ok = op.set(object, key, data.data()); }
                logf("store '%s' (%zu bytes) -> %d", key.c_str(), op.size, ok);
                if (!ok) { if (fits) fail("T03", "store-failed", "storing '%s' (%zu bytes) failed although it fits", key.c_str(), op.size); continue; }
                if (it == model.end()) used += 6 + op.size;
                model[key] = { t, data };
            }
            if (plainReset)
            {
                fault("reset instead of sleep");
                crash_here();
            }
            for (u32 k = 0; k < naps; ++k)
            {
                const u32 nap = choose(4) == 0 ? ms % 300 : 1 + choose(200);
                const bool sleep = choose(4) != 0;
                hal::esp.rejects = choose(4) == 0 ? 16 : 0;
                hal::esp.earlyWake = choose(4) == 0 ? 8 : 0;
                hal::clear_poll();
                logf("%s for %u ms", sleep ? "light sleep" : "delay", nap);
                Cut cut;
                if (sleep) embedded::ligntSleep(nap); else embedded::delay(nap);
            }
            logf("deep sleep for %u ms", ms);
            Cut cut;
            embedded::deepSleep(ms);
        });
        if (up) fail("T03", "did-not-sleep", "deepSleep returned");
        if (up) discard("did not sleep");
        disable_stalls();
        if (plainReset) continue;
        if (!hal::esp.deepSleeping) fail("T03", "did-not-sleep", "the device restarted instead of sleeping");
        if (hal::esp.deepSleepUs != (u64)ms * 1000)
            fail("T03", "wrong-duration", "deepSleep(%u) sleeps for %llu us", ms, (unsigned long long)hal::esp.deepSleepUs);
        fault("deep sleep cycle");
        hal::bootOffset = 0;
        // the RTC slept through it; the main clock restarts
        state(mix(model.size(), used));
    }
}

// ---------------------------------------------------------------- A01
SIM_SCENARIO(adc, "A01")
{
    hal::reset_all();
    drawClock();
    drawStalls(3000);
    if (chance(3, 4))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 4u, 2u, 12u });
    }
    static const u8 pins[] = { 36, 32, 39, 4, 25, 0, 27, 35, 26, 2, 33, 34, 12, 13, 14, 15, 37, 38, 1, 3, 5, 18, 23, 40, 255 };
    // pins that stay for the whole run, and others that are made for one read
    embedded::GpioPinDefinition kept[3] = { { pins[choose(sizeof pins)] }, { pins[choose(sizeof pins)] }, { pins[choose(sizeof pins)] } };
    embedded::AnalogPin keptPins[3] = { embedded::AnalogPin(kept[0]), embedded::AnalogPin(kept[1]), embedded::AnalogPin(kept[2]) };
    routine("an analog read", [&] { Cut cut; keptPins[0].singleRead(); });
    u32 steps = history(2, thorough() ? 200 : 60);
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        const u32 which = choose(6);
        embedded::GpioPinDefinition def = which < 3 ? kept[which] : embedded::GpioPinDefinition { pins[choose(sizeof pins)] };
        int unit = -1, ch = -1;
        for (int u = 0; u < 2; ++u)
            for (int c = 0; c < 10; ++c)
                if (adc_channel_io_map[u][c] == def.pin && adc_channel_io_map[u][c] >= 0) { unit = u; ch = c; }
        bool quiet = choose(4) == 0;
        bool enabled = hal::faults.enabled;
        if (quiet) hal::faults.enabled = false;
        hal::esp.lastAdcOk = false;
        hal::esp.lastAdcUnit = hal::esp.lastAdcChannel = -1;
        u64 fired = hal::faults.fired, reads = hal::esp.adcReads;
        embedded::AnalogPin fresh(def), &pin = which < 3 ? keptPins[which] : fresh;
        set_step_limit(100000);
        int v;
        { Cut cut; v = pin.singleRead(); }
        hal::faults.enabled = enabled;
        logf("read pin %u -> %d", def.pin, v);
        bool delivered = hal::esp.lastAdcOk;
        int expected = delivered ? hal::esp.lastAdcValue : -1;
        if (v != expected) fail("A01", "wrong-value", "reading pin %u returns %d, the driver %s %d", def.pin, v, delivered ? "delivered" : "failed, so it should be", expected);
        if (delivered && (hal::esp.lastAdcUnit != unit || hal::esp.lastAdcChannel != ch)) fail("A01", "wrong-channel", "reading pin %u converted channel %d of unit %d instead of channel %d of unit %d", def.pin, hal::esp.lastAdcChannel, hal::esp.lastAdcUnit, ch, unit);
        if (hal::faults.fired == fired && unit >= 0 && !delivered) fail("A01", "read-failed", "reading pin %u failed although the driver did not", def.pin);
        if (unit < 0 && hal::esp.adcReads != reads) fail("A01", "wrong-channel", "reading pin %u, which has no converter, converted something", def.pin);
        for (int u = 0; u < 2; ++u)
            if (hal::esp.adcClaimed[u]) fail("A01", "unit-kept", "after reading pin %u converter %d is still claimed", def.pin, u + 1);
        if (hal::esp.adcPower) fail("A01", "power-unbalanced", "after reading pin %u the converter's power was acquired %d times more than released", def.pin, hal::esp.adcPower);
        if (!hal::esp.misuse.empty()) fail("A01", "driver-misuse", "%s", hal::esp.misuse.c_str());
        state(mix(def.pin, delivered));
    }
}

// Several tasks read pins of their own. A converter serves one of them at a time and is refused to the others.
SIM_SCENARIO(adc_tasks, "A01")
{
    hal::reset_all();
    drawClock();
    drawStalls(3000);
    if (choose(2))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 8u, 20u });
    }
    static const u8 pins[] = { 36, 32, 39, 4, 25, 0, 27, 35, 26, 2, 33, 34, 12, 13, 14, 15 };
    const u32 tasks = range(2, 3);
    set_preemption(pick({ 2u, 1u, 6u }));
    set_step_limit(20000000);
    set_instruction_preemption(pick({ 20u, 5u, 80u }));
    for (u32 i = 0; i < tasks; ++i)
        spawn(("reader" + std::to_string(i)).c_str(), [&, i] {
            embedded::GpioPinDefinition def { pins[choose(sizeof pins)] };
            embedded::AnalogPin pin(def);
            const u32 steps = range(2, 12);
            for (u32 s = 0; s < steps; ++s)
            {
                int unit = -1, ch = -1;
                for (int u = 0; u < 2; ++u)
                    for (int c = 0; c < 10; ++c)
                        if (adc_channel_io_map[u][c] == def.pin) { unit = u; ch = c; }
                const u64 fired = hal::faults.fired;
                const size_t before = hal::esp.adcDelivered.size();
                const int me = current_task();
                hal::esp.adcConflict[me] = false;
                int v;
                { Cut cut; v = pin.singleRead(); }
                logf("read pin %u -> %d", def.pin, v);
                int expected = -1;
                for (size_t k = before; k < hal::esp.adcDelivered.size(); ++k)
                {
                    auto &d = hal::esp.adcDelivered[k];
                    if (d.task != me) continue;
                    if (d.unit != unit || d.channel != ch)
                        fail("A01", "wrong-channel", "reading pin %u converted channel %d of unit %d instead of channel %d of unit %d", def.pin, d.channel, d.unit, ch, unit);
                    expected = d.value;
                }
                if (v != expected) fail("A01", "wrong-value", "reading pin %u returns %d, the driver gave this task %d", def.pin, v, expected);
                if (expected == -1 && hal::faults.fired == fired && !hal::esp.adcConflict[me]) fail("A01", "read-failed", "reading pin %u failed although the driver did not", def.pin);
                if (hal::esp.adcConflict[me]) probe("converter in use by another task");
                state(mix(def.pin, mix(expected >= 0, hal::esp.adcConflict[me])));
                if (choose(3) == 0) yield_point("pause");
            }
        });
    run_tasks();
    for (int u = 0; u < 2; ++u)
        if (hal::esp.adcClaimed[u]) fail("A01", "unit-kept", "converter %d is still claimed after every read has returned", u + 1);
    if (hal::esp.adcPower) fail("A01", "power-unbalanced", "the converter's power was acquired %d times more than released", hal::esp.adcPower);
    if (!hal::esp.misuse.empty()) fail("A01", "driver-misuse", "%s", hal::esp.misuse.c_str());
}
