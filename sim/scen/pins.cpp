// Digital pins on both back ends.
#include "scen/common.h"
#include "GpioDigitalPin.h"
#include "GpioPinDefinition.h"
#include <algorithm>

namespace
{
using namespace scen;
using Pin = embedded::GpioDigitalPin;

bool exists(unsigned pin)
{
#ifdef SIM_ARDUINO
    return pin < 40;
#else
    return GPIO_IS_VALID_GPIO((int)pin);
#endif
}
bool canDrive(unsigned pin)
{
#ifdef SIM_ARDUINO
    return pin < 40;
#else
    return GPIO_IS_VALID_OUTPUT_GPIO((int)pin);
#endif
}
}

SIM_SCENARIO(pins, "B05")
{
    hal::reset_all();
    drawClock();
    drawStalls(2000);
    auto &g = hal::gpio;
#ifndef SIM_ARDUINO
    if (chance(3, 4))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 4u, 2u, 15u });
    }
#endif
    const u32 count = range(1, 6);
    std::vector<embedded::GpioPinDefinition> defs(count);
    std::vector<Pin> pins;
    for (auto &d: defs)
    {
        do
        {
            static const u8 odd[] = { 0, 1, 31, 32, 33, 34, 39, 20, 24, 28, 40, 63, 64, 128, 255 };
            d.pin = (u8)(chance(1, 2) ? choose(34) : odd[choose(sizeof odd)]);
            if (Arduino && d.pin >= 40) d.pin %= 40;
        }
        while (std::count_if(defs.begin(), defs.end(), [&](auto &x) { return x.pin == d.pin; }) > 1 && chance(15, 16));
    }
    for (auto &d: defs) pins.emplace_back(d);
    const u32 steps = history(2, 30), usual = choose(5);
    routine("a pin is used", [&] {
        Cut cut;
        if (usual == 0) pins[0].set();
        else if (usual == 1) pins[0].reset();
        else if (usual == 2) pins[0].check();
        else if (usual == 3) pins[0].init(Pin::Direction::Input);
        else pins[0].set(usual == 4);
    });
    auto untouched = [&](const char* what, const hal::Gpio &before, unsigned pin, bool mode, bool level) {
        for (unsigned k = 0; k < 64; ++k)
        {
            if (!(g.mode[k] == before.mode[k]) && !(mode && k == pin)) fail("B05", "foreign-pin", "%s of pin %u changed the mode of pin %u", what, pin, k);
            if (g.level[k] != before.level[k] && !(level && k == pin)) fail("B05", "foreign-pin", "%s of pin %u changed the level of pin %u", what, pin, k);
        }
    };
    for (u32 s = 0; s < steps; ++s)
    {
        Span sp;
        const u32 i = choose(count);
        const unsigned pin = defs[i].pin;
        auto &p = pins[i];
        set_step_limit(100000);
        const hal::Gpio before = g;
        switch (choose(6))
        {
        case 5:
        {
            // another part of the application drives the pin with the platform's own function
            const bool high = choose(2);
            if (!canDrive(pin)) break;
            const bool on = hal::faults.enabled;
            hal::faults.enabled = false;
#ifdef SIM_ARDUINO
            digitalWrite((u8)pin, high);
#else
            gpio_set_level((gpio_num_t)pin, high);
#endif
            hal::faults.enabled = on;
            logf("pin %u driven %s by somebody else", pin, high ? "high" : "low");
            fault("pin driven by other code");
            break;
        }
        case 0:
        {
            for (auto &d: defs)
                if (d.pin < 64 && choose(2)) g.outside[d.pin] ^= 1;
            fault("input level changes");
            break;
        }
        case 1:
        {
            const bool input = choose(2);
            const auto pull = pick({ Pin::PullMode::None, Pin::PullMode::Up, Pin::PullMode::Down });
            const u64 fired = hal::faults.fired;
            bool ok;
            { Cut cut; ok = p.init(input ? Pin::Direction::Input : Pin::Direction::Output, pull); }
            logf("init pin %u %s pull %d -> %d", pin, input ? "input" : "output", (int)pull, ok);
            untouched("init", before, pin, true, true);
            const bool possible = exists(pin) && (input || canDrive(pin));
            if (ok && !possible) fail("B05", "impossible-pin", "init of pin %u as %s reports success", pin, input ? "input" : "output");
            if (!ok && possible && hal::faults.fired == fired) fail("B05", "init-fails", "init of pin %u as %s fails although no driver call failed", pin, input ? "input" : "output");
            if (ok && hal::faults.fired != fired) fail("B05", "failure-hidden", "init of pin %u reports success although a driver call failed", pin);
            if (!exists(pin) && pin < 64) untouched("init", before, pin, false, false);
            if (ok && possible)
            {
                auto &m = g.mode[pin];
                const bool pulls = Arduino || pin < 34;  // input-only pins have no pull resistors
                if (!m.configured || m.output != !input || (input && !m.input)) fail("B05", "wrong-mode", "init of pin %u as %s left it %s%s", pin, input ? "input" : "output", m.input ? "input" : "", m.output ? "output" : "");
                if (pulls && (m.up != (pull == Pin::PullMode::Up) || m.down != (pull == Pin::PullMode::Down))) fail("B05", "wrong-pull", "init of pin %u with pull mode %d left it with pull up %d, pull down %d", pin, (int)pull, m.up, m.down);
            }
            break;
        }
        case 2:
        case 3:
        {
            const bool high = choose(2);
            const u32 how = choose(2);
            {
                Cut cut;
                if (how) p.set(high);
                else if (high) p.set();
                else p.reset();
            }
            logf("pin %u %s", pin, high ? "high" : "low");
            untouched(high ? "set" : "reset", before, pin, false, true);
            if (canDrive(pin) && g.level[pin] != high) fail("B05", "wrong-level", "after %s of pin %u it is %s", high ? "set" : "reset", pin, g.level[pin] ? "high" : "low");
            break;
        }
        case 4:
        {
            bool level;
            { Cut cut; level = p.check(); }
            logf("check of pin %u -> %d", pin, level);
            untouched("check", before, pin, false, false);
            if (exists(pin) && g.mode[pin].configured && g.mode[pin].input && !g.mode[pin].output && level != (bool)g.outside[pin])
                fail("B05", "wrong-reading", "check of pin %u reports %s, it is %s", pin, level ? "high" : "low", g.outside[pin] ? "high" : "low");
            if (Arduino && g.mode[pin].output && level != (bool)g.level[pin])
                fail("B05", "wrong-reading", "check of output pin %u reports %s, it is %s", pin, level ? "high" : "low", g.level[pin] ? "high" : "low");
            break;
        }
        }
        state(mix(pin, mix(g.mode[pin & 63].output, g.mode[pin & 63].up + 2 * g.mode[pin & 63].down)));
        if (choose(4) == 0) advance(choose(1000));
    }
    // the faults stop: every pin can be brought up
    hal::faults.num = 0;
    for (u32 i = 0; i < count; ++i)
    {
        const unsigned pin = defs[i].pin;
        bool ok;
        { Cut cut; ok = pins[i].init(Pin::Direction::Input); }
        if (exists(pin) && !ok) fail("B05", "init-fails", "init of pin %u still fails after the faults stopped", pin);
    }
}

// Pins of several tasks.
SIM_SCENARIO(pins_tasks, "B05")
{
    hal::reset_all();
    drawClock();
    auto &g = hal::gpio;
    const u32 tasks = range(2, 3);
    static const u8 all[] = { 2, 4, 5, 13, 0, 15, 18, 32, 33, 27 };
    u8 numbers[3];
    for (u32 i = 0; i < tasks; ++i)
        for (numbers[i] = all[choose(10)]; std::count(numbers, numbers + i, numbers[i]); numbers[i] = all[(std::find(all, all + 10, numbers[i]) - all + 1) % 10]) {}
    set_preemption(pick({ 2u, 1u, 6u }));
    set_step_limit(20000000);
    set_instruction_preemption(pick({ 10u, 3u, 40u }));
#ifndef SIM_ARDUINO
    if (choose(2))
    {
        hal::faults.num = 1;
        hal::faults.den = 6;
    }
#endif
    for (u32 i = 0; i < tasks; ++i)
        spawn(("pin" + std::to_string(i)).c_str(), [&, i] {
            embedded::GpioPinDefinition def { numbers[i] };
            Pin p(def);
            const unsigned pin = numbers[i];
            const u32 steps = range(2, 8);
            bool output = false, input = false, driven = false, high = false;
            for (u32 s = 0; s < steps; ++s)
            {
                switch (choose(4))
                {
                case 0:
                {
                    const bool in = choose(2);
                    bool ok;
                    { Cut cut; ok = p.init(in ? Pin::Direction::Input : Pin::Direction::Output); }
                    logf("init pin %u %s -> %d", pin, in ? "input" : "output", ok);
                    if (!ok && !hal::faults.num) fail("B05", "init-fails", "init of pin %u fails although no driver call failed", pin);
                    if (ok && g.mode[pin].output != !in) fail("B05", "wrong-mode", "init of pin %u as %s left it %s", pin, in ? "input" : "output", g.mode[pin].output ? "output" : "input");
                    if (ok) { output = !in; input = in; }
                    else output = input = false;
                    driven = false;
                    break;
                }
                case 1: case 2:
                {
                    high = choose(2);
                    { Cut cut; if (choose(2)) p.set(high); else if (high) p.set(); else p.reset(); }
                    logf("pin %u %s", pin, high ? "high" : "low");
                    driven = true;
                    break;
                }
                default:
                    if (input) g.outside[pin] = (u8)choose(2);
                    if (input)
                    {
                        bool level;
                        { Cut cut; level = p.check(); }
                        if (level != (bool)g.outside[pin]) fail("B05", "wrong-reading", "check of pin %u reports %s, it is %s", pin, level ? "high" : "low", g.outside[pin] ? "high" : "low");
                    }
                }
                if (choose(2)) yield_point("between");
                if (driven && g.level[pin] != high) fail("B05", "foreign-pin", "pin %u was set %s and is %s; only other pins were touched since", pin, high ? "high" : "low", g.level[pin] ? "high" : "low");
                if (output && !g.mode[pin].output) fail("B05", "foreign-pin", "pin %u is no output any more; only other pins were touched since", pin);
                state(mix(pin, mix(output, high)));
            }
        });
    run_tasks();
}
