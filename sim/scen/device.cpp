// A whole device: a firmware of several tasks that uses all parts of the library at once, its peer on
// the serial line, and a power supply that fails at any instant.
#include "scen/common.h"
#include "AnalogPin.h"
#include "Debug.h"
#include "Delays.h"
#include "GpioDigitalPin.h"
#include "GpioPinDefinition.h"
#include "I2CBus.h"
#include "I2CDevice.h"
#include "PacketUart.h"
#include "PacketUartImpl.h"
#include "PersistentStorage.h"
#include "SerialOut.h"
#include "SpiBus.h"
#include "SpiDevice.h"
#include "graphics/Canvas.h"
#include "graphics/EmbeddedFonts.h"
#include "graphics/SimpleFrameBuffer.h"
#include <cstring>
#include <memory>
#include <new>
#include <set>

using namespace scen;

#ifdef SIM_ARDUINO
namespace hal { extern u16 analogValue[64]; }
#else
namespace scen { void light_sleep(uint32_t ms); void deep_sleep_for(uint32_t ms); }
#endif

namespace
{
#define S01(code, ...) fail("S01", code, __VA_ARGS__)

u32 crc(const char* p, size_t n)
{
    u32 c = ~0u;
    while (n--)
    {
        c ^= (u8)*p++;
        for (int i = 0; i < 8; ++i) c = c >> 1 ^ (c & 1 ? 0xEDB88320u : 0);
    }
    return ~c;
}

struct Value { u32 a, b; bool operator==(const Value &o) const { return a == o.a && b == o.b; } };

// What a key in retained memory may read as.
struct Entry
{
    bool absent = true, any = false;     // it may be missing; it may hold anything (an overwrite was cut off)
    std::vector<Value> values;
    bool pending = false;
    Value next {};
};

struct Memory
{
    const char* name;
    u8* region = nullptr;
    size_t size = 0;
    bool made = false;                   // it was initialised, and that was not cut off
    std::map<std::string, Entry> entries;
    alignas(16) u8 object[64];
    embedded::PersistentStorage &storage() { return *(embedded::PersistentStorage*)object; }

    void open()
    {
        const bool init = !made;
        if (init) entries.clear();
        { Cut cut; new(object) embedded::PersistentStorage(embedded::BytesView(region, size), init); }
        made = true;
    }
    void cutOff()
    {
        for (auto &e: entries)
            if (e.second.pending)
            {
                e.second.pending = false;
                if (!e.second.absent) e.second.any = true;      // see known_findings.txt, torn-overwrite
                else e.second.values.push_back(e.second.next);
                probe("power lost during a store");
            }
    }
    bool set(const std::string &k, Value v, bool fits)
    {
        auto &e = entries[k];
        e.pending = true;
        e.next = v;
        bool ok;
        { Cut cut; ok = storage().set(k, v); }
        e.pending = false;
        if (ok) { e.absent = e.any = false; e.values.assign(1, v); }
        else if (fits) S01("setting-refused", "storing '%s' in %s failed although it fits", k.c_str(), name);
        return ok;
    }
    bool get(const std::string &k, Value &v)
    {
        std::optional<Value> r;
        { Cut cut; r = storage().get<Value>(k); }
        auto &e = entries[k];
        if (!r)
        {
            if (!e.absent) S01("setting-lost", "'%s' in %s was stored and is gone", k.c_str(), name);
            e = Entry();
            return false;
        }
        v = *r;
        if (!e.any && std::find(e.values.begin(), e.values.end(), v) == e.values.end())
            S01("setting-wrong", "'%s' in %s reads %08x %08x, which was not stored there", k.c_str(), name, v.a, v.b);
        e.absent = e.any = false;
        e.values.assign(1, v);
        return true;
    }
};

// What the firmware prints on one line, and what of it gets there.
struct Printer
{
    const char* name = "";
    hal::Uart* u = nullptr;
    embedded::SerialOut* out = nullptr;
    std::string text;
    bool active = false;
    size_t from = 0, calls0 = 0;

    bool dropped() const
    {
        for (size_t i = calls0; i < u->offered.size() && i < u->acceptedPerCall.size(); ++i)
            if (u->acceptedPerCall[i] != u->offered[i].size()) return true;
        return false;
    }
    std::string sent() const
    {
        std::string s;
        for (size_t i = from; i < u->line.size(); ++i) s += (char)u->line[i].b;
        return s;
    }
    void begin(const std::string &t)
    {
        if (u->line.size() != from) S01("stray-output", "between two messages, %zu characters appeared on the %s line", u->line.size() - from, name);
        text = t;
        active = true;
        calls0 = u->offered.size();
    }
    void end()
    {
        active = false;
        std::string s = sent();
        from = u->line.size();
        if (s == text + "\n") return;
        if (!dropped()) S01("message-wrong", "the message '%s' reached the %s line as '%s'", text.c_str(), name, s.c_str());
        cut(s);
    }
    void cut(std::string s)
    {
        if (s.size() && s.back() == '\n') s.pop_back();
        if (text.compare(0, s.size(), s) != 0) S01("message-wrong", "the message '%s', cut short, reached the %s line as '%s'", text.c_str(), name, s.c_str());
    }
    void powerLost()
    {
        // what was still in the transmitter is lost
        while (u->line.size() > from && u->line.back().left > now()) u->line.pop_back();
        u->txIdle = now();
        if (active) { cut(sent()); if (u->line.size() > from) probe("power lost during a message"); }
        else if (u->line.size() != from) S01("stray-output", "between two messages, %zu characters appeared on the %s line", u->line.size() - from, name);
        active = false;
        from = u->line.size();
    }
};

// What is drawn on one display, always the same few pictures.
struct Panel
{
    static constexpr u32 Pictures = 4;
    using Mono = SimpleFrameBuffer<32, 16, 1>;
    using Grey = SimpleFrameBuffer<8, 18, 2>;
    u8* memory = nullptr;
    bool grey = false;
    const std::vector<u8>* expected = nullptr;

    void draw(u32 picture)
    {
        Cut cut;
        FrameBufferBase* b;
        if (grey) b = new(memory) Grey;
        else b = new(memory) Mono;
        Canvas c(*b);
        auto some = [&](u32 k, u32 n) { return (int)(mix(picture * 2 + grey, k) % n); };
        const int wide = b->getWidth(), high = b->getHeight();
        static const Canvas::Rotation rotations[] = { Canvas::Rotation::Rotation0, Canvas::Rotation::Rotation90, Canvas::Rotation::Rotation180, Canvas::Rotation::Rotation270 };
        c.clear(0);
        c.setRotation(rotations[some(1, 4)]);
        c.setColor(1 + (u32)some(2, 3));
        c.drawLine({ some(3, wide), some(4, high) }, { some(5, wide), some(6, high) });
        static const char* const texts[] = { "7", "i.", "~", "c" };
        c.drawStringAt({ some(7, 12), 14 + some(8, 8) }, texts[picture], embedded::fonts::FreeSans15pt);
        c.setColor(1 + (u32)some(9, 3));
        if (picture & 1) c.drawCircle({ some(10, wide), some(11, high) }, 2 + some(12, 5), picture & 2);
        else c.drawFilledRectangle({ { some(13, wide), some(14, high) }, { 1 + some(15, 9), 1 + some(16, 9) } });
    }
    std::vector<u8> image() const
    {
        auto v = grey ? ((FrameBufferBase*)(Grey*)memory)->getImage() : ((FrameBufferBase*)(Mono*)memory)->getImage();
        return std::vector<u8>(v.begin(), v.end());
    }
    void prepare(bool g)
    {
        grey = g;
        memory = arena_alloc(grey ? sizeof(Grey) : sizeof(Mono), 0, 0x3C);
        static std::vector<u8> alone[2][Pictures];
        expected = alone[grey];
        if (expected[0].size()) return;
        Calm calm;
        for (u32 k = 0; k < Pictures; ++k)
        {
            draw(k);
            alone[grey][k] = image();
        }
        reset_statics();
    }
    u32 show(u32 picture, const char* who)
    {
        draw(picture);
        const auto i = image();
        if (i != expected[picture]) S01("picture-wrong", "picture %u drawn by %s differs from the same one drawn alone", picture, who);
        return crc((const char*)i.data(), i.size());
    }
};

constexpr u8 PinA = 5, PinB = 15, PinLed = 2, PinButton = 4, PinAnalog = 36, PinAnalog2 = 39;
constexpr u32 MaxKeys = 6;

struct World
{
    // ---- outside
    hal::Uart &u = hal::uart[1];
    bool quiet = false;                  // faults have stopped
    bool over = false;
    bool cut = true;                     // the power is or was off
    u32 boots = 0, served = 0;
    u16 sequence = 0;
    struct Request { char command; std::string args; std::set<std::string> answers; };
    std::map<u32, Request> requests;
    std::vector<std::string> keys;
    u64 deepSleepMs = 0;
    bool noisy = false;
    // ---- retained
    Memory settings { "the settings" }, journal { "the journal" };
    // ---- the device
    Printer reply, log;
    bool twoBuses = false, debugLog = false;
    bool busTaken = false, wireTaken = false;
    bool ledOn = false, ledKnown = false;
    u8* rx = nullptr;
    u32 rxSize = 0;
    u32 receiveMs = 100;
    u8* spiTx[2];
    u8* spiRx[2];
    u8* wireTx[2];
    u8* wireRx[2];
    u8* text[2];
    size_t textSize[2];
    std::unique_ptr<embedded::SpiBus> spi[2];
    std::unique_ptr<embedded::I2CBus> wire[2];
    embedded::GpioPinDefinition defA { PinA }, defB { PinB }, defLed { PinLed }, defButton { PinButton }, defAnalog { PinAnalog }, defAnalog2 { PinAnalog2 };
    embedded::GpioPinDefinition sck { 18 }, miso { 19 }, mosi { 23 };
    embedded::GpioDigitalPin csA { defA }, csB { defB }, led { defLed }, button { defButton };
    alignas(16) u8 uartSpace[2][sizeof(embedded::PacketUart::UartDevice)];
    alignas(16) u8 packetSpace[2][sizeof(embedded::PacketUart)];
    alignas(16) u8 outSpace[2][sizeof(embedded::SerialOut)];
    embedded::PacketUart* packet[2];
    Panel panel[2];
};
World* W;

int spiLine(u32 which) { return Arduino ? (int)which : 1 + (int)which; }
u32 busOf(u32 task) { return W->twoBuses ? task : 0; }

struct Taken
{
    bool &flag;
    bool need;
    explicit Taken(bool &f, bool n) : flag(f), need(n) { if (need) { wait_until(UINT64_MAX, [this] { return !flag; }); flag = true; } }
    ~Taken() { if (need) flag = false; }
};

// ---------------------------------------------------------------- firmware
// One exchange with the peripheral of this task.
bool exchange(u32 task, u32 n, u32 m, u64 tag, u32* answer)
{
    Taken t(W->busTaken, !W->twoBuses);
    auto &line = hal::spi[spiLine(busOf(task))];
    u8* tx = W->spiTx[task];
    u8* rx = W->spiRx[task];
    for (u32 i = 0; i < n; ++i) tx[i] = (u8)(mix(tag, i) >> 11);
    memset(rx, 0xC3, 64);
    std::vector<u8> expect(tx, tx + n);
    const size_t from = line.log.size();
    const u64 mask = 1ull << (task ? PinB : PinA);
    const u32 both = Arduino ? (u32)(tag & 1) : 0;
    size_t middle;
    bool sent, got;
    {
        Cut cut;
        embedded::SpiDevice device(*W->spi[busOf(task)]);
        embedded::ChipSelector select(task ? W->csB : W->csA);
        if (both) { sent = device.sendAndReceive(tx, rx, (u16)n); got = sent; middle = 0; m = n; }
        else
        {
            sent = device.sendSync(tx, (u16)n);
            { Stub s; middle = line.log.size(); }
            got = device.receiveSync(rx, (u16)m);
        }
    }
    if (both) middle = from;
    const char* who = task ? "the sensor task" : "the command task";
    const int me = current_task();
    for (size_t k = from; k < line.log.size(); ++k)
    {
        auto &b = line.log[k];
        if (b.task != me) { S01("exchange-disturbed", "a byte of another task is within an exchange of %s", who); break; }
        if (b.selected != mask) { S01("exchange-disturbed", "a byte of an exchange of %s was seen by the peripherals on pins %llx instead of %llx", who, (unsigned long long)b.selected, (unsigned long long)mask); break; }
        const size_t i = k - from;
        if ((both || k < middle) && (i >= n || b.tx != expect[i])) { S01("exchange-wrong", "byte %zu of an exchange of %s is %02x", i, who, b.tx); break; }
    }
    if (!both && sent && middle - from != n) S01("exchange-wrong", "%s sent %u bytes to its peripheral, %zu got there", who, n, middle - from);
    if (got)
    {
        if (line.log.size() - middle != m) S01("exchange-wrong", "%s received %u bytes from its peripheral, %zu were moved", who, m, line.log.size() - middle);
        for (u32 i = 0; i < m && middle + i < line.log.size(); ++i)
            if (line.log[middle + i].rx != rx[i]) { S01("exchange-wrong", "byte %u received by %s is %02x, the peripheral sent %02x", i, who, rx[i], line.log[middle + i].rx); break; }
    }
    if ((!sent || !got) && !hal::faults.fired) S01("failed-for-no-reason", "an SPI exchange of %s failed", who);
    if (hal::gpio.level[task ? PinB : PinA] == 0) S01("left-selected", "the peripheral of %s is still selected after the exchange", who);
    u32 a = 0;
    for (u32 i = 0; i < m && i < 4; ++i) a = a << 8 | rx[i];
    *answer = a;
    return sent && got;
}

bool measure(u32 task, u32 n, u64 tag, u32* answer)
{
    Taken t(W->wireTaken, !W->twoBuses);
    auto &bus = hal::i2c[busOf(task)];
    auto &p = bus.peripherals[W->twoBuses ? 0 : task];
    u8* tx = W->wireTx[task];
    u8* rx = W->wireRx[task];
    tx[0] = (u8)tag;
    tx[1] = (u8)(tag >> 8);
    memset(rx, 0xC3, 32);
    const size_t from = bus.log.size();
    const u64 supplied = p.supplied;
    const u64 fired = hal::faults.fired;
    bool ok;
    {
        Cut cut;
        embedded::I2CDevice device(*W->wire[busOf(task)], p.address);
        ok = device.sendThenReceive(tx, 2, rx, (u16)n);
    }
    const char* who = task ? "the sensor task" : "the command task";
    if (!ok && fired == hal::faults.fired) S01("failed-for-no-reason", "an I2C transfer of %s failed", who);
    if (!ok) return false;
    if (bus.log.size() != from + 2) S01("transfer-disturbed", "a transfer of %s made %zu transactions", who, bus.log.size() - from);
    for (size_t k = from; k < bus.log.size(); ++k)
        if (bus.log[k].address != p.address) S01("transfer-disturbed", "a transfer of %s with %02x went to %02x", who, p.address, bus.log[k].address);
    if (bus.log.size() == from + 2 && (bus.log[from].bytes.size() != 2 || bus.log[from].bytes[0] != (u8)tag || bus.log[from].bytes[1] != (u8)(tag >> 8)))
        S01("transfer-wrong", "the register asked for by %s did not reach the peripheral", who);
    for (u32 i = 0; i < n; ++i)
        if (rx[i] != p.byteAt(supplied + i)) { S01("transfer-wrong", "byte %u received by %s is %02x, the peripheral supplied %02x", i, who, rx[i], p.byteAt(supplied + i)); break; }
    u32 a = 0;
    for (u32 i = 0; i < n && i < 4; ++i) a = a << 8 | rx[i];
    *answer = a;
    return true;
}

int analog(u32 task)
{
    const u8 pin = task ? PinAnalog2 : PinAnalog;
    embedded::GpioPinDefinition &def = task ? W->defAnalog2 : W->defAnalog;
#ifdef SIM_ARDUINO
    int v;
    { Cut cut; v = embedded::AnalogPin(def).singleRead(); }
    if (v != hal::analogValue[pin]) S01("sample-wrong", "pin %u reads %d, it is at %u", pin, v, hal::analogValue[pin]);
#else
    const size_t from = hal::esp.adcDelivered.size();
    const u64 fired = hal::faults.fired;
    const int me = current_task();
    if (me < 8) hal::esp.adcConflict[me] = false;
    int v;
    { Cut cut; v = embedded::AnalogPin(def).singleRead(); }
    const int channel = task ? 3 : 0;
    bool found = false;
    for (size_t k = from; k < hal::esp.adcDelivered.size(); ++k)
    {
        auto &d = hal::esp.adcDelivered[k];
        if (d.task == me && d.unit == 0 && d.channel == channel && d.value == v) found = true;
    }
    if (v >= 0 && !found) S01("sample-wrong", "pin %u reads %d, which the converter did not deliver for it", pin, v);
    if (v < 0 && fired == hal::faults.fired && !(me < 8 && hal::esp.adcConflict[me])) S01("failed-for-no-reason", "reading pin %u failed", pin);
#endif
    return v;
}

void rest(u32 ms)
{
    const u64 t0 = now(), st0 = stalled_total();
    { Cut cut; embedded::delay(ms); }
    const u64 spent = now() - t0, stalled = stalled_total() - st0;
    if (spent + Gran < ms * 1000ull) S01("delay-early", "a delay of %u ms ended after %llu us", ms, (unsigned long long)spent);
    if (spent > ms * 1000ull + Gran + 1000 + stalled) S01("delay-late", "a delay of %u ms ended after %llu us, in %llu of which others ran", ms, (unsigned long long)spent, (unsigned long long)stalled);
}

u32 uptimeMs()
{
    const u64 before = hal::device_us();
    u32 ms;
    { Cut cut; ms = embedded::getMillisecondTicks(); }
    const u64 after = hal::device_us();
    if ((u32)(ms - (u32)(before / 1000 - 1)) > (u32)(after / 1000 - before / 1000 + 2) && before > 2000) S01("clock-wrong", "the millisecond counter is %u, the device has been up for %llu us", ms, (unsigned long long)after);
    return ms;
}

template<class F>
void print(Printer &p, const std::string &text, F &&stream)
{
    p.begin(text);
    { Cut cut; stream(*p.out); *p.out << embedded::SerialOut::endl {}; }
    p.end();
}

void answer(u32 sequence, char command, bool ok, u32 a, u32 b)
{
    char body[80];
    const char name[2] = { command, 0 };
    snprintf(body, sizeof body, "%u:%c%d:%u:%u", sequence, command, ok, a, b);
    const u32 sum = crc(body, strlen(body));
    const std::string text = "<" + std::string(body) + "#" + std::to_string(sum) + ">";
    W->requests[sequence].answers.insert(text);
    print(W->reply, text, [&](embedded::SerialOut &o) { o << "<" << sequence << ":" << name << (int)ok << ":" << a << ":" << b << "#" << sum << ">"; });
}

u32 number(const char* p, size_t n) { return (u32)strtoul(std::string(p, n).c_str(), nullptr, 16); }

void serve(u32 sequence, char command, u32 a, u32 b)
{
    auto it = W->requests.find(sequence);
    if (it == W->requests.end() || it->second.command != command) { S01("request-invented", "the device received the request %u %c, which was not sent", sequence, command); return; }
    u32 r = 0;
    bool ok = true;
    logf("request %u: %c %x %x", sequence, command, a, b);
    switch (command)
    {
    case 'S':
    {
        const std::string &k = W->keys[a % W->keys.size()];
        ok = W->settings.set(k, { b, ~b * 3 }, true);
        break;
    }
    case 'G':
    {
        Value v {};
        ok = W->settings.get(W->keys[a % W->keys.size()], v);
        r = v.a;
        break;
    }
    case 'X': ok = exchange(0, 1 + a % 24, 1 + b % 24, mix(sequence, a), &r); break;
    case 'I': ok = measure(0, 1 + a % 16, b, &r); break;
    case 'A': { int v = analog(0); ok = v >= 0; r = (u32)v; break; }
    case 'L':
        W->ledKnown = false;
        { Cut cut; W->led.set(a & 1); }
        W->ledOn = a & 1;
        W->ledKnown = true;
        if (hal::gpio.level[PinLed] != (a & 1)) S01("output-wrong", "the output was set to %u and is %u", a & 1, hal::gpio.level[PinLed]);
        break;
    case 'B':
    {
        bool v;
        { Cut cut; v = W->button.check(); }
        if (v != (bool)hal::gpio.outside[PinButton] && !hal::faults.fired) S01("input-wrong", "the input is %u and reads %u", hal::gpio.outside[PinButton], v);
        r = v;
        break;
    }
    case 'T': r = uptimeMs(); break;
    case 'D': rest(a % 60); break;
    case 'V': r = W->panel[0].show(a % Panel::Pictures, "the command task"); break;
#ifndef SIM_ARDUINO
    case 'Z':
    {
        const u32 ms = a % 80;
        const u64 t0 = now();
        light_sleep(ms);
        if (now() - t0 < ms * 1000ull) S01("slept-short", "a light sleep of %u ms ended after %llu us", ms, (unsigned long long)(now() - t0));
        break;
    }
    case 'P':
        answer(sequence, command, true, 0, 0);
        W->deepSleepMs = 1 + a % 700;
        deep_sleep_for((u32)W->deepSleepMs);
        S01("did-not-sleep", "deep sleep returned");
        return;
#endif
    }
    answer(sequence, command, ok, r, b);
    ++W->served;
    state(mix(command, mix(ok, mix(W->boots > 3 ? 3 : W->boots, W->quiet))));
}

void commandTask()
{
    for (;;)
    {
        memset(W->rx, 0xA7, W->rxSize);
        const u64 t0 = now(), st0 = stalled_total();
        u16 n;
        { Cut cut; n = W->packet[0]->ReceiveBetween(W->rx, (u16)W->rxSize, '<', '>', (u16)W->receiveMs); }
        const u64 spent = now() - t0, stalled = stalled_total() - st0;
        if (spent > W->receiveMs * 1000ull + LateTolerance + stalled) S01("receive-late", "waiting %u ms for a request took %llu us", W->receiveMs, (unsigned long long)spent);
        if (n > W->rxSize) S01("receive-wrong", "%u bytes received in a buffer of %u", n, W->rxSize);
        if (n && n < W->rxSize && W->rx[n - 1] != '>')
        {
            // the time ran out within a packet: the rest of it
            u16 m;
            { Cut cut; m = W->packet[0]->ReceiveUntil(W->rx + n, (u16)(W->rxSize - n), '>', (u16)W->receiveMs); }
            if (m > W->rxSize - n) S01("receive-wrong", "%u bytes received in a buffer of %u", m, W->rxSize - n);
            n = (u16)(n + m);
        }
        if (n) logf("received %u bytes", n);
        if (!n || W->rx[n - 1] != '>') continue;
        u32 start = n - 1;
        while (start && W->rx[start] != '<') --start;
        const char* p = (const char*)W->rx + start + 1;
        if (W->rx[start] != '<' || n - start != 31) continue;      // <ssssCaaaaaaaabbbbbbbbxxxxxxxx>
        if (crc(p, 21) != number(p + 21, 8)) continue;
        serve(number(p, 4), p[4], number(p + 5, 8), number(p + 13, 8));
    }
}

void sensorTask()
{
    for (u32 k = 1;; ++k)
    {
        u32 r;
        switch (choose(6) < 5 ? choose(4) : 4)
        {
        case 4: W->panel[1].show(choose(Panel::Pictures), "the sensor task"); break;
        case 0: exchange(1, 1 + choose(30), 1 + choose(30), mix(77, k), &r); break;
        case 1: measure(1, 1 + choose(16), k * 257, &r); break;
        case 2: analog(1); break;
        case 3: if (choose(2)) { Cut cut; embedded::delayMicroseconds(50); } break;
        }
        rest(choose(3) ? choose(20) : choose(60));
    }
}

void logTask()
{
    auto &j = W->journal;
    j.open();
    Value v {};
    const bool known = j.get("boot", v);
    const u32 n = known ? v.a + 1 : 0;
    j.set("boot", { n, n ^ 0x5555u }, true);
    for (u32 k = 0;; ++k)
    {
        const u32 ms = uptimeMs();
        std::string text = "boot " + std::to_string(n) + " t=" + std::to_string(ms) + " line " + std::to_string(k);
        print(W->log, text, [&](embedded::SerialOut &o) { o << "boot " << n << " t=" << ms << " line " << k; });
        if (choose(3) == 0) j.set("last", { k, ms }, true);
        if (choose(4) == 0) { Value x {}; j.get("boot", x); }
        if (W->ledKnown && hal::gpio.level[PinLed] != W->ledOn) S01("output-disturbed", "the output is %u although it was last set to %u", hal::gpio.level[PinLed], W->ledOn);
        rest(4 + choose(choose(4) ? 40 : 200));
    }
}

void mainTask()
{
    auto &w = *W;
    wait_until(now() + 1000 + choose(30000), nullptr);
    set_step_limit(400000000);
    for (int i = 0; i < 2; ++i)
    {
        const int port = i ? (w.debugLog ? 0 : 2) : 1;
#ifndef SIM_ARDUINO
        bool up;
        { Cut cut; up = embedded::SimpleUartDevice::init(port, i ? 16 : 3, i ? 17 : 1, 115200); }
        if (!up) S01("bring-up", "UART%d did not come up, and the device did not restart", port);
#endif
        Cut cut;
        auto d = new(w.uartSpace[i]) embedded::PacketUart::UartDevice(port);
        w.packet[i] = new(w.packetSpace[i]) embedded::PacketUart(*d);
    }
    {
        Cut cut;
        w.reply.out = new(w.outSpace[0]) embedded::SerialOut(embedded::MemoryView<char>((char*)w.text[0], w.textSize[0]), *w.packet[0]);
        w.log.out = w.debugLog ? &embedded::SerialDebug : new(w.outSpace[1]) embedded::SerialOut(embedded::MemoryView<char>((char*)w.text[1], w.textSize[1]), *w.packet[1]);
    }
    w.settings.open();
    if (choose(2)) for (auto &k: w.keys) { Value v; w.settings.get(k, v); }
    bool up = true;
    {
        Cut cut;
        up = w.csA.init() && w.csB.init() && w.led.init() && w.button.init(embedded::GpioDigitalPin::Direction::Input, embedded::GpioDigitalPin::PullMode::Up);
        w.csA.set();
        w.csB.set();
        w.led.set();
    }
    w.ledOn = w.ledKnown = true;
#ifdef SIM_ARDUINO
    static SPIClass second(1);
    w.spi[0] = std::make_unique<embedded::SpiBus>(SPI, 1000000);
    w.spi[1] = std::make_unique<embedded::SpiBus>(second, 2000000);
    w.wire[0] = std::make_unique<embedded::I2CBus>(Wire);
    w.wire[1] = std::make_unique<embedded::I2CBus>(Wire1);
#else
    for (u32 i = 0; i < (w.twoBuses ? 2 : 1); ++i)
    {
        // the object of the boot before is gone without its destructor having run
        w.spi[i].release();
        w.spi[i] = std::make_unique<embedded::SpiBus>(1 + (int)i);
        w.wire[i] = std::make_unique<embedded::I2CBus>((int)i);
        Cut cut;
        up = up && w.spi[i]->init(w.sck, w.miso, w.mosi, 4000000, embedded::SpiBus::DuplexMode::Half) && w.wire[i]->init(21, 22, 400000);
    }
#endif
    if (!up)
    {
        if (!hal::faults.fired) S01("bring-up", "bringing up the peripherals failed for no reason");
        logf("bring-up failed, the device restarts");
        crash_here();
    }
    spawn("sensor", sensorTask);
    spawn("log", logTask);
    commandTask();
}

// ---------------------------------------------------------------- outside
void powerOn()
{
    auto &w = *W;
    ++w.boots;
    // the device starts anew: what it had under way ends here
    w.settings.cutOff();
    w.journal.cutOff();
    w.reply.powerLost();
    w.log.powerLost();
    u64 asleep = 0;
    [[maybe_unused]] Boot kind = w.cut ? Boot::Power : Boot::Soft;
    w.cut = false;
#ifdef SIM_ARDUINO
    for (auto &b: hal::arduinoSpi) { b.locked = false; b.owner = -1; }
    for (auto &b: hal::arduinoWire) { const auto size = b.bufferSize; b = hal::ArduinoWire(); b.bufferSize = size; }
    Serial.setTimeout(1000);
    Serial1.setTimeout(1000);
    Serial2.setTimeout(1000);
#else
    if (!hal::esp.misuse.empty()) S01("driver-misuse", "%s", hal::esp.misuse.c_str());
    if (w.deepSleepMs)
    {
        if (!hal::esp.deepSleeping) probe("power lost before the deep sleep");
        else
        {
            asleep = w.deepSleepMs * 1000;
            if (kind == Boot::Soft) kind = Boot::Wake;
            if (hal::esp.deepSleepUs != asleep) S01("wrong-deep-sleep", "a deep sleep of %llu ms lasts %llu us", (unsigned long long)w.deepSleepMs, (unsigned long long)hal::esp.deepSleepUs);
        }
    }
    const u32 early = hal::esp.earlyWake, rejects = hal::esp.rejects;
    hal::esp_boot(kind);
    hal::esp.earlyWake = early;
    hal::esp.rejects = rejects;
#endif
    w.deepSleepMs = 0;
    for (auto &u: hal::uart) { u.consumed = u.delivered.size(); }
    for (auto &m: hal::gpio.mode) m = {};
    for (auto &l: hal::gpio.level) l = 1;      // pulled up
    w.ledKnown = false;
    w.busTaken = w.wireTaken = false;
    hal::bootOffset = 0 - now() - asleep;
    hal::clear_poll();
    if (w.over) return;
    logf("power on, boot %u", w.boots);
    if (!w.quiet && chance(1, 3)) set_crash_after(1 + choose(choose(2) ? 40 : 160));
    spawn("main", [asleep] {
        if (asleep) { wait_until(now() + asleep, nullptr); hal::bootOffset = 0 - now(); }
        mainTask();
    });
}

std::string frame(u32 sequence, char command, u32 a, u32 b)
{
    char t[60];
    snprintf(t, sizeof t, "%04x%c%08x%08x", sequence, command, a, b);
    const u32 sum = crc(t, strlen(t));
    char f[80];
    snprintf(f, sizeof f, "<%s%08x>", t, sum);
    return f;
}

void transmit(const std::string &text)
{
    auto &w = *W;
    u64 t = w.u.coming.empty() ? now() : std::max(now(), w.u.coming.back().t);
    const u64 gap = pick({ 87u, 0u, 500u });
    auto put = [&](u8 b) { t += gap; w.u.coming.push_back({ t, b }); };
    const bool bad = !w.quiet && w.noisy;
    if (bad && choose(3) == 0)
    {
        fault("noise on the line");
        for (u32 n = 1 + choose(8); n; --n) put(choose(4) ? (u8)choose(256) : choose(2) ? '<' : '>');
    }
    const u32 damage = bad && choose(5) == 0 ? choose((u32)text.size()) : ~0u, how = choose(3);
    for (u32 i = 0; i < text.size(); ++i)
    {
        if (i == damage)
        {
            fault(how == 0 ? "byte lost on the line" : how == 1 ? "byte damaged on the line" : "byte repeated on the line");
            if (how == 0) continue;
            if (how == 1) { put((u8)(text[i] ^ (1 << choose(8)))); continue; }
            put((u8)text[i]);
        }
        put((u8)text[i]);
    }
    w.u.poll();
}

// The peer looks for an answer with this number in what arrived since `from`.
bool answered(u32 sequence, size_t from, std::string* found)
{
    auto &w = *W;
    std::string s;
    for (size_t i = from; i < w.u.line.size() && w.u.line[i].left <= now(); ++i) s += (char)w.u.line[i].b;
    for (size_t e = s.find('>'); e != std::string::npos; e = s.find('>', e + 1))
    {
        size_t b = s.rfind('<', e), h = s.find('#', b == std::string::npos ? 0 : b);
        if (b == std::string::npos || h == std::string::npos || h > e) continue;
        if (strtoul(s.c_str() + h + 1, nullptr, 10) != crc(s.c_str() + b + 1, h - b - 1)) continue;
        if (strtoul(s.c_str() + b + 1, nullptr, 10) != sequence) continue;
        *found = s.substr(b, e - b + 1);
        return true;
    }
    return false;
}

bool ask(char command, u32 a, u32 b, u32 attempts)
{
    auto &w = *W;
    const u32 sequence = ++w.sequence;
    w.requests[sequence].command = command;
    const std::string f = frame(sequence, command, a, b);
    size_t from = w.u.line.size();
    for (u32 k = 0; k < attempts; ++k)
    {
        logf("peer sends %s", f.c_str());
        transmit(f);
        if (!w.quiet && w.noisy && choose(8) == 0) { fault("request repeated"); transmit(f); }
        std::string found;
        // a reset may take back what had not left the device yet
        from = std::min(from, w.u.line.size());
        const bool ok = wait_until(now() + (w.quiet ? 2500000 : 300000 + choose(500000)), [&] { from = std::min(from, w.u.line.size()); return answered(sequence, from, &found); });
        if (!ok) { logf("peer hears nothing"); continue; }
        logf("peer hears %s", found.c_str());
        if (!w.requests[sequence].answers.count(found)) S01("answer-invented", "the peer heard the answer %s, which the device did not give", found.c_str());
        return true;
    }
    return false;
}

void peerTask()
{
    auto &w = *W;
    wait_until(now() + choose(60000), nullptr);
    const u32 n = history(2, 14);
    static const char commands[] = "SSSGGXXIIALBTDVVZP";
    const u32 kinds = Arduino ? 16 : 18;
    for (u32 k = 0; k < n; ++k)
    {
        const char c = commands[choose(kinds)];
        ask(c, choose(1000), choose(100000), 1 + choose(3));
        if (choose(6) == 0) hal::gpio.outside[PinButton] ^= 1;
        if (choose(3) == 0) wait_until(now() + choose(30000), nullptr);
    }
    // faults stop; the device must be back in service before long
    w.quiet = true;
    hal::faults.num = 0;
    disable_stalls();
    set_crash_after(0);
#ifndef SIM_ARDUINO
    hal::esp.earlyWake = hal::esp.rejects = 0;
#endif
    w.u.coming.clear();
    logf("faults stop");
    wait_until(now() + 1000000, nullptr);
    if (!ask('T', 0, 0, 3)) S01("no-service", "the device does not answer, %llu us after the last fault", (unsigned long long)(now()));
    const u32 fired = (u32)hal::faults.fired;
    hal::faults.fired = 0;               // from here on nothing may fail
    for (u32 k = 0; k < w.keys.size(); ++k)
        if (!ask('G', k, 0, 2)) S01("no-service", "the device does not answer when asked for a setting");
    for (char c: std::string(Arduino ? "XIALBDV" : "XIALBDVZ"))
        if (!ask(c, choose(1000), choose(1000), 2)) S01("no-service", "the device does not answer the request %c", c);
    hal::faults.fired = fired;
    w.over = true;
    device_off();
}

void powerTask()
{
    auto &w = *W;
    const u32 losses = choose(4) ? choose(4) : 0;
    const u32 span = pick({ 300000u, 60000u, 2000000u });
    for (u32 k = 0; k < losses && !w.quiet; ++k)
    {
        wait_until(now() + 1 + choose(span), [&] { return w.quiet; });
        if (w.quiet) return;
        fault("power lost");
        W->cut = true;
        device_reset();
    }
}
} // namespace

SIM_SCENARIO(device, "S01")
{
    hal::reset_all();
    drawClock();
    drawStalls(20000);
    arena_release_all();
    World world;
    W = &world;
    auto &w = world;
    static const char* const names[] = { "a", "cfg", "wifi", "k2", "rate", "" };
    const u32 keys = range(2, MaxKeys);
    for (u32 i = 0; i < keys; ++i) w.keys.push_back(names[i]);
    w.settings.size = keys * 14 + (choose(2) ? 0 : choose(40));
    w.settings.region = arena_alloc(w.settings.size, choose(4), (u8)choose(256));
    w.journal.size = 28 + choose(10);
    w.journal.region = arena_alloc(w.journal.size, choose(4), (u8)choose(256));
    arena_watch(w.settings.region);
    arena_watch(w.journal.region);
    w.rxSize = pick({ 48u, 31u, 80u });
    w.rx = arena_alloc(w.rxSize, choose(4), 0xA7);
    for (u32 i = 0; i < 2; ++i)
    {
        w.spiTx[i] = arena_alloc(32, choose(4), 0);
        w.spiRx[i] = arena_alloc(64, choose(4), 0);
        w.wireTx[i] = arena_alloc(2, 0, 0);
        w.wireRx[i] = arena_alloc(32, choose(4), 0);
        w.textSize[i] = 64 + choose(3);
        w.text[i] = arena_alloc(w.textSize[i], 0, 0xEE);
    }
    for (auto &p: w.panel) p.prepare(choose(2));
    w.receiveMs = pick({ 100u, 20u, 400u });
    w.twoBuses = choose(2);
    w.debugLog = choose(2);
    w.noisy = choose(2);
    w.reply.name = "command";
    w.reply.u = &w.u;
    w.log.name = "log";
    w.log.u = &hal::uart[w.debugLog ? 0 : 2];
    for (auto &u: hal::uart) u.byteTime = 87;
    hal::gpio.outside[PinButton] = (u8)choose(2);
    if (w.twoBuses)
    {
        hal::spi[spiLine(0)].csPins = { PinA };
        hal::spi[spiLine(1)].csPins = { PinB };
    }
    else hal::spi[spiLine(0)].csPins = { PinA, PinB };
    for (u32 b = 0; b < 2; ++b)
        for (u32 k = 0; k < 2; ++k)
        {
            hal::I2cPeripheral p;
            p.address = (u16)(0x20 + b * 16 + k);
            hal::i2c[b].peripherals.push_back(p);
        }
#ifdef SIM_ARDUINO
    for (u32 i = 0; i < 64; ++i) hal::analogValue[i] = (u16)(mix(i, 3) % 4096);
#else
    hal::esp.earlyWake = choose(3);
    hal::esp.rejects = choose(3);
#endif
    if (chance(2, 3))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 60u, 20u, 200u });
    }
    set_step_limit(400000000);
    set_preemption(pick({ 12u, 4u, 60u }));
    if (choose(2)) set_instruction_preemption(pick({ 2000u, 400u, 10000u }));
    spawn("peer", peerTask);
    spawn("power", powerTask);
    run_device(powerOn);
    if (!w.over) S01("harness", "the run ended early");
    logf("%u boots, %u requests served", w.boots, w.served);
    W = nullptr;
}
