// Log messages streamed through a fixed buffer to a UART that may fail.
#include "scen/common.h"
#include "BufferedOut.h"
#include "Debug.h"
#include "PacketUart.h"
#include "PacketUartImpl.h"
#include "SerialOut.h"
#include <cmath>
#include <new>
#include <string>

using namespace scen;

namespace
{
struct Item
{
    enum Type { Str, Int, UInt, Long, ULong, LLong, ULLong, Byte, Float, Bytes, Precision, Width, Fill, Char, View } type;
    std::string s;                       // for Str, Bytes, View
    long long i = 0;
    unsigned long long u = 0;
    float f = 0;
    std::string text;                    // what it prints
    std::string alt;                     // what it prints if an integer before it was left out and its width still stands
};

struct Format { int precision = 0, width = 0, used = 0; char fill = ' '; };

std::string padded(std::string s, Format &f)
{
    if (f.width > 0)
    {
        if ((int)s.size() < f.width) s.insert(0, (size_t)f.width - s.size(), f.fill);
        f.width = 0;
    }
    return s;
}
std::string hexText(const std::string &b)
{
    std::string s;
    for (unsigned char c: b) { s += "0123456789ABCDEF"[c >> 4]; s += "0123456789ABCDEF"[c & 15]; }
    return s;
}
// Multiples of 1/16 are exact in binary and in up to four decimals.
std::string floatText(float f, int precision)
{
    std::string s;
    double d = f;
    if (d < 0) { s = "-"; d = -d; }
    s += std::to_string((long long)d);
    if (precision > 0)
    {
        s += '.';
        double frac = d - std::floor(d);
        for (int i = 0; i < precision; ++i)
        {
            frac *= 10;
            int n = (int)frac;
            s += char('0' + n);
            frac -= n;
        }
    }
    return s;
}

Item drawItem(Format &f, bool direct, u32 capacity)
{
    Item it;
    auto word = [&](u32 n) { std::string s; for (u32 k = 0; k < n; ++k) s += choose(16) ? (char)('a' + choose(26)) : choose(4) ? pick({ ' ', '\n', '\r', '%', '\\', '0' }) : (char)(1 + choose(255)); return s; };
    it.type = (Item::Type)choose(direct ? 15 : 11);
    switch (it.type)
    {
    case Item::Str: case Item::View:
        it.s = word(choose(3) ? choose(12) : choose(std::min(capacity + 4, 300u)));
        it.text = it.s;
        break;
    case Item::Bytes:
    {
        u32 n = choose(4) ? choose(8) : choose(std::min(capacity + 4, 200u));
        for (u32 k = 0; k < n; ++k) it.s += (char)choose(256);
        it.text = hexText(it.s);
        break;
    }
    case Item::Byte:
        it.u = choose(256);
        it.text = hexText(std::string(1, (char)it.u));
        break;
    case Item::Float:
    {
        int k = (int)choose(4000);
        if (choose(4) == 0) k = (int)choose(1600000);
        it.f = (float)(choose(2) ? -k : k) / 16;
        it.text = floatText(it.f, f.precision);
        // whether a zero that stands for a small negative value has a sign is not specified
        if (it.f < 0 && it.text.find_first_of("123456789") == std::string::npos)
        {
            it.f = -it.f;
            it.text = floatText(it.f, f.precision);
        }
        break;
    }
    case Item::Precision:
        it.i = choose(6);
        f.precision = (int)it.i;
        break;
    case Item::Width:
        it.i = choose(4) ? choose(14) : choose(std::min(capacity + 6, 300u));
        f.width = (int)it.i;
        break;
    case Item::Fill:
        it.s = std::string(1, choose(2) ? '0' : '*');
        f.fill = it.s[0];
        break;
    case Item::Char:
        it.s = word(1);
        it.text = it.s;
        break;
    default:
    {
        u64 v = choose(4) == 0 ? mix(choose(1000), 77) : choose(100000) >> choose(16);
        if (choose(10) == 0) v = choose(2) ? 0x8000000000000000ull : 0x80000000ull;
        bool neg = choose(2);
        it.u = v;
        long long sv = neg ? (long long)(0 - v) : (long long)v;
        switch (it.type)
        {
        case Item::Int: it.i = (int)sv; it.text = std::to_string((int)it.i); break;
        case Item::UInt: it.u = (unsigned)v; it.text = std::to_string((unsigned)it.u); break;
        case Item::Long: it.i = (long)sv; it.text = std::to_string((long)it.i); break;
        case Item::ULong: it.u = (unsigned long)v; it.text = std::to_string((unsigned long)it.u); break;
        case Item::LLong: it.i = sv; it.text = std::to_string(sv); break;
        default: it.text = std::to_string(it.u); break;
        }
        if (f.width > 0) f.used = f.width;
        Format kept = f;
        kept.width = f.used;
        it.alt = padded(it.text, kept);
        it.text = padded(it.text, f);
    }
    }
    return it;
}

template<class Out>
void stream(Out &o, const Item &it)
{
    // strings are placed exactly, so that reading past their end shows
    u8* p = nullptr;
    if (it.type == Item::Str)
    {
        p = arena_alloc(it.s.size() + 1, 0, 0);
        memcpy(p, it.s.data(), it.s.size());
    }
    if (it.type == Item::Bytes || it.type == Item::View)
    {
        p = arena_alloc(it.s.size(), 0, 0);
        memcpy(p, it.s.data(), it.s.size());
    }
    if (p) arena_set_readonly(p);
    Cut cut;
    switch (it.type)
    {
    case Item::Str: o << (const char*)p; break;
    case Item::Int: o << (int)it.i; break;
    case Item::UInt: o << (unsigned)it.u; break;
    case Item::Long: o << (long)it.i; break;
    case Item::ULong: o << (unsigned long)it.u; break;
    case Item::LLong: o << (long long)it.i; break;
    case Item::ULLong: o << (unsigned long long)it.u; break;
    case Item::Byte: o << (unsigned char)it.u; break;
    case Item::Float: o << it.f; break;
    case Item::Bytes: o << embedded::ConstBytesView(p, it.s.size()); break;
    case Item::Precision: o << embedded::BufferedOut::precision { (int)it.i }; break;
    default:
        if constexpr (std::is_same_v<Out, embedded::BufferedOut>)
        {
            if (it.type == Item::Width) o << embedded::BufferedOut::width { (int)it.i };
            if (it.type == Item::Fill) o << embedded::BufferedOut::fill { it.s[0] };
            if (it.type == Item::Char) o << it.s[0];
            if (it.type == Item::View) o << std::string_view((const char*)p, it.s.size());
        }
    }
}

std::string printable(const std::string &s)
{
    std::string r = "'";
    for (unsigned char c: s.substr(0, 80)) { if (c >= 32 && c < 127) r += (char)c; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; } }
    return r + (s.size() > 80 ? "...'" : "'");
}

// Is `out` the items' text in order, each whole or cut at its end, those before the
// first that does not fit any more being whole? Or, if the device dropped the rest, the start of such a text?
bool admissible(const std::vector<Item> &items, size_t capacity, const std::string &out, bool dropped = false)
{
    if (out.size() > capacity) return false;
    size_t pos = 0, i = 0;
    if (dropped)
    {
        std::string whole;
        size_t n = 0;
        while (n < items.size() && whole.size() + items[n].text.size() <= capacity) whole += items[n++].text;
        if (out.size() <= whole.size()) return whole.compare(0, out.size(), out) == 0;
    }
    while (i < items.size() && pos + items[i].text.size() <= capacity)
    {
        if (out.compare(pos, items[i].text.size(), items[i].text) != 0) return false;
        pos += items[i].text.size();
        ++i;
    }
    if (i == items.size()) return pos == out.size();
    std::vector<char> at(out.size() - pos + 1);
    at[0] = 1;
    for (; i < items.size(); ++i)
    {
        auto next = at;
        for (auto &t: { items[i].text, items[i].alt })
        for (size_t a = 0; a < at.size(); ++a)
            if (at[a])
                for (size_t k = 1; k <= t.size() && a + k < at.size(); ++k)
                {
                    if (out[pos + a + k - 1] != t[k - 1]) break;
                    next[a + k] = 1;
                }
        at = next;
    }
    return at[out.size() - pos];
}

std::string lineText(hal::Uart &u, size_t from)
{
    std::string s;
    for (size_t i = from; i < u.line.size(); ++i) s += (char)u.line[i].b;
    return s;
}

// One message through a serial output. Both properties.
template<class Out>
void message(Out &out, hal::Uart &u, size_t capacity, u32 number, bool faulty)
{
    std::vector<Item> items;
    Format f;
    size_t total = 0;
    u32 n = range(0, 9);
    bool ended = false;
    // one item that fills the buffer exactly, now and then
    u32 exact = choose(6) == 0 ? choose(n + 1) : ~0u;
    size_t from = u.line.size();
    u64 fired = hal::faults.fired;
    for (u32 k = 0; k < n && !ended; ++k)
    {
        const Format before = f;
        Item it = drawItem(f, false, (u32)capacity);
        if (capacity > 60000 && k == 0 && choose(4))
        {
            // past what one packet can carry, leaving a little room
            f = before;
            it = Item();
            it.type = Item::Str;
            it.s = it.text = std::string(capacity - choose(choose(2) ? 12 : 600), (char)('A' + number % 26));
            for (size_t c = 0; c < it.s.size(); c += 251) it.s[c] = it.text[c] = (char)('a' + c % 26);
        }
        else if (k == exact && total < capacity && capacity - total < 400)
        {
            f = before;
            it = Item();
            it.type = Item::Str;
            it.s = it.text = std::string(capacity - total, (char)('A' + number % 26));
        }
        stream(out, it);
        total += it.text.size();
        items.push_back(it);
    }
    bool line = choose(3) != 0;
    {
        Cut cut;
        if (line) out << embedded::SerialOut::endl {};
        else out << embedded::SerialOut::end {};
    }
    const u64 ended_at = now();
    std::string sent = lineText(u, from), text;
    for (auto &i: items) text += i.text;
    bool fits = total <= capacity, failed = hal::faults.fired != fired;
    logf("message %u: %zu characters of text, %s, %s -> line %s", number, total, line ? "newline" : "end", failed ? "device failed" : "device worked", printable(sent).c_str());
    if (fits && total == capacity) probe("message fills the buffer exactly");
    if (!fits) probe("message overflows the buffer");
    (void)ended_at;
    std::string body = sent;
    if (!failed)
    {
        if (capacity > 0 && line)
        {
            if (body.empty() || body.back() != '\n') fail("L01", "newline-missing", "message %u was ended with a line end but reached the line as %s", number, printable(sent).c_str());
            else body.pop_back();
        }
        if (std::count(body.begin(), body.end(), '\n') > std::count(text.begin(), text.end(), '\n')) fail("L01", "newline-repeated", "message %u reached the line with more newlines than it has: %s", number, printable(sent).c_str());
        if (fits && body != text) fail("L01", "wrong-text", "message %u is %s but reached the line as %s", number, printable(text).c_str(), printable(sent).c_str());
        if (!admissible(items, capacity, body)) fail("L02", "wrong-text", "message %u, whose items are %s, reached the line as %s (buffer of %zu)", number, printable(text).c_str(), printable(sent).c_str(), capacity);
    }
    else
    {
        probe("device failed during a message");
        // A truncated message is a prefix of it, perhaps followed by the newline sent separately.
        std::string whole = fits ? text : std::string();
        std::string b2 = body;
        if (line && !b2.empty() && b2.back() == '\n') b2.pop_back();
        if (fits && text.compare(0, b2.size(), b2) != 0) fail("L01", "truncated-text-wrong", "message %u is %s; the device dropped some of it, and %s reached the line", number, printable(text).c_str(), printable(sent).c_str());
        if (fits && b2.size() > text.size()) fail("L01", "truncated-text-wrong", "message %u is %s; the device dropped some of it, and %s reached the line", number, printable(text).c_str(), printable(sent).c_str());
        if (!fits)
        {
            // every character must come from the items
            if (b2.size() > capacity) fail("L02", "wrong-text", "message %u put %zu characters on the line, the buffer has %zu", number, b2.size(), capacity);
            if (!admissible(items, capacity, b2, true))
                fail("L02", "wrong-text", "message %u, whose items are %s, reached the line as %s (buffer of %zu, the device dropped some of it)", number, printable(text).c_str(), printable(sent).c_str(), capacity);
        }
    }
    state(mix(fits, mix(failed, mix(line, total == capacity))));
}
} // namespace

SIM_SCENARIO(serial, "L01 L02")
{
    hal::reset_all();
    drawClock();
    drawStalls(5000);
    const bool debug = choose(4) == 0;
    const int port = debug ? 0 : 1;
    hal::Uart &u = hal::uart[port];
#ifndef SIM_ARDUINO
    hal::esp.uart[port].installed = true;
#endif
    u.byteTime = 10;
    bool faulty = chance(2, 3);
    if (faulty)
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 4u, 2u, 10u });
    }
    size_t capacity = choose(3) == 0 ? choose(200) : choose(40);
    if (choose(400) == 0) capacity = (choose(4) ? 65530 : 131066) + choose(12);
    embedded::PacketUart::UartDevice device(port);
    embedded::PacketUart packet(device);
    u32 messages = capacity > 60000 ? range(1, 3) : history(1, thorough() ? 20 : 8, 60);
    auto setup = [&] {
        arena_release_all();
        return arena_alloc(capacity, choose(4), 0xEE);
    };
    u8* buf = setup();
    alignas(16) u8 space[sizeof(embedded::SerialOut) + 16];
    u8* place = space;
    set_step_limit(20000000);
    embedded::SerialOut* out = nullptr;
    if (!debug)
    {
        Cut cut;
        out = new(place) embedded::SerialOut(embedded::MemoryView<char>((char*)buf, capacity), packet);
    }
    routine("a message", [&] {
        auto &o = debug ? embedded::SerialDebug : *out;
        Cut cut;
        o << "x" << embedded::SerialOut::endl {};
    });
    for (u32 m = 0; m < messages; ++m)
    {
        Span sp;
        // strings of the message before are not needed any more
        arena_keep_first(1);
        set_step_limit(20000000);
        if (debug) message(embedded::SerialDebug, u, 128, m, faulty);
        else message(*out, u, capacity, m, faulty);
    }
}

// The buffer by itself, with everything it can print, sent as one packet.
SIM_SCENARIO(buffered, "L01 L02")
{
    hal::reset_all();
    hal::Uart &u = hal::uart[1];
#ifndef SIM_ARDUINO
    hal::esp.uart[1].installed = true;
#endif
    u.byteTime = 10;
    size_t capacity = choose(3) == 0 ? choose(200) : choose(40);
    arena_release_all();
    u8* buf = arena_alloc(capacity, choose(4), 0xEE);
    embedded::PacketUart::UartDevice device(1);
    embedded::PacketUart packet(device);
    set_step_limit(20000000);
    alignas(16) u8 space[sizeof(embedded::BufferedOut) + 16];
    embedded::BufferedOut* out;
    { Cut cut; out = new(space) embedded::BufferedOut(embedded::MemoryView<char>((char*)buf, capacity)); }
    u32 messages = history(1, 8, 60);
    for (u32 m = 0; m < messages; ++m)
    {
        Span sp;
        arena_keep_first(1);
        std::vector<Item> items;
        Format f;
        std::string text;
        u32 n = range(0, 10);
        for (u32 k = 0; k < n; ++k)
        {
            Item it = drawItem(f, true, (u32)capacity);
            stream(*out, it);
            items.push_back(it);
            text += it.text;
            size_t size;
            { Cut cut; size = out->size(); }
            if (size > capacity) { fail("L02", "size-exceeds-capacity", "the recorded size is %zu in a buffer of %zu", size, capacity); discard("size exceeds capacity (L02)"); }
        }
        size_t from = u.line.size();
        {
            Cut cut;
            auto d = out->data();
            packet.Send(d.begin(), (uint16_t)d.size());
            out->clear();
        }
        std::string sent = lineText(u, from);
        logf("message %u: %zu characters of text -> %s", m, text.size(), printable(sent).c_str());
        bool fits = text.size() <= capacity;
        if (fits && sent != text) fail("L01", "wrong-text", "message %u is %s but was sent as %s", m, printable(text).c_str(), printable(sent).c_str());
        if (!admissible(items, capacity, sent)) fail("L02", "wrong-text", "message %u, whose items are %s, was sent as %s (buffer of %zu)", m, printable(text).c_str(), printable(sent).c_str(), capacity);
        if (!fits) fault("buffer full");
        state(mix(fits, mix(n, capacity - std::min(capacity, text.size()))));
    }
}

// Two serial outputs, each used by a task of its own.
SIM_SCENARIO(serial_tasks, "L01 L02")
{
    hal::reset_all();
    drawClock();
    arena_release_all();
    const bool debug = choose(3) == 0;   // the debug output is one of them
    size_t capacity[2];
    u8* memory[2];
    std::vector<embedded::PacketUart::UartDevice> devices;
    std::vector<embedded::PacketUart> packets;
    devices.reserve(2);
    packets.reserve(2);
    for (int i = 0; i < 2; ++i)
    {
        const int port = debug ? i : i + 1;
        hal::uart[port].byteTime = 10;
#ifndef SIM_ARDUINO
        hal::esp.uart[port].installed = true;
#endif
        capacity[i] = debug && i == 0 ? 128 : choose(3) == 0 ? choose(200) : choose(40);
        devices.emplace_back(port);
        packets.emplace_back(devices[i]);
        memory[i] = arena_alloc(capacity[i], 0, 0xEE);
    }
    alignas(16) static u8 space[2][sizeof(embedded::SerialOut) + 16];
    set_preemption(pick({ 2u, 1u, 6u }));
    set_step_limit(20000000);
    if (choose(4)) set_instruction_preemption(pick({ 40u, 10u, 200u }));
    embedded::SerialOut* outs[2];
    for (int i = 0; i < 2; ++i)
    {
        Cut cut;
        outs[i] = new(space[i]) embedded::SerialOut(embedded::MemoryView<char>((char*)memory[i], capacity[i]), packets[i]);
    }
    for (int i = 0; i < 2; ++i)
        spawn(i ? "log1" : "log0", [&, i] {
            const u32 messages = range(1, 3);
            for (u32 m = 0; m < messages; ++m)
            {
                if (debug && i == 0) message(embedded::SerialDebug, hal::uart[0], 128, m, false);
                else message(*outs[i], hal::uart[debug ? i : i + 1], capacity[i], m * 2 + i, false);
            }
        });
    run_tasks();
}
