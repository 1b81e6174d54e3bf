// A packet UART whose peer, driver and scheduling misbehave.
#include "scen/common.h"
#include "PacketUart.h"
#include "PacketUartImpl.h"
#include <algorithm>
#include <cstring>

using namespace scen;
using embedded::PacketUart;

namespace
{
constexpr int Port = 1;

u8 drawByte(u8 start, u8 end)
{
    static const u8 odd[] = { 0x00, 0xFF, 0x80, 0x7F, 0x0D, 0x0A };
    switch (choose(6))
    {
    case 0: return 'a' + (u8)choose(26);
    case 1: return odd[choose(6)];
    case 2: return start;
    case 3: return end;
    default: return (u8)choose(256);
    }
}

struct Peer
{
    hal::Uart &u;
    u8 start, end;
    u64 last() const { return u.coming.empty() ? now() : std::max(now(), u.coming.back().t); }
    void add(u64 t, u8 b) { u.coming.push_back({ std::max(t, u.coming.empty() ? 0 : u.coming.back().t), b }); }
    void random(u64 from, u64 gap, u32 n, bool avoidEnd)
    {
        for (u32 i = 0; i < n; ++i)
        {
            u8 b = drawByte(start, end);
            if (avoidEnd && (b == end || b == start)) b = b == 0x55 || end == 0x55 || start == 0x55 ? 0x56 ^ (end == 0x56 || start == 0x56 ? 0x21 : 0) : 0x55;
            add(from + gap * i, b);
        }
    }
    // What the line does while a call with this time-out runs.
    void draw(u64 timeoutUs, u32 bufferSize)
    {
        Span sp;
        if (chance(1, 3) && !u.coming.empty())
        {
            logf("peer drops what it was going to send");
            u.coming.clear();
        }
        u64 t = last();
        switch (choose(8))
        {
        case 0: fault("silent line"); break;
        case 1:                          // a packet, perhaps with junk before and after
        {
            u64 gap = pick({ 87u, 0u, 1000u });
            u64 at = t + (choose(2) ? choose((u32)std::min<u64>(timeoutUs + 1, 100000)) : 0);
            u32 junk = choose(2) ? choose(6) : 0, len = choose(std::min(bufferSize + 4, 40u)), tail = choose(2) ? choose(5) : 0;
            logf("line: %u junk bytes, packet of %u, tail of %u from t=%llu every %llu us", junk, len + 2, tail, (unsigned long long)at, (unsigned long long)gap);
            random(at, gap, junk, choose(2) == 0);
            at += gap * junk;
            add(at, start);
            random(at + gap, gap, len, choose(4) != 0);
            add(at + gap * (len + 1), end);
            random(at + gap * (len + 2), gap, tail, choose(2) == 0);
            break;
        }
        case 2:                          // all of it is there already
        {
            u32 n = 1 + choose(std::min(bufferSize * 2 + 4, 80u));
            logf("line: %u bytes at once", n);
            random(t, 0, n, choose(2) == 0);
            break;
        }
        case 3:                          // a trickle that outlasts the call
        {
            u64 gap = std::max<u64>(timeoutUs / (2 + choose(12)), 300);
            u64 n = std::min<u64>((timeoutUs + LateTolerance) / gap + 4, 60);
            fault("trickle on the line");
            logf("line: a byte every %llu us, %llu of them", (unsigned long long)gap, (unsigned long long)n);
            random(t + gap, gap, (u32)n, choose(4) != 0);
            break;
        }
        case 4:                          // endless noise
        {
            u64 gap = pick({ 500u, 87u, 2000u });
            u64 n = std::min<u64>((timeoutUs + 2 * LateTolerance) / gap + 8, 1500);
            fault("noise on the line");
            logf("line: noise every %llu us, %llu bytes", (unsigned long long)gap, (unsigned long long)n);
            random(t, gap, (u32)n, true);
            break;
        }
        case 5:                          // around the deadline
        {
            u64 at = now() + timeoutUs;
            u64 before = choose((u32)std::min<u64>(timeoutUs + 1, 4 * Gran));
            u32 n = 1 + choose(8);
            logf("line: %u bytes around the deadline", n);
            random(at - before, pick({ 87u, 700u }), n, choose(2) == 0);
            break;
        }
        case 6:                          // a start byte, then nothing
            fault("packet cut short by the peer");
            logf("line: a start byte only");
            random(t, 87, choose(4), true);
            add(t + choose((u32)std::min<u64>(timeoutUs + 1, 1000000)), start);
            break;
        case 7:                          // a run of start and end bytes
        {
            u32 n = 1 + choose(12);
            logf("line: %u start and end bytes", n);
            for (u32 i = 0; i < n; ++i) add(t + 87 * i, choose(2) ? start : end);
            break;
        }
        }
        u.poll();
    }
};

struct Call
{
    hal::Uart &u;
    u64 t0 = now(), stalled0 = stalled_total(), errors0 = u.errors;
    size_t before = u.consumed, discarded0 = u.discarded;
    u64 spent() const { return now() - t0; }
    u64 stalled() const { return stalled_total() - stalled0; }
};

// Checks common to all receive calls. Returns where the returned bytes start in the stream.
void judge(const char* what, const Call &c, const u8* buf, u32 size, u32 r, u64 timeoutUs, int startByte, int endByte, bool tiny, bool timing = true)
{
    hal::Uart &u = c.u;
    const bool delimited = endByte >= 0;
    if (r > size) { fail("U01", "count-too-large", "%s with a buffer of %u bytes reports %u", what, size, r); fail("U02", "count-too-large", "%s with a buffer of %u bytes reports %u", what, size, r); discard("count too large"); }
    size_t used = u.consumed - c.before;
    size_t s = c.before;
    if (u.discarded != c.discarded0) { fail("U01", "input-discarded", "%s threw away %zu received bytes", what, u.discarded - c.discarded0); discard("input discarded"); }
    if (startByte >= 0)
    {
        while (s < u.consumed && u.delivered[s] != startByte) ++s;
        if (r == 0 && s < u.consumed && !tiny) fail("U02", "packet-start-lost", "%s consumed a start byte and returned nothing", what);
        if (r == 0 && s < u.consumed && !tiny) fail("U01", "bytes-lost", "%s consumed a start byte and returned nothing", what);
        if (r == 0) s = u.consumed;
    }
    if (u.consumed - s != r)
    {
        fail("U01", u.consumed - s > r ? "bytes-lost" : "bytes-invented", "%s reports %u bytes, but %zu were taken from the device (%zu skipped)", what, r, used, s - c.before);
        if (delimited) fail("U02", u.consumed - s > r ? "bytes-lost" : "bytes-invented", "%s reports %u bytes, but %zu were taken from the device (%zu skipped)", what, r, used, s - c.before);
    }
    size_t have = std::min<size_t>(r, u.consumed - s);
    if (memcmp(buf, u.delivered.data() + s, have) != 0)
    {
        fail("U01", "wrong-bytes", "%s returned %s, the device delivered %s", what, hex(buf, have).c_str(), hex(u.delivered.data() + s, have).c_str());
        if (delimited) fail("U02", "wrong-bytes", "%s returned %s, the device delivered %s", what, hex(buf, have).c_str(), hex(u.delivered.data() + s, have).c_str());
    }
    if (u.consumed - s != r || memcmp(buf, u.delivered.data() + s, have) != 0) discard("wrong bytes (U01)");

    bool complete = r == size;
    if (delimited && r)
    {
        size_t from = startByte >= 0 ? 1 : 0;
        for (size_t i = from; i < r; ++i)
            if (buf[i] == endByte)
            {
                if (i + 1 < r) fail("U02", "ran-past-end-byte", "%s did not stop at the end byte at position %zu of %u: %s", what, i, r, hex(buf, r).c_str());
                complete = true;
                probe("delimited packet complete");
                break;
            }
        if (startByte >= 0 && buf[0] != startByte) fail("U02", "start-byte-missing", "%s returned a packet that does not begin with the start byte", what);
        if (!complete) probe("delimited packet cut by the time-out");
        if (r == size && buf[r - 1] != endByte) probe("delimited packet cut by the buffer");
    }
    if (!timeoutUs || tiny || !timing) return;
    // timing
    u64 spent = c.spent(), stalled = c.stalled();
    if (spent > timeoutUs + LateTolerance + stalled)
        fail("U03", "late", "%s with a timeout of %llu us returned after %llu us (%llu us of them not scheduled)", what, (unsigned long long)timeoutUs, (unsigned long long)spent, (unsigned long long)stalled);
    if (complete) return;
    probe("receive timed out");
    if (u.errors != c.errors0) return;
    if (spent + EarlyTolerance < timeoutUs)
        fail("U04", "early", "%s with a timeout of %llu us returned %u of %u bytes after only %llu us", what, (unsigned long long)timeoutUs, r, size, (unsigned long long)spent);
    if (delimited && r && spent + EarlyTolerance < timeoutUs)
        fail("U02", "cut-short", "%s with a timeout of %llu us returned %u of %u bytes without the end byte after only %llu us", what, (unsigned long long)timeoutUs, r, size, (unsigned long long)spent);
    u64 sure = std::min(c.t0 + timeoutUs, now());
    u64 margin = EarlyTolerance + stalled;
    // A call that was still busy reading when its time was up is excused.
    const bool idle = std::max(c.t0, u.lastPop) + margin < now();
    for (size_t i = u.consumed; idle && i < u.delivered.size(); ++i)
        if (u.deliveredAt[i] + margin < sure)
        {
            fail("U04", "unread-bytes", "%s with a timeout of %llu us returned %u of %u bytes, leaving a byte unread that arrived %llu us before that", what, (unsigned long long)timeoutUs, r, size,
                 (unsigned long long)(sure - u.deliveredAt[i]));
            break;
        }
}

u32 drawTimeout()
{
    switch (choose(8))
    {
    case 0: case 1: case 2: return 1 + choose(30);
    case 3: case 4: return 1 + choose(120);
    case 5: return 200;
    case 6: return chance(1, 8) ? 65535 - choose(300) : 1 + choose(2000);
    default: return 0;
    }
}
// What becomes of bytes that are sent: fast and slow lines, with or without flow control.
void drawLine(hal::Uart &u)
{
    u.byteTime = choose(6) ? pick({ 87u, 1042u, 10u }) : pick({ 8333u, 33333u });
    if (choose(6) == 0) u.held = pick({ 2u, 8u });
}
} // namespace

SIM_SCENARIO(uart, "U01 U02 U03 U04 U05 U06")
{
    hal::reset_all();
    drawClock();
    hal::Uart &u = hal::uart[Port];
    if (chance(1, 8)) u.capacity = 4 + choose(60);
    drawLine(u);
    if (u.byteTime == 1042) u.fifo = 1 + choose(128);
    u.chunkTimeout = choose(2);
#ifndef SIM_ARDUINO
    hal::esp.uart[Port].installed = true;
#endif
    if (chance(2, 3))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 16u, 4u, 60u });
    }
    PacketUart::UartDevice device(Port);
    PacketUart packet(device);
#ifdef SIM_ARDUINO
    unsigned long deviceTimeout = pick({ 1000u, 1u, 20u, 60u, 5u, 1000u, 65536u + 20, 0x7FFFFFFFu });
    device.setTimeout(deviceTimeout);
#endif
    drawStalls(30000);
    Peer peer { u, drawByte('<', '>'), 0 };
    peer.end = chance(1, 6) ? peer.start : drawByte('<', '>');
    const u32 usual = choose(5);
    routine("a byte is transferred", [&] {
        u8 b[2] = { peer.start, peer.end };
        if (usual == 0) { Cut cut; packet.Send(b, 2, 10); return; }
        u.coming.clear();
        for (u32 k = 0; k < 2; ++k) u.coming.push_back({ now(), b[k] });
        Cut cut;
        if (usual == 1) packet.Receive(b, 2, 10);
        else if (usual == 2) packet.ReceiveUntil(b, 2, peer.end, 10);
        else if (usual == 3) packet.ReceiveBetween(b, 2, peer.start, peer.end, 10);
        else packet.Receive(b, 1, 10);
    });
    u32 calls = history(1, thorough() ? 24 : 10);
    for (u32 i = 0; i < calls; ++i)
    {
        Span sp;
        arena_release_all();
#ifdef SIM_ARDUINO
        if (i && chance(1, 6)) device.setTimeout(deviceTimeout = pick({ 1000u, 1u, 20u, 60u, 5u, 200u, 131072u + 5 }));     // by the user, between calls
#endif
        u32 kind = choose(4);            // receive, until, between, send
        u32 size;
        switch (choose(8))
        {
        case 0: size = choose(2) ? 2 : choose(3); break;
        case 7: size = chance(1, 40) ? 65535 - choose(2) : 200 + choose(400); break;
        default: size = 1 + choose(40); break;
        }
        u8* buf = arena_alloc(size, choose(4), 0xA7);
        u32 ms = drawTimeout();
        u64 timeoutUs = (u64)ms * 1000;
        if (kind == 3)
        {
            if (!chance(1, 60)) size = std::min(size, 600u);
            for (u32 k = 0; k < size; ++k) buf[k] = (u8)mix(i, k);
            arena_set_readonly(buf);
            std::vector<u8> copy(buf, buf + size);
            if (choose(2)) peer.draw(20000, 16);
            u64 accepted0 = u.accepted, line0 = u.line.size();
            size_t consumed0 = u.consumed;
            logf("Send(%u bytes, %u ms) at t=%llu", size, ms, (unsigned long long)now());
            set_step_limit(2000000);
            hal::clear_poll();
            u32 r;
#ifndef SIM_ARDUINO
            // the device below it keeps the same promise
            if (choose(5) == 0)
            {
                int n;
                { Cut cut; n = device.sendBlocking(buf, size); }
                logf(" by the device: %d", n);
                r = n > 0 ? (u32)n : 0;
            }
            else
#endif
            { Cut cut; r = packet.Send(buf, (uint16_t)size, ms); }
            u64 t1 = now();
            logf(" -> %u at t=%llu", r, (unsigned long long)t1);
            u64 accepted = u.accepted - accepted0;
            if (u.consumed != consumed0)
            {
                fail("U01", "input-discarded", "Send took %zu received bytes from the device", u.consumed - consumed0);
                discard("input discarded (U01)");
            }
            if (r != accepted) fail("U05", r > accepted ? "send-overreports" : "send-underreports", "Send of %u bytes reports %u, the device accepted %llu", size, r, (unsigned long long)accepted);
            if (u.line.size() - line0 > size) fail("U05", "sent-twice", "Send of %u bytes put %zu bytes on the line", size, u.line.size() - (size_t)line0);
            for (size_t k = 0; line0 + k < u.line.size(); ++k)
                if (k >= copy.size() || u.line[line0 + k].b != copy[k]) { fail("U05", "wrong-bytes-sent", "byte %zu on the line is not byte %zu of the %u sent", k, k, size); break; }
            if (r && u.txIdle > t1) fail("U05", "send-not-blocking", "Send of %u bytes returned %llu us before the last byte had left the line", size, (unsigned long long)(u.txIdle - t1));
            if (accepted < size) probe("short send");
        }
        else
        {
            u32 horizon = ms;
#ifdef SIM_ARDUINO
            if (!ms) horizon = (u32)std::min(deviceTimeout, 2000ul);
#endif
            peer.draw((u64)horizon * 1000, size);
            if (!ms)
            {
                // An unlimited wait has to find something in the end.
                u64 t = peer.last() + 1000 + choose(5000);
                for (int k = 0; k < 3; ++k)
                {
                    peer.add(t + 200 * k, peer.start);
                    peer.add(t + 200 * k + 100, peer.end);
                }
            }
            bool tiny = kind == 2 && size < 2;
            static const char* names[] = { "Receive", "ReceiveUntil", "ReceiveBetween" };
            const char* what = names[kind];
            logf("%s(%u bytes, %u ms) at t=%llu, start %02x, end %02x, %zu bytes waiting", what, size, ms, (unsigned long long)now(), peer.start, peer.end, u.available());
            set_step_limit(20000000);
            hal::clear_poll();
            drawStallNear(now() + (u64)horizon * 1000);
            Call c { u };
#ifndef SIM_ARDUINO
            const bool direct = kind == 0 && choose(8) == 0;
#else
            const bool direct = false;
#endif
            if (ms && !direct) set_time_guard(now() + timeoutUs + LateTolerance + 1000, "U03", "late", what);
            else set_time_guard(now() + 400000000ull, "-", "late", what);
            u32 r = 0;
            {
                Cut cut;
#ifndef SIM_ARDUINO
                if (direct)
                {
                    const int n = device.receiveBlocking(buf, size, ms);
                    r = n > 0 ? (u32)n : 0;
                }
                else
#endif
                if (kind == 0) r = packet.Receive(buf, (uint16_t)size, (uint16_t)ms);
                else if (kind == 1) r = packet.ReceiveUntil(buf, (uint16_t)size, peer.end, (uint16_t)ms);
                else r = packet.ReceiveBetween(buf, (uint16_t)size, peer.start, peer.end, (uint16_t)ms);
            }
            clear_time_guard();
            no_stall_at();
            logf(" -> %u %s at t=%llu", r, hex(buf, std::min(r, size), 16).c_str(), (unsigned long long)now());
            judge(what, c, buf, size, r, timeoutUs, kind == 2 ? peer.start : -1, kind == 0 ? -1 : peer.end, tiny, !direct);
#ifdef SIM_ARDUINO
            if (!ms && kind == 1 && r < size && (r == 0 || buf[r - 1] != peer.end))
            {
                // the device's own time-out applied: after the call or after the last byte
                u64 T = (u64)deviceTimeout * 1000, spent = c.spent();
                u64 from = c.t0;
                if (r) from = std::max(from, u.deliveredAt[u.consumed - 1]);
                if (spent + EarlyTolerance < T) fail("U06", "device-timeout-ignored", "ReceiveUntil without a timeout returned %u of %u bytes after %llu us; the device's timeout is %lu ms", r, size, (unsigned long long)spent, deviceTimeout);
                if (now() > from + T + LateTolerance + c.stalled()) fail("U06", "device-timeout-ignored", "ReceiveUntil without a timeout waited %llu us after the last byte; the device's timeout is %lu ms", (unsigned long long)(now() - from), deviceTimeout);
                probe("device timeout applied");
            }
            if (!ms && kind == 1 && size && now() > c.t0 + 60000000 + std::min((u64)deviceTimeout * 1000, (u64)200000000) + c.stalled()) fail("U06", "device-timeout-ignored", "ReceiveUntil without a timeout took %llu us", (unsigned long long)c.spent());
#endif
        }
#ifdef SIM_ARDUINO
        if (device.getTimeout() != deviceTimeout)
            fail("U06", "timeout-leaked", "the device's timeout was %lu ms and is %lu ms after the call", deviceTimeout, (unsigned long)device.getTimeout());
        if (device.getTimeout() != deviceTimeout) discard("timeout leaked (U06)");
#endif
        state(mix(mix(kind, std::min<size_t>(u.available(), 20)), mix(ms > 0, size > 2)));
        if (choose(2)) advance(choose(20000));
    }
}

// Several UARTs, each used by a task of its own: what one of them does is no business of the others.
SIM_SCENARIO(uart_tasks, "U01 U02 U03 U04 U05")
{
    hal::reset_all();
    drawClock();
    arena_release_all();
    const u32 tasks = range(2, 3);
    u8* buffers[3];
    std::vector<embedded::PacketUart::UartDevice> devices;
    devices.reserve(3);
    for (u32 i = 0; i < tasks; ++i)
    {
        drawLine(hal::uart[i]);
        hal::uart[i].chunkTimeout = choose(2);
#ifndef SIM_ARDUINO
        hal::esp.uart[i].installed = true;
#endif
        devices.emplace_back(i);
#ifdef SIM_ARDUINO
        devices.back().setTimeout(pick({ 20u, 5u, 100u }));
#endif
        buffers[i] = arena_alloc(80, 0, 0xA7);
    }
    if (chance(1, 2))
    {
        hal::faults.num = 1;
        hal::faults.den = 16;
    }
    set_preemption(pick({ 3u, 1u, 10u }));
    if (choose(2)) set_instruction_preemption(pick({ 60u, 15u, 300u }));
    set_step_limit(20000000);
    set_time_guard(now() + 4000000000ull, "-", "late", "tasks");
    bool same = choose(2);
    u8 start0 = drawByte('<', '>'), end0 = drawByte('<', '>');
    for (u32 i = 0; i < tasks; ++i)
        spawn(("uart" + std::to_string(i)).c_str(), [&, i] {
            hal::Uart &u = hal::uart[i];
            PacketUart packet(devices[i]);
            Peer peer { u, same ? start0 : drawByte('<', '>'), same ? end0 : drawByte('<', '>') };
            u32 calls = range(1, 5);
            for (u32 k = 0; k < calls; ++k)
            {
                u32 kind = choose(4), size = choose(3) ? 2 + choose(30) : choose(80), ms = choose(5) ? 1 + choose(40) : 0;
                u8* buf = buffers[i];
                if (kind == 3)
                {
                    for (u32 n = 0; n < size; ++n) buf[n] = (u8)mix(i * 100 + k, n);
                    u64 accepted0 = u.accepted, line0 = u.line.size();
                    logf("UART%u Send(%u bytes)", i, size);
                    u32 r;
                    { Cut cut; r = packet.Send(buf, (uint16_t)size, ms); }
                    logf("UART%u -> %u", i, r);
                    if (r != u.accepted - accepted0) fail("U05", "send-misreports", "Send of %u bytes reports %u, the device accepted %llu", size, r, (unsigned long long)(u.accepted - accepted0));
                    for (size_t n = 0; line0 + n < u.line.size(); ++n)
                        if (n >= size || u.line[line0 + n].b != (u8)mix(i * 100 + k, n)) { fail("U05", "wrong-bytes-sent", "byte %zu on the line is not byte %zu of the %u sent", n, n, size); break; }
                    if (r && u.txIdle > now()) fail("U05", "send-not-blocking", "Send of %u bytes returned %llu us before the last byte had left the line", size, (unsigned long long)(u.txIdle - now()));
                }
                else
                {
                    peer.draw(ms ? ms * 1000 : 20000, size);
                    if (!ms)
                    {
                        u64 t = peer.last() + 1000 + choose(5000);
                        for (int n = 0; n < 3; ++n)
                        {
                            peer.add(t + 200 * n, peer.start);
                            peer.add(t + 200 * n + 100, peer.end);
                        }
                    }
                    static const char* names[] = { "Receive", "ReceiveUntil", "ReceiveBetween" };
                    memset(buf, 0xA7, 80);
                    logf("UART%u %s(%u bytes, %u ms), start %02x, end %02x, %zu bytes waiting", i, names[kind], size, ms, peer.start, peer.end, u.available());
                    Call c { u };
                    u32 r;
                    {
                        Cut cut;
                        if (kind == 0) r = packet.Receive(buf, (uint16_t)size, (uint16_t)ms);
                        else if (kind == 1) r = packet.ReceiveUntil(buf, (uint16_t)size, peer.end, (uint16_t)ms);
                        else r = packet.ReceiveBetween(buf, (uint16_t)size, peer.start, peer.end, (uint16_t)ms);
                    }
                    logf("UART%u -> %u %s", i, r, hex(buf, std::min(r, size), 16).c_str());
                    judge(names[kind], c, buf, size, r, (u64)ms * 1000, kind == 2 ? peer.start : -1, kind == 0 ? -1 : peer.end, kind == 2 && size < 2);
                    for (u32 n = size; n < 80; ++n) if (buf[n] != 0xA7) { fail("U01", "out-of-bounds", "%s wrote byte %u of a buffer of %u", names[kind], n, size); break; }
                }
                state(mix(i, mix(kind, std::min<size_t>(u.available(), 20))));
            }
        });
    run_tasks();
}

// One UART, on which one task receives while another one sends.
SIM_SCENARIO(uart_duplex, "U01 U02 U03 U04 U05")
{
    hal::reset_all();
    drawClock();
    arena_release_all();
    hal::Uart &u = hal::uart[Port];
    drawLine(u);
    u.chunkTimeout = choose(2);
#ifndef SIM_ARDUINO
    hal::esp.uart[Port].installed = true;
#endif
    PacketUart::UartDevice device(Port);
    PacketUart packet(device);
    if (chance(1, 2))
    {
        hal::faults.num = 1;
        hal::faults.den = pick({ 16u, 60u });
    }
    Peer peer { u, drawByte('<', '>'), 0 };
    peer.end = chance(1, 6) ? peer.start : drawByte('<', '>');
    u8* in = arena_alloc(80, 0, 0xA7);
    u8* out = arena_alloc(200, 1, 0);
    set_preemption(pick({ 3u, 1u, 10u }));
    if (choose(2)) set_instruction_preemption(pick({ 60u, 15u, 300u }));
    set_step_limit(20000000);
    set_time_guard(now() + 4000000000ull, "-", "late", "tasks");
    const u32 receives = range(1, 6), sends = range(1, 6);
    spawn("receiver", [&] {
        for (u32 k = 0; k < receives; ++k)
        {
            // a receive without a time-out would depend on what Send makes of the device's
            const u32 kind = choose(3), size = choose(3) ? 2 + choose(30) : choose(80), ms = 1 + choose(60);
            peer.draw(ms * 1000, size);
            static const char* names[] = { "Receive", "ReceiveUntil", "ReceiveBetween" };
            memset(in, 0xA7, 80);
            logf("%s(%u bytes, %u ms), start %02x, end %02x, %zu bytes waiting", names[kind], size, ms, peer.start, peer.end, u.available());
            Call c { u };
            u32 r;
            {
                Cut cut;
                if (kind == 0) r = packet.Receive(in, (uint16_t)size, (uint16_t)ms);
                else if (kind == 1) r = packet.ReceiveUntil(in, (uint16_t)size, peer.end, (uint16_t)ms);
                else r = packet.ReceiveBetween(in, (uint16_t)size, peer.start, peer.end, (uint16_t)ms);
            }
            logf(" -> %u %s", r, hex(in, std::min(r, size), 16).c_str());
            // on Arduino both directions share the device's time-out, which an implementation may use
            judge(names[kind], c, in, size, r, (u64)ms * 1000, kind == 2 ? peer.start : -1, kind == 0 ? -1 : peer.end, kind == 2 && size < 2, !Arduino);
            for (u32 n = size; n < 80; ++n) if (in[n] != 0xA7) { fail("U01", "out-of-bounds", "%s wrote byte %u of a buffer of %u", names[kind], n, size); break; }
            state(mix(kind, std::min<size_t>(u.available(), 20)));
            if (choose(3) == 0) wait_until(now() + choose(20000), nullptr);
        }
    });
    spawn("sender", [&] {
        for (u32 k = 0; k < sends; ++k)
        {
            const u32 size = choose(3) ? 1 + choose(30) : choose(200), ms = choose(3) ? 1 + choose(200) : 0;
            for (u32 n = 0; n < size; ++n) out[n] = (u8)mix(k + 7, n);
            const u64 accepted0 = u.accepted, line0 = u.line.size();
            logf("Send(%u bytes)", size);
            u32 r;
            { Cut cut; r = packet.Send(out, (uint16_t)size, ms); }
            logf(" Send -> %u", r);
            if (r != u.accepted - accepted0) fail("U05", "send-misreports", "Send of %u bytes reports %u, the device accepted %llu", size, r, (unsigned long long)(u.accepted - accepted0));
            for (size_t n = 0; line0 + n < u.line.size(); ++n)
                if (n >= size || u.line[line0 + n].b != (u8)mix(k + 7, n)) { fail("U05", "wrong-bytes-sent", "byte %zu on the line is not byte %zu of the %u sent", n, n, size); break; }
            if (r && u.txIdle > now()) fail("U05", "send-not-blocking", "Send of %u bytes returned %llu us before the last byte had left the line", size, (unsigned long long)(u.txIdle - now()));
            if (choose(3) == 0) wait_until(now() + choose(20000), nullptr);
        }
    });
    run_tasks();
    if (u.discarded) fail("U01", "input-discarded", "%zu received bytes were thrown away", u.discarded);
}
