#pragma once
#include "Arduino.h"
namespace stub
{
struct Serial
{
    std::deque<uint8_t> rx;
    std::vector<uint8_t> tx;
    size_t room = SIZE_MAX;                       // bytes the device still accepts
    std::function<void(Serial&)> poll;
    unsigned long timeout = 1000;
};
inline Serial uart;
inline std::vector<uint8_t> portTx[3];
inline std::function<void()> another;              // another task, which runs during a write
}
class HardwareSerial
{
    int n;
public:
    explicit HardwareSerial(int n = 0) : n(n) {}
    int available() { stub::pass(1); if (stub::uart.poll) stub::uart.poll(stub::uart); return (int)stub::uart.rx.size(); }
    int peek() { return available() ? stub::uart.rx.front() : -1; }
    int read() { if (!available()) return -1; int c = stub::uart.rx.front(); stub::uart.rx.pop_front(); return c; }
    size_t write(const uint8_t* p, size_t k)
    {
        stub::pass(1);
        if (stub::another) { auto f = stub::another; stub::another = nullptr; f(); stub::another = f; }
        k = std::min(k, stub::uart.room);
        stub::uart.room -= stub::uart.room == SIZE_MAX ? 0 : k;
        stub::uart.tx.insert(stub::uart.tx.end(), p, p + k);
        stub::portTx[n].insert(stub::portTx[n].end(), p, p + k);
        return k;
    }
    size_t write(uint8_t c) { return write(&c, 1); }
    void flush() { stub::pass(1); }
    void flush(bool txOnly) { stub::pass(1); if (!txOnly) stub::uart.rx.clear(); }
    void setTimeout(unsigned long t) { stub::uart.timeout = t; }
    unsigned long getTimeout() { return stub::uart.timeout; }
    size_t readBytes(uint8_t* p, size_t k)
    {
        size_t i = 0;
        for (uint64_t end = stub::us + stub::uart.timeout * 1000ull; i < k && stub::us < end;)
        {
            int c = read();
            if (c < 0) stub::pass(100);
            else { p[i++] = (uint8_t)c; end = stub::us + stub::uart.timeout * 1000ull; }
        }
        return i;
    }
};
inline HardwareSerial Serial(0);
