#pragma once
#include "Arduino.h"
namespace stub
{
struct I2c
{
    size_t buffer = 32;                 // what the library can hold
    size_t acks = SIZE_MAX;             // bytes the peripheral acknowledges
    size_t supplies = SIZE_MAX;         // bytes the peripheral supplies
    bool present = true;
    std::vector<uint8_t> queued, seen;
    std::deque<uint8_t> rx;
    uint16_t address = 0;
};
inline I2c i2c;
}
class TwoWire
{
public:
    void beginTransmission(uint16_t a) { stub::i2c.address = a; stub::i2c.queued.clear(); }
    size_t write(const uint8_t* p, size_t n)
    {
        size_t k = std::min(n, stub::i2c.buffer - stub::i2c.queued.size());
        stub::i2c.queued.insert(stub::i2c.queued.end(), p, p + k);
        return k;
    }
    size_t write(uint8_t b) { return write(&b, 1); }
    uint8_t endTransmission(bool = true)
    {
        if (!stub::i2c.present) return 2;
        for (auto b: stub::i2c.queued) { if (stub::i2c.seen.size() == stub::i2c.acks) return 3; stub::i2c.seen.push_back(b); }
        return 0;
    }
    size_t requestFrom(int a, int n)
    {
        stub::i2c.rx.clear();
        if (!stub::i2c.present) return 0;
        size_t k = std::min({ (size_t)n, stub::i2c.supplies, stub::i2c.buffer });
        for (size_t i = 0; i < k; ++i) stub::i2c.rx.push_back((uint8_t)(i + 1));
        return k;
    }
    int available() { return (int)stub::i2c.rx.size(); }
    int read() { if (stub::i2c.rx.empty()) return -1; int c = stub::i2c.rx.front(); stub::i2c.rx.pop_front(); return c; }
};
