#pragma once
#include "Arduino.h"
#define MSBFIRST 1
#define SPI_MODE0 0
struct SPISettings { SPISettings(uint32_t = 0, uint8_t = 0, uint8_t = 0) {} };
namespace stub
{
struct Spi
{
    std::vector<uint8_t> out;      // what went over MOSI
    uint8_t next = 1;              // what comes back
    int begun = 0, transactions = 0, outside = 0;
    std::function<void()> onBegin, another;           // another: a task that runs during a transfer
};
inline Spi spi;
}
class SPIClass
{
public:
    std::vector<uint8_t> sent;
    void beginTransaction(SPISettings) { if (stub::spi.onBegin) stub::spi.onBegin(); ++stub::spi.begun; ++stub::spi.transactions; }
    void endTransaction() { --stub::spi.begun; }
    uint8_t transfer(uint8_t b) { if (!stub::spi.begun) ++stub::spi.outside; stub::spi.out.push_back(b); sent.push_back(b); return stub::spi.next++; }
    void transferBytes(const uint8_t* in, uint8_t* out, uint32_t n)
    {
        if (stub::spi.another) { auto f = stub::spi.another; stub::spi.another = nullptr; f(); stub::spi.another = f; }
        for (uint32_t i = 0; i < n; ++i) { uint8_t r = transfer(in ? in[i] : 0xFF); if (out) out[i] = r; }
    }
    void write(uint8_t b) { transfer(b); }
    void writeBytes(const uint8_t* p, uint32_t n) { transferBytes(p, nullptr, n); }
};
