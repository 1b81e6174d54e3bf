// I2C, SPI and GPIO behind the vendor APIs.
#pragma once
#include "hal/model.h"
#include <map>

namespace hal
{
// ---------------------------------------------------------------- GPIO
struct Gpio
{
    u8 level[64] = {};                   // what the pin drives if it is an output
    u64 writes = 0;
    struct Mode
    {
        bool configured = false, input = false, output = false, up = false, down = false;
        bool operator==(const Mode &o) const { return configured == o.configured && input == o.input && output == o.output && up == o.up && down == o.down; }
    } mode[64];
    u8 outside[64] = {};                 // what the world drives an input to
    u8 read(unsigned pin) const
    {
        if (pin >= 64) return 0;
        return mode[pin].configured && !mode[pin].output ? outside[pin] : level[pin];
    }
};
extern Gpio gpio;
void gpio_write(unsigned pin, bool level);

// ---------------------------------------------------------------- I2C
struct I2cPeripheral
{
    u16 address = 0;
    bool present = true;
    u32 nackAfter = ~0u;                 // NACKs the data byte with this index (once)
    std::vector<u8> got;                 // data bytes it acknowledged
    u64 supplied = 0;                    // bytes it has supplied (they are f(index))
    u64 resets = 0;                      // general call resets seen
    u8 byteAt(u64 i) const { return (u8)(mix(address * 131 + 7, i) >> 13); }
};
struct I2cTransaction
{
    u16 address;
    bool read;
    bool addressAcked = false;
    std::vector<u8> bytes;               // acknowledged (write) or supplied (read) bytes
    size_t wanted = 0;
    bool stopped = false;
};
struct I2cBus
{
    std::vector<I2cPeripheral> peripherals;
    std::vector<I2cTransaction> log;
    I2cPeripheral* find(u16 a) { for (auto &p: peripherals) if (p.address == a) return &p; return nullptr; }
    // One transfer; faults are drawn here. Returns the number of bytes acknowledged or supplied.
    enum Result { Ok, AddressNack, DataNack, BusError, Timeout };
    Result write(u16 address, const u8* p, size_t n, bool stop = true);
    Result read(u16 address, u8* p, size_t n, size_t &got, bool stop = true);
    u64 byteTime = 90;
    u64 maxTransfer = 0;                 // no transfer takes longer (driver time-out), 0: no limit
};
extern I2cBus i2c[2];

// ---------------------------------------------------------------- SPI
struct SpiByte
{
    u8 tx, rx;
    int task;
    int device;                          // who put it there: device handle or settings
    u64 transaction;                     // number of the bus transaction, 0: outside of any
    u64 selected;                        // chip selects that were low, as a bit mask of pins
    u32 frequency;
    bool txMeaningful, rxMeaningful;
};
struct SpiLine
{
    std::vector<SpiByte> log;
    u64 transactions = 0;
    u64 counter = 0;
    std::vector<unsigned> csPins;
    size_t failedAt = SIZE_MAX;          // length of the log when a transfer failed
    u8 exchange(u8 tx, int device, u64 transaction, u32 frequency, bool txm, bool rxm);
};
extern SpiLine spi[3];
void reset_bus();
} // namespace hal
