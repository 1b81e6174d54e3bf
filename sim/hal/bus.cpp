#include "hal/bus.h"

namespace hal
{
Gpio gpio;
I2cBus i2c[2];
SpiLine spi[3];

void gpio_write(unsigned pin, bool level)
{
    if (pin < 64) gpio.level[pin] = level;
    ++gpio.writes;
    logf("pin %u = %d", pin, level);
    vendor_call(1);
}

static u64 bus_time(const I2cBus &b, size_t n) { return b.byteTime * (n + 1); }

I2cBus::Result I2cBus::write(u16 address, const u8* p, size_t n, bool stop)
{
    I2cTransaction t { address, false };
    t.wanted = n;
    Result r = Ok;
    u64 cost = bus_time(*this, n);
    if (fails("I2C arbitration")) r = BusError;
    else if (fails("I2C clock stretching")) { r = Timeout; }
    else
    {
        std::vector<I2cPeripheral*> who;
        if (address == 0)
        {
            for (auto &d: peripherals) if (d.present) who.push_back(&d);
        }
        else if (auto d = find(address); d && d->present) who.push_back(d);
        if (who.empty() || fails("I2C address acknowledge")) r = AddressNack;
        else
        {
            t.addressAcked = true;
            size_t stopAt = n;
            if (n && fails("I2C data acknowledge")) stopAt = choose((u32)n);
            for (auto d: who)
                if (d->nackAfter < stopAt) { stopAt = d->nackAfter; d->nackAfter = ~0u; fault("I2C peripheral refuses a byte"); }
            size_t i = 0;
            for (; i < stopAt; ++i)
            {
                for (auto d: who) d->got.push_back(p[i]);
                t.bytes.push_back(p[i]);
            }
            if (i < n) r = DataNack;
            else if (address == 0 && n == 1 && p[0] == 0x06) for (auto d: who) ++d->resets;
        }
    }
    t.stopped = stop || r != Ok;
    logf("I2C write to %02x, %zu bytes %s: %zu acknowledged, result %d", address, n, hex(p, n, 8).c_str(), t.bytes.size(), r);
    log.push_back(std::move(t));
    vendor_call(cost);
    return r;
}

I2cBus::Result I2cBus::read(u16 address, u8* p, size_t n, size_t &got, bool stop)
{
    I2cTransaction t { address, true };
    t.wanted = n;
    Result r = Ok;
    got = 0;
    if (fails("I2C arbitration")) r = BusError;
    else
    {
        auto d = find(address);
        if (!d || !d->present || fails("I2C address acknowledge")) r = AddressNack;
        else
        {
            t.addressAcked = true;
            size_t stopAt = n;
            if (n && fails("I2C bus lost while reading")) stopAt = choose((u32)n);
            for (; got < stopAt; ++got)
            {
                p[got] = d->byteAt(d->supplied++);
                t.bytes.push_back(p[got]);
            }
            if (got < n) r = Timeout;
        }
    }
    t.stopped = stop || r != Ok;
    logf("I2C read from %02x, %zu bytes: %zu supplied %s, result %d", address, n, got, hex(p, got, 8).c_str(), r);
    log.push_back(std::move(t));
    vendor_call(bus_time(*this, n));
    return r;
}

u8 SpiLine::exchange(u8 tx, int device, u64 transaction, u32 frequency, bool txm, bool rxm)
{
    SpiByte b {};
    b.tx = tx;
    b.rx = (u8)(mix(0x51, counter++) >> 9);
    b.task = current_task();
    b.device = device;
    b.transaction = transaction;
    b.frequency = frequency;
    b.txMeaningful = txm;
    b.rxMeaningful = rxm;
    for (auto p: csPins) if (!gpio.level[p]) b.selected |= 1ull << p;
    log.push_back(b);
    return b.rx;
}

void reset_bus()
{
    gpio = Gpio();
    for (auto &b: i2c) b = I2cBus();
    for (auto &s: spi) s = SpiLine();
}
} // namespace hal
