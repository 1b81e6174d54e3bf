#include "Arduino.h"
#include "SPI.h"
#include "Wire.h"
#include "sim_arduino.h"

using namespace hal;
static u64 sim_semaphore_deadline(TickType_t ticks)
{
    const u64 us = device_us() + hal::arduinoTickPhase, end = (us / 1000 + ticks) * 1000;
    return now() + (end > us ? end - us : 0);
}
#include "hal/semaphores.inc"

HardwareSerial Serial(0);
HardwareSerial Serial1(1);
HardwareSerial Serial2(2);
TwoWire Wire(0);
TwoWire Wire1(1);
SPIClass SPI(0);

namespace hal
{
ArduinoSpi arduinoSpi[3];
ArduinoWire arduinoWire[2];
u64 arduinoTickPhase;
extern u16 analogValue[64];
u16 analogValue[64];
void reset_platform()
{
    for (auto &s: arduinoSpi) s = ArduinoSpi();
    for (auto &s: arduinoWire) s = ArduinoWire();
    arduinoTickPhase = 0;
    resetSemaphores();
    Serial.setTimeout(1000);
    Serial1.setTimeout(1000);
    Serial2.setTimeout(1000);
}
}

// ---------------------------------------------------------------- time
// With wide counters, 2^64 takes the place of 2^32 as the value where they wrap.
static sim_ulong counter(u64 v)
{
#ifdef SIM_WIDE_LONG
    return wrapRun ? (sim_ulong)(int64_t)(int32_t)v : (sim_ulong)(u32)v;
#else
    return (sim_ulong)v;
#endif
}
sim_ulong millis()
{
    Stub s;
    clock_read();
    return counter(device_us() / 1000);
}
sim_ulong micros()
{
    Stub s;
    clock_read();
    return counter(device_us());
}
void delay(uint32_t ms)
{
    Stub s;
    clear_poll();
    // FreeRTOS ticks of 1 ms: returns at the ms-th tick from now
    u64 us = device_us() + arduinoTickPhase;
    u64 end = (us / 1000 + ms) * 1000;
    u64 d = end > us ? end - us : 0;
    wait_until(now() + d, nullptr);
    vendor_call(2);
}
void delayMicroseconds(uint32_t us)
{
    Stub s;
    clear_poll();
    advance(us);
    vendor_call(1);
}
void yield()
{
    Stub s;
    vendor_call(1);
    yield_point("yield");
}
void vTaskDelay(TickType_t ticks)
{
    if (ticks) delay(ticks);
    else { Stub s; advance(5); yield_point("yield"); }
}
TickType_t xTaskGetTickCount()
{
    Stub s;
    clock_read();
    return (TickType_t)((device_us() + arduinoTickPhase) / 1000);
}
int64_t esp_timer_get_time()
{
    Stub s;
    clock_read();
    return (int64_t)device_us();
}
void taskYIELD_impl() { yield(); }
void sim_critical(int enter) { critical_section(enter); }
void sim_scheduler(int suspend) { critical_section(suspend); }
void noInterrupts() {}
void interrupts() {}

// ---------------------------------------------------------------- GPIO, ADC
void pinMode(uint8_t pin, uint8_t mode)
{
    Stub s;
    vendor_call(1);
    if (pin >= 64) return;
    auto &m = gpio.mode[pin];
    m.configured = true;
    m.input = mode & INPUT;
    m.output = mode & 2;
    m.up = mode & PULLUP;
    m.down = mode & PULLDOWN;
    logf("pinMode %u %02x", pin, mode);
}
void digitalWrite(uint8_t pin, uint8_t val) { Stub s; gpio_write(pin, val != LOW); }
int digitalRead(uint8_t pin) { Stub s; vendor_call(1); return gpio.read(pin); }
uint16_t analogRead(uint8_t pin) { Stub s; vendor_call(10); return pin < 64 ? hal::analogValue[pin] : 0; }

// ---------------------------------------------------------------- serial
int Stream::timedRead()
{
    auto start = millis();
    do
    {
        int c = read();
        if (c >= 0) return c;
    } while ((sim_ulong)(millis() - start) < _timeout);
    return -1;
}
int Stream::timedPeek()
{
    auto start = millis();
    do
    {
        int c = peek();
        if (c >= 0) return c;
    } while ((sim_ulong)(millis() - start) < _timeout);
    return -1;
}
size_t Stream::readBytes(char* buffer, size_t length)
{
    Stub s;
    size_t count = 0;
    while (count < length)
    {
        int c = timedRead();
        if (c < 0) break;
        stub_touch(buffer, 1, true);
        *buffer++ = (char)c;
        count++;
    }
    return count;
}
size_t Stream::readBytesUntil(char terminator, char* buffer, size_t length)
{
    Stub s;
    size_t index = 0;
    while (index < length)
    {
        int c = timedRead();
        if (c < 0 || (char)c == terminator) break;
        stub_touch(buffer, 1, true);
        *buffer++ = (char)c;
        index++;
    }
    return index;
}
bool Stream::find(char target)
{
    Stub s;
    for (;;)
    {
        int c = timedRead();
        if (c < 0) return false;
        if ((char)c == target) return true;
    }
}
int HardwareSerial::available()
{
    Stub s;
    auto n = uart[nr].available();
    poll_cost(n != 0);
    return (int)uart[nr].available();
}
int HardwareSerial::availableForWrite() { Stub s; vendor_call(1); return 128; }
int HardwareSerial::peek()
{
    Stub s;
    bool have = uart[nr].available();
    poll_cost(have);
    return uart[nr].available() ? uart[nr].delivered[uart[nr].consumed] : -1;
}
int HardwareSerial::read()
{
    Stub s;
    bool have = uart[nr].available();
    poll_cost(have);
    return uart[nr].available() ? uart[nr].pop() : -1;
}
size_t HardwareSerial::read(uint8_t* buffer, size_t size)
{
    Stub s;
    poll_cost(uart[nr].available());
    size_t n = std::min(size, uart[nr].available());
    stub_touch(buffer, n, true);
    for (size_t i = 0; i < n; ++i) buffer[i] = uart[nr].pop();
    return n;
}
size_t HardwareSerial::readBytes(uint8_t* buffer, size_t length)
{
    Stub s;
    clear_poll();
    auto &u = uart[nr];
    u64 end = now() + (u64)_timeout * 1000;
    size_t count = 0;
    while (count < length)
    {
        if (!wait_until(end, [&] { return u.available() > 0; })) break;
        stub_touch(buffer + count, 1, true);
        buffer[count++] = u.pop();
    }
    vendor_call(5);
    return count;
}
void HardwareSerial::flush() { flush(true); }
void HardwareSerial::flush(bool txOnly)
{
    Stub s;
    clear_poll();
    auto &u = uart[nr];
    if (!u.idle()) wait_until(u.txIdle, nullptr);
    if (!txOnly)
    {
        if (u.available()) logf("flush discards %zu received bytes", u.available());
        u.discard();
    }
    vendor_call(3);
}
size_t HardwareSerial::write(uint8_t c) { return write(&c, 1); }
size_t HardwareSerial::write(const uint8_t* buffer, size_t size)
{
    Stub s;
    clear_poll();
    vendor_call(1);              // the driver's lock
    auto &u = uart[nr];
    size_t n = size;
    if (n && fails("UART write")) n = choose((u32)n);      // 0 .. size-1 bytes accepted
    stub_touch(buffer, size, false);
    u.offered.emplace_back(buffer, buffer + size);
    u.acceptedPerCall.push_back(n);
    u.accepted += n;
    u.put(buffer, n);
    logf("UART%d write %zu bytes %s -> %zu", nr, size, hex(buffer, size, 12).c_str(), n);
    vendor_call(4);
    return n;
}

// ---------------------------------------------------------------- I2C
static void wireLock(ArduinoWire &w)
{
    int me = current_task();
    if (w.locked && w.owner == me) return;
    if (w.locked) wait_until(UINT64_MAX, [&] { return !w.locked; });
    w.locked = true;
    w.owner = me;
}
size_t TwoWire::getBufferSize() { return arduinoWire[num].bufferSize; }
void TwoWire::beginTransmission(uint16_t address)
{
    Stub s;
    auto &w = arduinoWire[num];
    wireLock(w);
    w.tx.clear();
    w.address = address;
    vendor_call(2);
}
uint8_t TwoWire::endTransmission(bool stop)
{
    Stub s;
    auto &w = arduinoWire[num];
    if (!w.locked) { logf("endTransmission without beginTransmission"); return 4; }
    auto r = i2c[num].write(w.address, w.tx.data(), w.tx.size(), stop);
    w.tx.clear();
    if (stop) w.locked = false;
    static const uint8_t code[] = { 0, 2, 3, 4, 5 };
    return code[r];
}
size_t TwoWire::requestFrom(uint16_t address, size_t size, bool stop)
{
    Stub s;
    auto &w = arduinoWire[num];
    wireLock(w);
    w.rx.clear();
    w.rxPos = 0;
    size_t got = 0;
    if (size <= w.bufferSize)
    {
        w.rx.assign(size, 0);
        i2c[num].read(address, w.rx.data(), size, got, stop);
        w.rx.resize(got);
    }
    else logf("requestFrom %zu bytes: too many", size);
    if (stop || got != size) w.locked = false;
    vendor_call(2);
    return got;
}
size_t TwoWire::write(uint8_t b)
{
    Stub s;
    auto &w = arduinoWire[num];
    if (!w.locked || w.tx.size() >= w.bufferSize) return 0;
    w.tx.push_back(b);
    return 1;
}
size_t TwoWire::write(const uint8_t* data, size_t size)
{
    Stub s;
    vendor_call(1);
    stub_touch(data, size, false);
    size_t n = 0;
    while (n < size && write(data[n])) ++n;
    return n;
}
int TwoWire::available() { Stub s; auto &w = arduinoWire[num]; return (int)(w.rx.size() - w.rxPos); }
int TwoWire::read() { Stub s; auto &w = arduinoWire[num]; vendor_call(0); return w.rxPos < w.rx.size() ? w.rx[w.rxPos++] : -1; }
int TwoWire::peek() { Stub s; auto &w = arduinoWire[num]; return w.rxPos < w.rx.size() ? w.rx[w.rxPos] : -1; }
void TwoWire::flush() { Stub s; auto &w = arduinoWire[num]; w.rx.clear(); w.tx.clear(); w.rxPos = 0; }
size_t TwoWire::readBytes(char* buffer, size_t length)
{
    Stub s;
    auto &w = arduinoWire[num];
    size_t n = std::min(length, w.rx.size() - w.rxPos);
    stub_touch(buffer, n, true);
    for (size_t i = 0; i < n; ++i) buffer[i] = (char)w.rx[w.rxPos++];
    return n;
}

// ---------------------------------------------------------------- SPI
static u64 spiTransaction(int num, u32 &f, int &dev)
{
    auto &b = arduinoSpi[num];
    int me = current_task();
    if (!b.locked) { ++b.unlockedUses; f = b.frequency; dev = -1; return 0; }
    if (b.owner != me) { ++b.foreignUses; f = b.frequency; dev = -2; return 0; }
    f = b.frequency;
    dev = (int)b.settingsId;
    return b.transaction;
}
void SPIClass::beginTransaction(SPISettings st)
{
    Stub s;
    auto &b = arduinoSpi[num];
    vendor_call(2);
    if (b.locked) wait_until(UINT64_MAX, [&] { return !b.locked; });
    b.locked = true;
    b.owner = current_task();
    b.transaction = ++spi[num].transactions;
    b.frequency = st._clock;
    b.settingsId = st._clock ^ (u32)st._dataMode << 28 ^ (u32)st._bitOrder << 30;
    logf("SPI begin transaction %llu", (unsigned long long)b.transaction);
    yield_point("begin");
}
void SPIClass::endTransaction()
{
    Stub s;
    auto &b = arduinoSpi[num];
    logf("SPI end transaction");
    if (b.locked && b.owner == current_task()) b.locked = false;
    vendor_call(1);
}
static u8 one(int num, u8 tx, bool txm, bool rxm)
{
    u32 f;
    int d;
    u64 t = spiTransaction(num, f, d);
    return spi[num].exchange(tx, d, t, f, txm, rxm);
}
uint8_t SPIClass::transfer(uint8_t data)
{
    Stub s;
    u8 r = one(num, data, true, true);
    vendor_call(2);
    return r;
}
uint16_t SPIClass::transfer16(uint16_t data)
{
    Stub s;
    u16 r = (u16)(one(num, data >> 8, true, true) << 8);
    r |= one(num, (u8)data, true, true);
    vendor_call(3);
    return r;
}
uint32_t SPIClass::transfer32(uint32_t data)
{
    Stub s;
    u32 r = 0;
    for (int i = 3; i >= 0; --i) r = r << 8 | one(num, (u8)(data >> (8 * i)), true, true);
    vendor_call(4);
    return r;
}
void SPIClass::transferBytes(const uint8_t* data, uint8_t* out, uint32_t size)
{
    Stub s;
    // The hardware moves at most 64 bytes at a time; in between others may run.
    while (size)
    {
        u32 n = std::min<u32>(size, 64);
        vendor_call(1);
        if (data) stub_touch(data, n, false);
        if (out) stub_touch(out, n, true);
        for (u32 i = 0; i < n; ++i)
        {
            u8 r = one(num, data ? data[i] : 0xFF, data != nullptr, out != nullptr);
            if (out) out[i] = r;
        }
        if (data) data += n;
        if (out) out += n;
        size -= n;
        vendor_call(n * 2);
    }
}
void SPIClass::transfer(uint8_t* data, uint32_t size) { transferBytes(data, data, size); }
void SPIClass::write(uint8_t data) { transfer(data); }
void SPIClass::write16(uint16_t data) { transfer16(data); }
void SPIClass::write32(uint32_t data) { transfer32(data); }
void SPIClass::writeBytes(const uint8_t* data, uint32_t size) { transferBytes(data, nullptr, size); }
