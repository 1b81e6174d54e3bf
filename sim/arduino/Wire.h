#pragma once
#include "Stream.h"
// The ESP32 flavour of TwoWire.
class TwoWire : public Stream
{
public:
    TwoWire(uint8_t bus) : num(bus) {}
    bool begin() { return true; }
    bool begin(int sda, int scl, uint32_t frequency = 0) { return true; }
    bool end() { return true; }
    bool setPins(int, int) { return true; }
    size_t setBufferSize(size_t) { return getBufferSize(); }
    uint32_t getClock() { return 100000; }
    bool setClock(uint32_t) { return true; }
    void setTimeOut(uint16_t) {}
    uint16_t getTimeOut() { return 50; }
    size_t getBufferSize();
    void beginTransmission(uint16_t address);
    void beginTransmission(uint8_t address) { beginTransmission((uint16_t)address); }
    void beginTransmission(int address) { beginTransmission((uint16_t)address); }
    uint8_t endTransmission(bool sendStop);
    uint8_t endTransmission(void) { return endTransmission(true); }
    size_t requestFrom(uint16_t address, size_t size, bool sendStop);
    uint8_t requestFrom(uint16_t address, uint8_t size, bool sendStop) { return (uint8_t)requestFrom(address, (size_t)size, sendStop); }
    uint8_t requestFrom(uint16_t address, uint8_t size, uint8_t sendStop) { return (uint8_t)requestFrom(address, (size_t)size, (bool)sendStop); }
    size_t requestFrom(uint8_t address, size_t len, bool stopBit) { return requestFrom((uint16_t)address, len, stopBit); }
    uint8_t requestFrom(uint16_t address, uint8_t size) { return (uint8_t)requestFrom(address, (size_t)size, true); }
    uint8_t requestFrom(uint8_t address, uint8_t size, uint8_t sendStop) { return (uint8_t)requestFrom((uint16_t)address, (size_t)size, (bool)sendStop); }
    uint8_t requestFrom(uint8_t address, uint8_t size) { return (uint8_t)requestFrom((uint16_t)address, (size_t)size, true); }
    // arduino-esp32 2.x: the size is taken as size_t, the count returned is narrowed to uint8_t
    size_t requestFrom(int address, int size, int sendStop) { return requestFrom((uint16_t)address, (size_t)size, (bool)sendStop); }
    size_t requestFrom(int address, int size) { return requestFrom((uint16_t)address, (size_t)size, true); }
    size_t write(uint8_t) override;
    size_t write(const uint8_t* data, size_t size) override;
    size_t write(const char* s) { return write((const uint8_t*)s, strlen(s)); }
    size_t write(unsigned long n) { return write((uint8_t)n); }
    size_t write(long n) { return write((uint8_t)n); }
    size_t write(unsigned int n) { return write((uint8_t)n); }
    size_t write(int n) { return write((uint8_t)n); }
    int available() override;
    int read() override;
    int peek() override;
    void flush() override;
    size_t readBytes(char* buffer, size_t length) override;
    size_t readBytes(uint8_t* buffer, size_t length) override { return readBytes((char*)buffer, length); }
private:
    uint8_t num;
};
extern TwoWire Wire;
extern TwoWire Wire1;
