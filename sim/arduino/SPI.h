#pragma once
#include "Arduino.h"
#define SPI_MODE0 0
#define SPI_MODE1 1
#define SPI_MODE2 2
#define SPI_MODE3 3
class SPISettings
{
public:
    SPISettings() : _clock(1000000), _bitOrder(MSBFIRST), _dataMode(SPI_MODE0) {}
    SPISettings(uint32_t clock, uint8_t bitOrder, uint8_t dataMode) : _clock(clock), _bitOrder(bitOrder), _dataMode(dataMode) {}
    uint32_t _clock;
    uint8_t _bitOrder;
    uint8_t _dataMode;
};
class SPIClass
{
public:
    SPIClass(uint8_t bus = 2) : num(bus) {}
    void begin(int8_t sck = -1, int8_t miso = -1, int8_t mosi = -1, int8_t ss = -1) {}
    void end() {}
    void beginTransaction(SPISettings settings);
    void endTransaction();
    void transfer(uint8_t* data, uint32_t size);
    void transfer(void* data, uint32_t size) { transfer((uint8_t*)data, size); }
    uint8_t transfer(uint8_t data);
    uint16_t transfer16(uint16_t data);
    uint32_t transfer32(uint32_t data);
    void transferBytes(const uint8_t* data, uint8_t* out, uint32_t size);
    void write(uint8_t data);
    void write16(uint16_t data);
    void write32(uint32_t data);
    void writeBytes(const uint8_t* data, uint32_t size);
    void setHwCs(bool) {}
    void setFrequency(uint32_t) {}
    void setDataMode(uint8_t) {}
    void setBitOrder(uint8_t) {}
private:
    uint8_t num;
};
extern SPIClass SPI;
