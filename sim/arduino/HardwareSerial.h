#pragma once
#include "Stream.h"
#include "esp32-hal.h"
class HardwareSerial : public Stream
{
public:
    HardwareSerial(uint8_t uart_nr) : nr(uart_nr) {}
    void begin(unsigned long baud, uint32_t config = SERIAL_8N1, int8_t rxPin = -1, int8_t txPin = -1, bool invert = false, unsigned long timeout_ms = 20000UL, uint8_t rxfifo = 112) {}
    void end(bool = true) {}
    int available() override;
    int availableForWrite() override;
    int peek() override;
    int read() override;
    size_t read(uint8_t* buffer, size_t size);
    size_t read(char* buffer, size_t size) { return read((uint8_t*)buffer, size); }
    size_t readBytes(uint8_t* buffer, size_t length) override;
    size_t readBytes(char* buffer, size_t length) override { return readBytes((uint8_t*)buffer, length); }
    void flush() override;
    void flush(bool txOnly);
    size_t write(uint8_t) override;
    size_t write(const uint8_t* buffer, size_t size) override;
    size_t write(const char* buffer, size_t size) { return write((const uint8_t*)buffer, size); }
    size_t write(const char* s) { return write((const uint8_t*)s, strlen(s)); }
    size_t write(unsigned long n) { return write((uint8_t)n); }
    size_t write(long n) { return write((uint8_t)n); }
    size_t write(unsigned int n) { return write((uint8_t)n); }
    size_t write(int n) { return write((uint8_t)n); }
    uint32_t baudRate() { return 115200; }
    void updateBaudRate(unsigned long) {}
    size_t setRxBufferSize(size_t n) { return n; }
    size_t setTxBufferSize(size_t n) { return n; }
    bool setPins(int8_t, int8_t, int8_t = -1, int8_t = -1) { return true; }
    bool setRxTimeout(uint8_t) { return true; }
    bool setRxFIFOFull(uint8_t) { return true; }
    operator bool() const { return true; }
protected:
    int nr;
};
extern HardwareSerial Serial;
extern HardwareSerial Serial1;
extern HardwareSerial Serial2;
