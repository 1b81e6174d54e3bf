#pragma once
#include "Print.h"
class Stream : public Print
{
public:
    Stream() {}
    virtual int available() = 0;
    virtual int read() = 0;
    virtual int peek() = 0;
    void setTimeout(unsigned long timeout) { _timeout = timeout; }
    unsigned long getTimeout(void) { return _timeout; }
    virtual size_t readBytes(char* buffer, size_t length);
    virtual size_t readBytes(uint8_t* buffer, size_t length) { return readBytes((char*)buffer, length); }
    size_t readBytesUntil(char terminator, char* buffer, size_t length);
    size_t readBytesUntil(char terminator, uint8_t* buffer, size_t length) { return readBytesUntil(terminator, (char*)buffer, length); }
    bool find(char target);
protected:
    int timedRead();
    int timedPeek();
    unsigned long _timeout = 1000;
};
