#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>
class Print
{
public:
    virtual ~Print() {}
    virtual size_t write(uint8_t) = 0;
    virtual size_t write(const uint8_t* buffer, size_t size)
    {
        size_t n = 0;
        while (size--)
        {
            if (!write(*buffer++)) break;
            ++n;
        }
        return n;
    }
    size_t write(const char* s) { return s ? write((const uint8_t*)s, strlen(s)) : 0; }
    size_t write(const char* buffer, size_t size) { return write((const uint8_t*)buffer, size); }
    virtual int availableForWrite() { return 0; }
    virtual void flush() {}
    size_t print(const char* s) { return write(s); }
    size_t println(const char* s) { size_t n = write(s); return n + write("\r\n"); }
    int getWriteError() { return write_error; }
    void clearWriteError() { write_error = 0; }
protected:
    void setWriteError(int e = 1) { write_error = e; }
    int write_error = 0;
};
