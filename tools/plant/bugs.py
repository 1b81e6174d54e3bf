"""Planted bugs. Each breaks one property, compiles, and passes the existing tests."""
BUGS = []


def bug(id, prop, kind, edits, src, demo, needs, breaks, flags=""):
    BUGS.append(dict(id=id, prop=prop, kind=kind, edits=edits, src=src, demo=demo, needs=needs, breaks=breaks, flags=flags))


# ------------------------------------------------------------------ storage
ST = ["PersistentStorage.cpp"]
bug("storage-last-record-lost", "P01", "core",
    [("PersistentStorage.cpp", "free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())", "free_head_ + getNodeDescriptor(free_head_).size < buffer_.size())")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
int main()
{
    unsigned char region[20] = {};
    { embedded::PersistentStorage s(embedded::BytesView(region, sizeof region)); if (!s.set("a", (uint32_t)1)) return 1; if (!s.set("b", (uint32_t)2)) return 1; }
    embedded::PersistentStorage s(embedded::BytesView(region, sizeof region), false);
    if (s.get<uint32_t>("a") != 1 || s.get<uint32_t>("b") != 2) { puts("object lost after a reset"); return 1; }
}
''', "A record that ends exactly at the end of the region, then a reset.", "An acknowledged object vanishes on reopening when it fills the region exactly.")
bug("storage-data-after-commit", "P02", "core",
    [("PersistentStorage.h", "        std::memcpy(&node.data, &object, sizeof(T));\n        if (const auto next", "        if (const auto next"),
     ("PersistentStorage.h", "        node.size = recordSize;\n        free_head_ += recordSize;", "        node.size = recordSize;\n        std::memcpy(&node.data, &object, sizeof(T));\n        free_head_ += recordSize;")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
// The object lies on a page that cannot be read: the copy is where the power fails.
struct Big { unsigned char b[64]; };
int main()
{
    auto region = (unsigned char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto bad = (Big*)mmap(nullptr, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p) { embedded::PersistentStorage s(embedded::BytesView(region, 400)); s.set("k", *bad); _exit(0); }
    int st;
    waitpid(p, &st, 0);
    if (!WIFSIGNALED(st)) return 2;
    embedded::PersistentStorage s(embedded::BytesView(region, 400), false);
    if (s.get<Big>("k")) { puts("an object that was never stored in full can be read"); return 1; }
}
''', "A reset between the store of the size field and the end of the data copy.", "The record becomes visible before its data is complete.", "-O0")
bug("storage-overwrite-hides-key", "P03", "core",
    [("PersistentStorage.h", "            auto &node = getNode<T>(pos);\n            std::memcpy(static_cast", "            Node<T> &node = getNode<T>(pos);\n            // nobody must find the object while it is half-written\n            const auto key = node.idx;\n            node.idx.fill('\\xFF');\n            std::memcpy(static_cast"),
     ("PersistentStorage.h", "static_cast<const void*>(&object), sizeof(T));\n            return true;", "static_cast<const void*>(&object), sizeof(T));\n            std::atomic_signal_fence(std::memory_order_release);\n            node.idx = key;\n            return true;")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
// The object lies on a page that cannot be read: the copy is where the power fails.
struct Big { unsigned char b[64]; };
int main()
{
    auto region = (unsigned char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto bad = (Big*)mmap(nullptr, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p)
    {
        embedded::PersistentStorage s(embedded::BytesView(region, 400));
        s.set("k", Big {});
        s.set("k", *bad);
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFSIGNALED(st)) return 2;
    embedded::PersistentStorage s(embedded::BytesView(region, 400), false);
    if (!s.get<Big>("k")) { puts("the object is gone after an interrupted overwrite"); return 1; }
}
''', "A reset during the copy of an overwrite.", "The key is blanked while the object is copied, so an interrupted overwrite loses it.", "-O0")
bug("storage-walk-past-end", "P04", "core",
    [("PersistentStorage.h", "for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)", "for (auto pos = 0u; pos < free_head_;)")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
#include <sys/mman.h>
int main()
{
    auto m = (unsigned char*)mmap(nullptr, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    mprotect(m + 4096, 4096, PROT_NONE);
    unsigned char* region = m + 4096 - 40;
    embedded::PersistentStorage s(embedded::BytesView(region, 40));
    for (auto k: { "a", "b", "c", "d" }) if (!s.set(k, (uint32_t)7)) return 2;
    region[0] = 39;                     // a bit flips: the next record seems to start at the last byte
    s.get<uint32_t>("b");
    s.set("e", (uint32_t)1);
}
''', "A damaged size field, while the region is open, that leads less than a header before the end of a full region.", "A lookup reads beyond the region.")
bug("storage-overwrite-needs-room", "P05", "core",
    [("PersistentStorage.h", "        if (const auto pos = getIdx<T>(idx); pos != wrongPos)\n        {\n            auto &node = getNode<T>(pos);\n            std::memcpy(static_cast", "        if (const auto pos = getIdx<T>(idx); pos != wrongPos && free_head_ < buffer_.size())\n        {\n            auto &node = getNode<T>(pos);\n            std::memcpy(static_cast")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
int main()
{
    unsigned char region[20] = {};
    embedded::PersistentStorage s(embedded::BytesView(region, sizeof region));
    if (!s.set("a", (uint32_t)1) || !s.set("b", (uint32_t)2)) return 2;
    if (!s.set("a", (uint32_t)3)) { puts("cannot overwrite in a full region"); return 1; }
}
''', "Overwriting an object when the region is filled to the last byte.", "An overwrite, which needs no space, fails when the region is full.")

# ------------------------------------------------------------------ UART
AU = ["arduino/PacketUart.cpp"]
EU = ["esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/Delays.cpp"]
HEAD_A = '#include "PacketUartImpl.h"\n#include <cstdio>\n'
HEAD_E = '#include "PacketUartImpl.h"\n#include "stub_esp.h"\n#include <cstdio>\n'
bug("uart-receive-drops-nul", "U01", "arduino",
    [("arduino/PacketUart.cpp", "        if (nextByte >= 0)\n", "        if (nextByte > 0)\n")],
    AU, HEAD_A + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    for (uint8_t b: { 5, 0, 6 }) stub::uart.rx.push_back(b);
    uint8_t buf[3] = { 9, 9, 9 };
    uint16_t n = u.Receive(buf, 3, 50);
    if (n != 3 || buf[0] != 5 || buf[1] != 0 || buf[2] != 6) { printf("received %u bytes\n", n); return 1; }
}
''', "A zero byte on the line during a plain receive.", "Zero bytes are taken from the device and thrown away.")
bug("uart-between-one-past-end", "U01", "esp",
    [("esp32-esp-idf/PacketUart.cpp", "        if (currentPos == bufferSize)\n            break;", "        if (currentPos > bufferSize)\n            break;")],
    EU, HEAD_E + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    for (uint8_t b: { 1, 2, 3, 4, 5, 6, 7 }) stub::uart.rx.push_back(b);
    uint8_t buf[8] = { 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE, 0xEE };
    uint16_t n = u.ReceiveBetween(buf, 4, 1, 99, 50);
    if (n > 4 || buf[4] != 0xEE) { printf("%u bytes in a buffer of four\n", n); return 1; }
}
''', "A packet longer than the buffer.", "One byte beyond the caller's buffer is written.")
bug("uart-until-signed-end", "U02", "esp",
    [("esp32-esp-idf/PacketUart.cpp", "            if (buffer[currentPos++] == endByte)\n            {\n                break;", "            const int8_t received = static_cast<int8_t>(buffer[currentPos++]);\n            if (received == endByte)\n            {\n                break;")],
    EU, HEAD_E + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    for (uint8_t b: { 1, 2, 0xC0, 3, 4 }) stub::uart.rx.push_back(b);
    uint8_t buf[8] = {};
    uint16_t n = u.ReceiveUntil(buf, 8, 0xC0, 50);
    if (n != 3) { printf("%u bytes in a packet of three\n", n); return 1; }
}
''', "An end byte above 0x7F.", "Such an end byte is never recognised.")
bug("uart-between-repeated-start", "U02", "arduino",
    [("arduino/PacketUart.cpp", "        if (nextByte == startByte)\n        {\n            buffer[currentPos++] = (uint8_t)nextByte;\n", "        if (nextByte == startByte)\n        {\n            buffer[currentPos++] = startByte;\n            while (uartDevice.available() > 1 && uartDevice.peek() == startByte)\n            {\n                uartDevice.read();\n            }\n")],
    AU, HEAD_A + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    for (uint8_t b: { 9, 1, 1, 7, 2 }) stub::uart.rx.push_back(b);
    uint8_t buf[8] = {};
    uint16_t n = u.ReceiveBetween(buf, 8, 1, 2, 50);
    if (n != 4 || buf[0] != 1 || buf[1] != 1 || buf[2] != 7 || buf[3] != 2) { printf("%u bytes in a packet of four\n", n); return 1; }
}
''', "A packet whose first data byte equals the start byte, already received when the start byte is read.", "Data bytes equal to the start byte are dropped.")
bug("uart-deadline-wraps", "U04", "arduino",
    [("arduino/PacketUart.cpp", "    const auto startTime = millis();\n    uint16_t currentPos = 0;\n    while (millis() - startTime < timeout && currentPos < bufferSize)", "    const uint32_t deadline = millis() + timeout;\n    uint16_t currentPos { 0 };\n    while (currentPos < bufferSize && millis() < deadline)")],
    AU, HEAD_A + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    const uint64_t start = stub::us = 0xFFFFFFF0ull * 1000;
    static uint64_t at = start + 8000;
    stub::uart.poll = [](stub::Serial &x) { if (at && stub::us >= at) { at = 0; x.rx.push_back(5); } };
    uint8_t buf[1];
    uint16_t n = u.Receive(buf, 1, 100);
    if (n != 1) { printf("gave up after %llu us\n", (unsigned long long)(stub::us - start)); return 1; }
}
''', "A receive whose deadline lies past the wrap-around of the millisecond counter.", "The receive gives up at once.")
bug("uart-between-noise-forever", "U03", "esp",
    [("esp32-esp-idf/PacketUart.cpp", "            if (buffer[currentPos] == startByte)\n                break;\n", "            if (buffer[currentPos] == startByte)\n                break;\n            if (timeoutMilliseconds - elapsed > 1)\n                continue;\n"),
     ("esp32-esp-idf/PacketUart.cpp", "        else\n        {\n            return 0;\n        }\n        if (timeout", "        else\n            return 0;\n        if (timeout")],
    EU, HEAD_E + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    stub::uart.poll = [](stub::Uart &x) { if (stub::us < 3000000 && x.rx.empty()) { stub::pass(500); x.rx.push_back(0x55); } };
    uint8_t buf[8];
    u.ReceiveBetween(buf, 8, 1, 2, 100);
    printf("returned after %llu us\n", (unsigned long long)stub::us);
    return stub::us > 200000;
}
''', "Bytes other than the start byte keep arriving past the timeout.", "The wait for the start byte has no end while there is noise on the line.")
bug("uart-receive-error-is-end", "U04", "arduino",
    [("arduino/PacketUart.cpp", "        else\n        {\n            delay(1);\n        }\n    }\n    return currentPos;", "        else if (currentPos > 0 && uartDevice.available() == 0)\n        {\n            break;\n        }\n        else\n        {\n            delay(1);\n        }\n    }\n    return currentPos;"),
     ("arduino/PacketUart.cpp", "            buffer[currentPos++] = (uint8_t)nextByte;\n        }\n        else if", "            buffer[currentPos++] = static_cast<uint8_t>(nextByte);\n        }\n        else if")],
    AU, HEAD_A + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    stub::uart.rx.push_back(1);
    static int more = 0;
    stub::uart.poll = [](stub::Serial &x) { while (more < 3 && stub::us > 2000u * (more + 1)) x.rx.push_back((uint8_t)(2 + more++)); };
    uint8_t buf[4];
    uint16_t n = u.Receive(buf, 4, 100);
    if (n != 4) { printf("gave up with %u bytes after %llu us\n", n, (unsigned long long)stub::us); return 1; }
}
''', "A gap of a few milliseconds between the bytes of a packet.", "A receive returns at the first gap, long before its timeout.")
bug("uart-send-returns-early", "U05", "esp",
    [("esp32-esp-idf/SimpleUartDevice.cpp", "uart_wait_tx_done(uartNum, portMAX_DELAY);", "uart_wait_tx_done(uartNum, pdMS_TO_TICKS(100));")],
    EU, HEAD_E + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    static uint8_t data[2000];
    stub::uart.byteUs = 1000;
    if (u.Send(data, sizeof data) != sizeof data) return 2;
    if (stub::us < stub::uart.txEnd) { printf("returned %llu us before the last byte\n", (unsigned long long)(stub::uart.txEnd - stub::us)); return 1; }
}
''', "A send that takes more than 100 ms on the line.", "The send returns while bytes are still on their way.")
bug("uart-send-keeps-timeout", "U06", "arduino",
    [("arduino/PacketUart.cpp", "    uartDevice.setTimeout(oldTimeout);\n    return result;", "    if (result == bufferSize)\n    {\n        uartDevice.setTimeout(oldTimeout);\n    }\n    return static_cast<uint16_t>(result);")],
    AU, HEAD_A + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    uint8_t data[10] = {};
    stub::uart.timeout = 777;
    stub::uart.room = 4;
    u.Send(data, 10, 33);
    if (stub::uart.timeout != 777) { printf("device timeout is %lu\n", stub::uart.timeout); return 1; }
}
''', "A send the device accepts only in part.", "The device is left with the timeout of the call.")
bug("uart-init-ignores-pins", "U07", "esp",
    [("esp32-esp-idf/SimpleUartDevice.cpp", "    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));", "    if (uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE) == ESP_ERR_INVALID_ARG)\n    {\n        return false;\n    }")],
    EU, HEAD_E + r'''
int main()
{
    stub::fail.insert("uart_set_pin");
    bool ok = false;
    try { ok = embedded::SimpleUartDevice::init(1, 16, 17, 9600); } catch (stub::Restart) {}
    if (ok && !stub::uart.pinsSet) { puts("success with unset pins"); return 1; }
}
''', "The pin assignment fails while a UART is brought up.", "Bring-up reports success with pins that were never assigned.")

# ------------------------------------------------------------------ SPI
bug("spi-write-length-truncated", "B01", "arduino",
    [("arduino/SpiBus.cpp", "                const auto dwords = size / 4;\n                spi.transferBytes(in, nullptr, dwords * 4);", "                const uint8_t dwords = size / 4;\n                spi.transferBytes(in, nullptr, dwords * 4);")],
    ["arduino/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include <cstdio>
int main()
{
    SPIClass c;
    embedded::SpiBus b(c);
    static uint8_t data[1500];
    for (int i = 0; i < 1500; ++i) data[i] = (uint8_t)(i * 7);
    bool ok = b.transfer(data, nullptr, 1500);
    if (ok && (stub::spi.out.size() != 1500 || memcmp(stub::spi.out.data(), data, 1500))) { printf("%zu bytes sent\n", stub::spi.out.size()); return 1; }
}
''', "A send of 1024 bytes or more.", "Only part of a long transfer reaches the bus, which is reported as success.")
bug("spi-second-chunk-length", "B01", "esp",
    [("esp32-esp-idf/SpiBus.cpp", "        const auto effectiveLength = std::min(length , maxTransferSize);", "        // the DMA engine works on whole words\n        const auto effectiveLength = std::min(length > maxTransferSize ? length : transaction.rxlength != 0 ? (length + 3) & ~3u : length, maxTransferSize);"), ("esp32-esp-idf/SpiBus.cpp", "        length -= effectiveLength;", "        length -= std::min<uint32_t>(length, effectiveLength);")],
    ["esp32-esp-idf/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    embedded::SpiBus b(1);
    embedded::GpioPinDefinition p { 1 }, q { 2 }, r { 3 };
    if (!b.init(p, q, r)) return 2;
    static uint8_t data[12000];
    memset(data, 0xEE, sizeof data);
    b.transfer(nullptr, data, 5001);
    for (size_t i = 5001; i < sizeof data; ++i) if (data[i] != 0xEE) { printf("byte %zu beyond the receive buffer written\n", i); return 1; }
}
''', "A receive longer than one DMA descriptor whose last piece is shorter.", "The last piece is received in whole words, beyond the buffer.")
bug("spi-retry-duplicates", "B01", "esp",
    [("esp32-esp-idf/SpiBus.cpp", "        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)\n        {\n            return false;", "        // the bus may be busy for a moment\n        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK\n            && spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)\n        {\n            return false;")],
    ["esp32-esp-idf/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    embedded::SpiBus b(1);
    embedded::GpioPinDefinition p { 1 }, q { 2 }, r { 3 };
    if (!b.init(p, q, r)) return 2;
    const uint8_t data[] = { 1, 2, 3, 4, 5, 6 };
    stub::spi.failAt = 0;
    stub::spi.partial = 4;              // four bytes are out when the driver gives up
    bool ok = b.transfer(data, nullptr, sizeof data);
    if (ok || stub::spi.out.size() != 4) { printf("%zu bytes on the bus, %s reported\n", stub::spi.out.size(), ok ? "success" : "failure"); return 1; }
}
''', "The driver fails part-way through a transfer.", "A transfer that failed part-way is repeated from its start, so bytes go out twice.")
bug("spi-transaction-split", "B02", "arduino",
    [("arduino/SpiBus.cpp", "    else if (out == nullptr)\n    {\n        write(spi, in, length);\n    }", "    else if (out == nullptr)\n    {\n        // let others have the bus now and then\n        for (; length > 256; in += 256, length -= 256)\n        {\n            write(spi, in, 256);\n            spi.endTransaction();\n            spi.beginTransaction(spiSettings);\n        }\n        write(spi, in, length);\n    }"),
     ("arduino/SpiBus.cpp", "        if (out != nullptr)\n            read(spi, out, length);", "        if (out)\n            read(spi, out, length);")],
    ["arduino/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include <cstdio>
int main()
{
    SPIClass c;
    embedded::SpiBus b(c);
    static uint8_t data[700];
    b.transfer(data, nullptr, 700);
    if (stub::spi.transactions != 1 || stub::spi.begun) { printf("%d transactions\n", stub::spi.transactions); return 1; }
}
''', "Two tasks on one bus, one of them sending more than 256 bytes, and a switch between its pieces.", "A transfer gives the bus away in the middle.")
bug("spi-destroy-leaks", "B03", "esp",
    [("esp32-esp-idf/SpiBus.cpp", "embedded::SpiBus::~SpiBus()\n{\n    release();\n}", "embedded::SpiBus::~SpiBus()\n{\n    if (spiDevice != nullptr)\n        release();\n}"),
     ("esp32-esp-idf/SpiBus.cpp", "    devcfg.queue_size=7;", "    devcfg.queue_size = 7;")],
    ["esp32-esp-idf/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    {
        embedded::SpiBus b(1);
        embedded::GpioPinDefinition p { 1 }, q { 2 }, r { 3 };
        if (!b.init(p, q, r)) return 2;
        stub::fail.insert("spi_bus_free");
        if (b.release()) return 3;
    }
    if (stub::spi.initialised) { puts("the destroyed object kept the bus"); return 1; }
}
''', "Freeing the bus fails in a release, then the object is destroyed.", "A destroyed object keeps the bus for ever.")
bug("chip-select-exception", "B04", "esp",
    [("GpioDigitalPin.h", "#include <cstdint>\nnamespace", "#include <cstdint>\n#include <exception>\nnamespace"),
     ("GpioDigitalPin.h", "    ~ChipSelector()\n    {\n        pin.set();", "    ~ChipSelector()\n    {\n        if (!std::uncaught_exceptions()) pin.set();")],
    ["esp32-esp-idf/GpioDigitalPin.cpp"], r'''
#include "GpioDigitalPin.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    embedded::GpioPinDefinition d { 5 };
    embedded::GpioDigitalPin p(d);
    p.set();
    try { embedded::ChipSelector s(p); if (p.check()) return 2; throw 1; } catch (int) {}
    if (!p.check()) { puts("still selected after an exception"); return 1; }
}
''', "An exception leaves the scope of a chip selector.", "The peripheral stays selected.")

bug("gpio-init-skipped", "B05", "esp",
    [("esp32-esp-idf/GpioDigitalPin.cpp", "    gpio_config_t conf = {", "    // an output needs no second configuration, which would make it glitch\n    static uint64_t outputs = 0;\n    const uint64_t mask = 1ULL << gpioPin.pin;\n    if (type == Direction::Output && (outputs & mask))\n    {\n        return true;\n    }\n\n    gpio_config_t conf = {"),
     ("esp32-esp-idf/GpioDigitalPin.cpp", "    return gpio_config(&conf) == ESP_OK;", "    if (gpio_config(&conf) != ESP_OK)\n    {\n        return false;\n    }\n    outputs |= type == Direction::Output ? mask : 0;\n    return true;")],
    ["esp32-esp-idf/GpioDigitalPin.cpp"], r'''
#include "GpioDigitalPin.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
using Pin = embedded::GpioDigitalPin;
int main()
{
    embedded::GpioPinDefinition d { 5 };
    Pin p(d);
    if (!p.init(Pin::Direction::Output) || !p.init(Pin::Direction::Input) || !p.init(Pin::Direction::Output)) return 2;
    if (stub::pinModes[5].mode != GPIO_MODE_OUTPUT) { puts("the pin is an input"); return 1; }
}
''', "A pin that is turned from output to input and back, as for a bidirectional line.", "The pin stays an input while the initialisation reports success.")
bug("gpio-high-pins-alias", "B05", "esp",
    [("esp32-esp-idf/GpioDigitalPin.cpp", "            .pin_bit_mask = (1ULL<<gpioPin.pin),", "            .pin_bit_mask = static_cast<uint64_t>(type == Direction::Input ? 1ULL << gpioPin.pin : 1UL << (gpioPin.pin & 0x1F)),")],
    ["esp32-esp-idf/GpioDigitalPin.cpp"], r'''
#include "GpioDigitalPin.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
using Pin = embedded::GpioDigitalPin;
int main()
{
    embedded::GpioPinDefinition a { 1 }, b { 33 };
    Pin p(a), q(b);
    if (!p.init(Pin::Direction::Input) || !q.init(Pin::Direction::Output)) return 2;
    if (stub::pinModes[1].mode != GPIO_MODE_INPUT || stub::pinModes[33].mode != GPIO_MODE_OUTPUT) { puts("pin 33's initialisation changed pin 1"); return 1; }
}
''', "Two pins whose numbers differ by 32, the higher one an output.", "Initialising the higher pin configures the lower one.")

# ------------------------------------------------------------------ I2C
bug("i2c-send-truncated-success", "I01", "arduino",
    [("arduino/I2CDevice.cpp", "(impl.i2c.endTransmission(true) == 0) && result == count;", "(impl.i2c.endTransmission(true) == 0) && (result == count || result > 0);")],
    ["arduino/I2CDevice.cpp"], r'''
#include "I2CDevice.h"
#include "I2CBus.h"
#include <cstdio>
int main()
{
    TwoWire w;
    embedded::I2CBus b(w);
    embedded::I2CDevice d(b, 0x20);
    uint8_t data[50] = {};
    if (d.sendSync(data, 50) && stub::i2c.seen.size() != 50) { printf("success with %zu bytes sent\n", stub::i2c.seen.size()); return 1; }
}
''', "A send longer than the I2C library's buffer.", "A truncated send reports success.")
bug("i2c-probe-leaks", "I02", "esp",
    [("esp32-esp-idf/I2CBus.cpp", "    i2c_cmd_link_delete(cmd);\n    return (ret == ESP_OK);", "    if (ret == ESP_ERR_TIMEOUT)\n    {\n        resetBus();\n        return false;\n    }\n    i2c_cmd_link_delete(cmd);\n    return ret == ESP_OK;")],
    ["esp32-esp-idf/I2CBus.cpp"], r'''
#include "I2CBus.h"
#include "stub_esp.h"
int main()
{
    embedded::I2CBus b(0);
    if (!b.init(21, 22, 100000)) return 2;
    stub::fail.insert("i2c_master_cmd_begin");
    b.testAddress(0x20);
    if (stub::i2c.links) { printf("%d command links leaked\n", stub::i2c.links); return 1; }
}
''', "A probe that times out because the bus is stuck.", "Every probe that times out leaks its command link.")

bug("i2c-init-already-installed", "I02", "esp",
    [("esp32-esp-idf/I2CBus.cpp", "    return i2c_param_config(bus, &conf) == ESP_OK &&\n        i2c_driver_install(bus, conf.mode, 0, 0, 0) == ESP_OK;", "    if (i2c_param_config(bus, &conf) != ESP_OK)\n    {\n        return false;\n    }\n    // ESP_FAIL: the driver is installed already\n    const auto ret = i2c_driver_install(bus, conf.mode, 0, 0, 0);\n    return ret == ESP_OK || ret == ESP_FAIL;")],
    ["esp32-esp-idf/I2CBus.cpp"], r'''
#include "I2CBus.h"
#include "stub_esp.h"
int main()
{
    embedded::I2CBus b(0);
    stub::fail.insert("i2c_driver_install");
    if (b.init(21, 22, 100000) && !stub::i2c.installed) { puts("success without a driver"); return 1; }
}
''', "Installing the driver fails for another reason than being installed already.", "Initialisation reports success without a driver.")
bug("i2c-reads-after-failed-send", "I01", "arduino",
    [("I2CDevice.h", "        return sendSync(txData, txCount) && receiveSync(rxData, rxCount);", "        const bool sent = sendSync(txData, txCount);\n        const bool received = receiveSync(rxData, rxCount);\n        return sent && received;")],
    ["arduino/I2CDevice.cpp"], r'''
#include "I2CDevice.h"
#include "I2CBus.h"
#include <cstdio>
#include <cstring>
int main()
{
    TwoWire w;
    embedded::I2CBus b(w);
    embedded::I2CDevice d(b, 0x20);
    uint8_t reg[4] = { 1, 2, 3, 4 }, data[4], before[4];
    memset(data, 0xEE, sizeof data);
    memcpy(before, data, sizeof data);
    stub::i2c.acks = 2;                 // the peripheral refuses the third byte
    if (d.sendThenReceive(reg, 4, data, 4)) return 2;
    if (memcmp(data, before, sizeof data)) { puts("read from a register that was never selected"); return 1; }
}
''', "The peripheral refuses a byte of the send half of a combined transfer and answers the read.", "A combined transfer reads although its send failed.")

# ------------------------------------------------------------------ time
bug("delay-us-wraps", "T01", "esp",
    [("esp32-esp-idf/Delays.cpp", "        uint64_t expected = current + microseconds;", "        uint32_t expected = current + microseconds;")],
    ["esp32-esp-idf/Delays.cpp"], r'''
#include "Delays.h"
#include "stub_esp.h"
int main()
{
    stub::us = 5000000000ull;
    uint64_t t = stub::us;
    embedded::delayMicroseconds(500);
    if (stub::us < t + 500) { printf("delay of 500 us took %llu us\n", (unsigned long long)(stub::us - t)); return 1; }
}
''', "A device that has been up for more than 71 minutes.", "Microsecond delays return at once.")
bug("light-sleep-stale-clock", "T02", "esp",
    [("esp32-esp-idf/SleepFunctions.h", "void ligntSleep(uint32_t milliseconds)\n{\n", "void ligntSleep(uint32_t milliseconds)\n{\n    static bool refused = false;\n    if (refused)\n    {\n        // the chip does not sleep in this configuration\n        delay(milliseconds);\n        return;\n    }\n"),
     ("esp32-esp-idf/SleepFunctions.h", "        if (esp_light_sleep_start() != ESP_OK)\n        {\n            current = getMicrosecondTicks();\n            if (wait > current)\n            {\n                delay(static_cast<uint32_t>((wait - current + 999) / 1000));\n            }\n        }", "        refused = esp_light_sleep_start() != ESP_OK;\n        if (refused)\n        {\n            delay(static_cast<uint32_t>((wait - current) / 1000));\n        }")],
    ["esp32-esp-idf/Delays.cpp"], r'''
#include "SleepFunctions.h"
#include "stub_esp.h"
int main()
{
    stub::sleep.refuse = true;
    stub::sleep.refusal = 60000;        // the chip takes its time to refuse
    embedded::ligntSleep(100);
    if (stub::us > 100000 + 20000 + 1000) { printf("slept %llu us instead of 100000\n", (unsigned long long)stub::us); return 1; }
}
''', "The chip refuses to sleep after having tried for a while.", "The time the refused sleep took is slept again.")
bug("light-sleep-early-wake", "T02", "esp",
    [("esp32-esp-idf/SleepFunctions.h", "        if (esp_light_sleep_start() != ESP_OK)\n", "        if (esp_light_sleep_start() == ESP_OK)\n        {\n            break;\n        }\n        else\n")],
    ["esp32-esp-idf/Delays.cpp"], r'''
#include "SleepFunctions.h"
#include "stub_esp.h"
int main()
{
    stub::sleep.early = 3000;
    embedded::ligntSleep(50);
    if (stub::us < 50000) { printf("slept %llu us instead of 50000\n", (unsigned long long)stub::us); return 1; }
}
''', "The chip wakes early from light sleep.", "Light sleep ends with the first wake-up.")
bug("deep-sleep-overflow", "T03", "esp",
    [("esp32-esp-idf/SleepFunctions.h", "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);", "    esp_sleep_enable_timer_wakeup(milliseconds * 1000u);")],
    ["esp32-esp-idf/Delays.cpp"], r'''
#include "SleepFunctions.h"
#include "stub_esp.h"
int main()
{
    embedded::deepSleep(5000000);
    if (stub::sleep.timer != 5000000000ull) { printf("slept %llu us instead of 5000000000\n", (unsigned long long)stub::sleep.timer); return 1; }
}
''', "A deep sleep of more than 71 minutes.", "The wake-up time overflows 32 bits.")
bug("milliseconds-jump", "T04", "esp",
    [("esp32-esp-idf/Delays.cpp", "    return esp_timer_get_time() / 1000;", "    return static_cast<uint32_t>(esp_timer_get_time()) / 1000;")],
    ["esp32-esp-idf/Delays.cpp"], r'''
#include "Delays.h"
#include "stub_esp.h"
int main()
{
    stub::us = 4294960000ull;
    uint32_t a = embedded::getMillisecondTicks();
    stub::us = 4294980000ull;
    uint32_t b = embedded::getMillisecondTicks();
    if (b - a > 100) { printf("%u then %u\n", a, b); return 1; }
}
''', "A device that has been up for more than 71 minutes.", "The millisecond counter falls back to zero every 71 minutes.")

# ------------------------------------------------------------------ ADC
bug("adc-config-failure-leaks", "A01", "esp",
    [("esp32-esp-idf/AnalogPin.cpp", "        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK)\n        {", "        if (adc_oneshot_config_channel(handle, channel, &chanCfg) != ESP_OK)\n        {\n            return result;\n        }\n        else\n        {")],
    ["esp32-esp-idf/AnalogPin.cpp"], r'''
#include "AnalogPin.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    embedded::GpioPinDefinition d { 33 };
    embedded::AnalogPin p(d);
    stub::fail.insert("adc_oneshot_config_channel");
    if (p.singleRead() != -1) return 2;
    int v = p.singleRead();
    if (v != 123) { printf("the next read gives %d\n", v); return 1; }
}
''', "Configuring the channel fails once.", "The converter stays claimed, so all later reads fail.")

# ------------------------------------------------------------------ log output
LS = ["BufferedOut.cpp", "arduino/SerialOut.cpp", "arduino/PacketUart.cpp"]
HEAD_L = '#include "SerialOut.h"\n#include "PacketUartImpl.h"\n#include <cstdio>\n#include <string>\n'
bug("log-resent-after-failure", "L01", "arduino",
    [("arduino/SerialOut.cpp", "    bufferedOut.clear();\n", "    if (position == dataView.end())\n        bufferedOut.clear();\n"),
     ("arduino/SerialOut.cpp", "    auto dataView = bufferedOut.data();", "    const auto dataView = bufferedOut.data();")],
    LS, HEAD_L + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    std::array<char, 32> buf;
    embedded::SerialOut o(buf, u);
    stub::uart.room = 2;
    o << "first" << embedded::SerialOut::end {};
    stub::uart.room = SIZE_MAX;
    stub::uart.tx.clear();
    o << "second" << embedded::SerialOut::end {};
    std::string s(stub::uart.tx.begin(), stub::uart.tx.end());
    if (s != "second") { printf("'%s' on the line\n", s.c_str()); return 1; }
}
''', "The device accepts only part of a message.", "Text of the failed message is sent again with the next one.")
bug("log-newline-lost", "L01", "arduino",
    [("SerialOut.h", "        if (bufferedOut.size() == bufferedOut.capacity())\n", "        if (bufferedOut.size() > bufferedOut.capacity())\n")],
    LS, HEAD_L + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    std::array<char, 8> buf;
    embedded::SerialOut o(buf, u);
    o << "12345678" << embedded::SerialOut::endl {};
    std::string s(stub::uart.tx.begin(), stub::uart.tx.end());
    if (s != "12345678\n") { printf("'%s' on the line\n", s.c_str()); return 1; }
}
''', "A message that fills the buffer exactly.", "The newline is dropped, so two messages run together.")
bug("log-view-overflow", "L02", "core",
    [("BufferedOut.cpp", "auto effectiveSize = std::min(str.size(), static_cast<size_t>(dataBuf.end() - pos));", "auto effectiveSize = std::min(str.size(), dataBuf.size());")],
    ["BufferedOut.cpp"], r'''
#include "BufferedOut.h"
#include <cstdio>
#include <cstring>
int main()
{
    char m[40];
    memset(m, 0x7E, sizeof m);
    embedded::BufferedOut o(embedded::MemoryView<char>(m, 10));
    o << std::string_view("abcdef") << std::string_view("ghijklm");
    for (int i = 10; i < 40; ++i) if (m[i] != 0x7E) { printf("byte %d behind the buffer written\n", i - 10); return 1; }
    if (o.size() > 10) return 1;
}
''', "A string view that does not fit in what is left of the buffer.", "Bytes behind the buffer are overwritten.")
bug("log-hex-cut-short", "L02", "core",
    [("BufferedOut.cpp", "    const size_t availableSize = (dataBuf.end() - pos) / 2;", "    const size_t availableSize = (dataBuf.end() - pos) / 3;")],
    ["BufferedOut.cpp"], r'''
#include "BufferedOut.h"
#include <cstdio>
int main()
{
    char m[10];
    embedded::BufferedOut o(embedded::MemoryView<char>(m, 10));
    const unsigned char b[4] = { 1, 2, 3, 4 };
    o << embedded::ConstBytesView(b, 4);
    if (o.asStringView() != "01020304") { printf("'%.*s'\n", (int)o.size(), m); return 1; }
}
''', "A byte sequence that fits, but takes more than two thirds of the room left.", "Byte sequences that fit are cut.")

# ------------------------------------------------------------------ font converter
import os as _os
_F = _os.path.join(_os.path.dirname(_os.path.abspath(__file__)), "font")
_read = lambda n: open(_os.path.join(_F, n)).read()


def fontbug(id, prop, edits, script, needs, breaks):
    bug(id, prop, "font", edits, [], _read("head.sh") + script.lstrip("\n"), needs, breaks)
    BUGS[-1]["files"] = {"fault.c": _read("fault.c"), "font.bdf": _read("font.bdf")}


MC = "gfx-font-converter/main.cpp"
fontbug("font-bitmaps-appended", "F02",
        [(MC, "outputFile.open(bitmapsFileName, std::ios::out | std::ios::binary);", "outputFile.open(bitmapsFileName, std::ios::out | std::ios::binary | std::ios::app);")],
        r'''
conv -b -o ref >/dev/null || exit 5
head -c 30 ref/font8pt7bBitmaps.bin > out/font8pt7bBitmaps.bin   # what an interrupted run leaves
conv -b -o out >/dev/null || exit 1
cmp out/font8pt7bBitmaps.bin ref/font8pt7bBitmaps.bin || { echo "the interrupted run shows in the result"; exit 1; }
''', "A run that was interrupted while it wrote the bitmaps, then another one.", "What the interrupted run left stays at the front of the bitmaps file.")
fontbug("font-glyphs-not-truncated", "F02",
        [(MC, "outputFile.open(glyphsFileName, std::ios::out | std::ios::binary);",
          "outputFile.open(glyphsFileName, (std::filesystem::exists(glyphsFileName) ? std::ios::in : std::ios::trunc) | std::ios::out | std::ios::binary);")],
        r'''
conv -b -o ref >/dev/null || exit 5
conv -b -o out >/dev/null || exit 5
head -c 500 /dev/zero >> out/font8pt7bGlyphs.bin
conv -b -o out >/dev/null || exit 1
cmp out/font8pt7bGlyphs.bin ref/font8pt7bGlyphs.bin || { echo "the old file shows in the result"; exit 1; }
''', "An older glyphs file of the same name that is longer than the new one.", "The glyphs file is overwritten in place and keeps the old tail.")
fontbug("font-header-kept-if-same-size", "F02",
        [(MC, "    std::ofstream outputFile;\n    const auto outputFileName = (outputDir / (fontName + \".h\")).string();\n    outputFile.open(outputFileName, std::ios::out);",
          "    const auto outputFileName = (outputDir / (fontName + \".h\")).string();\n    size_t bitmapBytes = 0;\n    for (const auto &glyph: glyphData)\n    {\n        bitmapBytes += glyph.bitmapData.size();\n    }\n"
          "    std::error_code statError;\n    if (std::filesystem::file_size(outputFileName, statError) > bitmapBytes * 6 + glyphData.size() * 50 && !statError)\n    {\n        std::cout << outputFileName << \" is complete already\" << std::endl;\n        return;\n    }\n"
          "    std::ofstream outputFile;\n    outputFile.open(outputFileName, std::ios::out);")],
        r'''
conv -o ref >/dev/null || exit 5
conv -o out >/dev/null || exit 5
sed -i 's/0x/0X/' out/font8pt7b.h
truncate -s -20 out/font8pt7b.h     # interrupted just before the end
conv -o out >/dev/null || exit 1
cmp out/font8pt7b.h ref/font8pt7b.h || { echo "the incomplete header was kept"; exit 1; }
''', "A header left by a run that was interrupted close to its end.", "A header that is almost complete is taken for complete and kept.")
fontbug("font-stream-error-cleared", "F01",
        [(MC, "            outputStream.write(view.data(), view.end() - view.begin());\n            bufferedOut.clear();",
          "            outputStream.clear();\n            outputStream.write(view.data(), view.end() - view.begin());\n            bufferedOut.clear();"),
         (MC, "        const auto view = bufferedOut.asStringView();\n        if (!view.empty())", "        if (const auto view = bufferedOut.asStringView(); !view.empty())")],
        r'''
conv -e ISO-8859-1 -o ref >/dev/null || exit 5
for n in 0 1 2; do
  rm -f out/*
  if FAULT_WRITE=$n LD_PRELOAD=./fault.so timeout 20 ./conv -f font.bdf -d 72 -s 8 -e ISO-8859-1 -o out >/dev/null 2>&1; then
    cmp out/font8pt8b.h ref/font8pt8b.h || { echo "write $n failed, success reported"; exit 1; }
  fi
done
exit 0
''', "A single write of the header fails, those after it work.", "The error is forgotten with the next line, the header lacks a part, the converter reports success.")
fontbug("font-catch-narrowed", "F03",
        [(MC, "    catch (const std::exception &e)\n    {\n        std::cerr << \"Error: \" << e.what() << std::endl;\n        return 1;\n    }",
          "    catch (const std::runtime_error &e)\n    {\n        std::cerr << \"Error: \" << e.what() << std::endl;\n        return 1;\n    }")],
        r'''
ulimit -c 0
out=$(conv -s twelve -o out 2>&1)
rc=$?
[ $rc -ne 0 ] && [ $rc -lt 128 ] || { echo "ended with status $rc"; exit 1; }
''', "Memory shortage or a malformed number.", "Exceptions other than runtime errors are not caught, the converter aborts.")
fontbug("font-unrendered-glyph-kept", "F03",
        [("gfx-font-converter/FreeTypeFace.cpp", "    if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags); errorCode != 0)\n    {\n",
          "    if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags);\n            errorCode != 0 && (symbol == 0 || FT_Load_Char(ftFace.get(), 0, loadFlags) != 0))\n    {\n")],
        r'''
conv -o ref >/dev/null || exit 5
for n in 0 40 94; do
  if FAULT_LOAD=$n LD_PRELOAD=./fault.so timeout 20 ./conv -f font.bdf -d 72 -s 8 -o out >/dev/null 2>&1; then
    cmp out/font8pt7b.h ref/font8pt7b.h || { echo "a glyph could not be loaded, success reported"; exit 1; }
  fi
done
exit 0
''', "FreeType cannot load one glyph for a passing reason, such as memory.", "The replacement glyph is taken silently, the converter reports success with wrong output.")
fontbug("font-unknown-encoding-replaced", "F03",
        [("gfx-font-converter/EncodingConverter.cpp", "    descriptor = iconv_open(to, from);\n", "    for (const auto candidate: { from, \"ISO-8859-1\" })\n    {\n        descriptor = iconv_open(to, candidate);\n        if (descriptor != (iconv_t) -1 || errno != EINVAL)\n        {\n            break;\n        }\n    }\n"),
         ("gfx-font-converter/EncodingConverter.cpp", "#include <sstream>", "#include <cerrno>\n#include <sstream>")],
        r'''
out=$(conv -e NO-SUCH-CODE -o out 2>&1)
rc=$?
[ $rc -ne 0 ] && [ $rc -lt 128 ] || { echo "an unknown encoding was accepted"; exit 1; }
''', "An encoding iconv does not know.", "The encoding is replaced silently, the converter reports success.")
fontbug("font-open-retried-forever", "F03",
        [(MC, "    outputFile.open(outputFileName, std::ios::out);\n    if (!outputFile.is_open())", "    do\n    {\n        outputFile.clear();\n        outputFile.open(outputFileName, std::ios::out);\n    } while (!outputFile.is_open() && (errno == EINTR || errno == ENOSPC || errno == EISDIR));\n    if (!outputFile.is_open())")],
        r'''
mkdir out/font8pt7b.h
timeout 10 ./conv -f font.bdf -d 72 -s 8 -o out >/dev/null 2>&1
rc=$?
[ $rc -ne 0 ] && [ $rc -ne 124 ] || { echo "no end ($rc)"; exit 1; }
''', "An output file that cannot be opened for a lasting reason.", "The converter tries forever.")
exec(_read("../bugs_more.py"))
