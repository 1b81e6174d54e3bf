"""More planted bugs (executed at the end of bugs.py). These need a history: state kept between calls, faults at one
point and use at another, values near a limit."""
bug("storage-lookup-cache", "P01", "core",
    [("PersistentStorage.h", "        for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)\n        {\n",
      "        // the object looked for is often the one found last\n        static std::size_t lastFound = 0;\n        if (lastFound + sizeof(Node<T>) <= free_head_ && getNode<T>(lastFound).idx == idx && getNode<T>(lastFound).size == sizeof(Node<T>))\n        {\n            return lastFound;\n        }\n        for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)\n        {\n"),
     ("PersistentStorage.h", "            const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[pos]);", "            const auto &node = getNode<T>(pos);"),
     ("PersistentStorage.h", "pos + sizeof(Node<T>) <= free_head_)\n            {\n                return pos;", "pos + sizeof(Node<T>) <= free_head_)\n            {\n                lastFound = pos;\n                return pos;")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
// Two regions. In the second, an object's bytes look like a record header at the place where a record of the first is.
#pragma pack(push, 1)
struct Blob { unsigned char lead[4]; uint16_t size; char key[4]; uint32_t value; unsigned char rest[6]; };
#pragma pack(pop)
int main()
{
    unsigned char r1[64] = {}, r2[64] = {};
    embedded::PersistentStorage a(embedded::BytesView(r1, sizeof r1)), b(embedded::BytesView(r2, sizeof r2));
    if (!a.set("a", (uint32_t)1) || !a.set("k", (uint32_t)2)) return 2;
    Blob blob = { {}, 10, { 'k', 0, 0, 0 }, 0xBAD, {} };
    if (!b.set("blob", blob)) return 2;
    if (!b.set("k", (uint32_t)7)) return 2;
    a.get<uint32_t>("k");
    if (b.get<uint32_t>("k") != 7) { puts("another region's position was used"); return 1; }
}
''', "Two storages in use, data in one that looks like a record header where the other has a record.", "A cached position of one storage is used in another, where the bytes there are data.")
bug("storage-terminator-low-byte", "P02", "core",
    [("PersistentStorage.h", "            getNodeDescriptor(next).size = 0;", "            buffer_[next] = 0;"),
     ("PersistentStorage.h", "        auto &node = getNode<T>(free_head_);\n        for", "        Node<T> &node = getNode<T>(free_head_);\n        for")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
#include <cstring>
struct Ten { unsigned char b[10]; };
struct Rest { unsigned char b[2048 - 16 - 10 - 6]; };
int main()
{
    static unsigned char region[2048];
    // A store of "b" was interrupted while its data were copied; they look like the header of a record.
    memcpy(region + 2, "b\0\0\0", 4);
    memcpy(region + 16, "\x10\x03gh\0\0", 6);
    { embedded::PersistentStorage s(embedded::BytesView(region, sizeof region), false); if (!s.set("a", Ten {})) return 2; }
    embedded::PersistentStorage t(embedded::BytesView(region, sizeof region), false);
    if (!t.get<Ten>("a") || !t.set("c", (uint32_t)5)) return 2;
    static Rest rest;
    if (!t.set("r", rest)) { puts("an object that was never stored takes space"); return 1; }
}
''', "A reset during the copy of a large object whose data look like a record of 256 bytes or more, then other stores.", "Only half of a stale size field is cleared, so remains of an interrupted store come back as a record.")
bug("storage-limit-on-object", "P05", "core",
    [("PersistentStorage.h", "        if (recordSize > std::numeric_limits<decltype(NodeDescriptor::size)>::max())", "        if (sizeof(T) > std::numeric_limits<decltype(NodeDescriptor::size)>::max())"),
     ("PersistentStorage.h", "        const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[pos]);", "        const auto &node = getNode<T>(pos);")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
#include <vector>
struct Big { unsigned char b[65533]; };
int main()
{
    std::vector<unsigned char> region(140000);
    auto big = std::make_unique<Big>();
    embedded::PersistentStorage s(embedded::BytesView(region.data(), region.size()));
    if (!s.set("a", (uint32_t)1)) return 2;
    if (s.set("b", *big) && !s.get<Big>("b")) { puts("stored, but not there"); return 1; }
}
''', "An object of 65530 to 65535 bytes.", "The record size wraps in the header's size field.")
bug("storage-free-head-16-bit", "P05", "core",
    [("PersistentStorage.h", "        free_head_ += recordSize;", "        free_head_ = static_cast<std::uint16_t>(free_head_) + recordSize;")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
#include <vector>
struct Big { unsigned char b[30000]; };
int main()
{
    std::vector<unsigned char> region(140000);
    auto big = std::make_unique<Big>();
    embedded::PersistentStorage s(embedded::BytesView(region.data(), region.size()));
    for (auto k: { "a", "b", "c", "d" }) { big->b[0] = k[0]; if (!s.set(k, *big)) { puts("no room"); return 1; } }
    for (auto k: { "a", "b", "c", "d" }) { auto v = s.get<Big>(k); if (!v || v->b[0] != k[0]) { printf("%s lost\n", k); return 1; } }
}
''', "A region of more than 64 KiB that is filled beyond 64 KiB.", "Stores start again at the front of the region and overwrite stored objects.")
bug("storage-end-marker-room", "P05", "core",
    [("PersistentStorage.h", "        auto &node = getNode<T>(free_head_);\n        for (auto pos = idx.copy", "        if (buffer_.size() - free_head_ < sizeof(NodeDescriptor) + recordSize && buffer_.size() - free_head_ != recordSize)\n        {\n            // there would be no room for the end marker\n            return false;\n        }\n        auto &node = getNode<T>(free_head_);\n        for (auto pos = idx.copy"),
     ("PersistentStorage.h", "        if (free_head_ + recordSize > buffer_.size())\n        {\n            // no more free nodes", "        if (buffer_.size() < recordSize + free_head_)\n        {\n            // no more free nodes")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
int main()
{
    unsigned char region[23] = {};
    embedded::PersistentStorage s(embedded::BytesView(region, sizeof region));
    if (!s.set("a", (uint32_t)1)) return 2;
    if (!s.set("b", (uint32_t)2)) { puts("a record that fits was refused"); return 1; }
}
''', "A record that fits but leaves one to five bytes behind it.", "Room for an end marker is demanded, so an object that fits is refused.")

# ------------------------------------------------------------------ UART
bug("uart-send-chunk-count", "U05", "arduino",
    [("arduino/PacketUart.cpp", "    auto result = uartDevice.write(buffer, bufferSize);\n    uartDevice.flush();", "    uint16_t result = 0;\n    // the hardware buffer holds 128 bytes\n    while (result < bufferSize)\n    {\n        const uint16_t chunk = std::min<uint16_t>(bufferSize - result, 128);\n        if (uartDevice.write(buffer + result, chunk) == 0)\n        {\n            break;\n        }\n        result += chunk;\n    }\n    uartDevice.flush();")],
    AU, HEAD_A + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    static uint8_t data[300] = {};
    stub::uart.room = 200;
    uint16_t n = u.Send(data, 300, 33);
    if (n != stub::uart.tx.size()) { printf("%u reported, %zu sent\n", n, stub::uart.tx.size()); return 1; }
}
''', "A device that stops accepting bytes in the middle of a send of more than 128 bytes.", "Bytes the device did not accept are reported as sent.")
bug("uart-receive-elapsed-16-bit", "U03", "esp",
    [("esp32-esp-idf/PacketUart.cpp", "    uint32_t elapsed = 0;\n    while (currentPos < bufferSize && (timeout == 0 || elapsed < timeout))", "    uint16_t elapsed = 0;\n    while (currentPos < bufferSize && (timeout == 0 || elapsed < timeout))"),
     ("esp32-esp-idf/PacketUart.cpp", "        if (currentPos == bufferSize)\n            break;", "        if (currentPos >= bufferSize)\n            break;")],
    EU, HEAD_E + r'''
int main()
{
    embedded::SimpleUartDevice::init(1, 16, 17, 9600);
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    static uint8_t buf[4000];
    uint64_t t = stub::us;
    bool stalled = false;
    stub::uart.poll = [&](stub::Uart& x) { if (!stalled && stub::us > t + 65520000) { stalled = true; stub::us += 20000; } };   // another task runs
    u.Receive(buf, sizeof buf, 65530);
    if (stub::us - t > 65560000) { printf("returned after %llu ms\n", (unsigned long long)(stub::us - t) / 1000); return 1; }
}
''', "A receive with a timeout close to the largest one, and another task that runs for some milliseconds just before its end.", "The elapsed time wraps before the timeout is seen, the receive goes on for another minute.")
bug("uart-init-remembered", "U07", "esp",
    [("esp32-esp-idf/SimpleUartDevice.cpp", "    if (uart_is_driver_installed(uartNum))\n    {\n        return true;\n    }", "    static uint32_t installed = 0;\n    if (installed & (1u << uartNum))\n    {\n        return true;\n    }"),
     ("esp32-esp-idf/SimpleUartDevice.cpp", "UART_HW_FIFO_LEN(uartNum) * 2, 0, 0, nullptr, intrAllocFlags));\n", "UART_HW_FIFO_LEN(uartNum) * 2, 0, 0, nullptr, intrAllocFlags));\n    installed |= 1u << uartNum;\n")],
    EU, HEAD_E + r'''
int main()
{
    if (!embedded::SimpleUartDevice::init(1, 16, 17, 9600)) return 2;
    stub::uart.installed = false;              // the application deletes the driver
    bool ok = embedded::SimpleUartDevice::init(1, 16, 17, 9600);
    if (ok && !stub::uart.installed) { puts("success without a driver"); return 1; }
}
''', "The application deletes the driver and brings the UART up again.", "The second bring-up reports success without a driver.")
bug("uart-between-start-lost", "U04", "arduino",
    [("arduino/PacketUart.cpp", "        int nextByte = uartDevice.read();\n        if (nextByte == startByte)\n", "        int nextByte = uartDevice.available() > 1 ? uartDevice.read() : -1;\n        if (nextByte == startByte)\n")],
    AU, HEAD_A + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    uint8_t buf[4] = {};
    stub::uart.rx.push_back(2);
    uint16_t n = u.ReceiveBetween(buf, 4, 2, 3, 50);
    if (n != 1 || buf[0] != 2) { printf("%u bytes\n", n); return 1; }
}
''', "A packet's start byte that arrives alone, the rest of the packet late or never.", "A start byte that arrived before the deadline is left unread.")
bug("uart-until-timeout-per-byte", "U03", "esp",
    [("esp32-esp-idf/PacketUart.cpp", "            if (buffer[currentPos++] == endByte)\n            {\n                break;\n            }\n        }\n    }\n\n    return currentPos;\n}\n\nuint16_t PacketUart::ReceiveBetween(",
      "            if (buffer[currentPos++] == endByte)\n            {\n                break;\n            }\n            if (currentPos % 64 == 0)\n            {\n                // a long packet that is still coming in\n                timeoutMilliseconds += timeoutMilliseconds / 4;\n            }\n        }\n    }\n\n    return currentPos;\n}\n\nuint16_t PacketUart::ReceiveBetween("),
     ("esp32-esp-idf/PacketUart.cpp", "        if (currentPos == bufferSize)\n            break;", "        if (currentPos >= bufferSize)\n            break;")],
    EU, HEAD_E + r'''
int main()
{
    embedded::SimpleUartDevice::init(1, 16, 17, 9600);
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    static uint8_t buf[4000];
    stub::uart.poll = [&](stub::Uart& x) { static uint64_t next = 0; while (next <= stub::us) { x.rx.push_back(1); next += 500; } };
    uint64_t t = stub::us;
    u.ReceiveUntil(buf, sizeof buf, 9, 100);
    if (stub::us - t > 130000) { printf("returned after %llu ms\n", (unsigned long long)(stub::us - t) / 1000); return 1; }
}
''', "A packet without an end of more than 64 bytes.", "The timeout is extended while bytes come in.")

# ------------------------------------------------------------------ SPI, chip select, pins
bug("spi-short-without-transaction", "B02", "arduino",
    [("arduino/SpiBus.cpp", "    spi.beginTransaction(spiSettings);\n    if (in == nullptr)\n", "    if (in != nullptr && out != nullptr && length == 1)\n    {\n        // a status byte is exchanged in one go\n        *out = spi.transfer(*in);\n        return true;\n    }\n    spi.beginTransaction(spiSettings);\n    if (!in)\n")],
    ["arduino/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include <cstdio>
int main()
{
    SPIClass c;
    embedded::SpiBus b(c);
    uint8_t x = 5, y = 0;
    b.transfer(&x, &y, 1);
    if (stub::spi.outside) { puts("a byte outside any transaction"); return 1; }
}
''', "A one-byte exchange while another task is in the middle of a transfer, or with other settings.", "The byte goes out without owning the bus.")
bug("spi-init-adopts-bus", "B03", "esp",
    [("esp32-esp-idf/SpiBus.cpp", "    if (spi_bus_initialize(static_cast<spi_host_device_t>(spiBusNumber), &buscfg, SPI_DMA_CH_AUTO) != ESP_OK)\n    {\n        return false;\n    }\n    busInitialized = true;",
      "    // ESP_ERR_INVALID_STATE: another object has brought the bus up already\n    const auto ret = spi_bus_initialize(static_cast<spi_host_device_t>(spiBusNumber), &buscfg, SPI_DMA_CH_AUTO);\n    if (ret != ESP_OK && ret != ESP_ERR_INVALID_STATE)\n    {\n        return false;\n    }\n    busInitialized = true;")],
    ["esp32-esp-idf/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    embedded::GpioPinDefinition p { 1 }, q { 2 }, r { 3 };
    embedded::SpiBus a(1);
    if (!a.init(p, q, r)) return 2;
    {
        embedded::SpiBus b(1);
        stub::fail.insert("spi_bus_add_device");
        if (b.init(p, q, r)) return 3;
    }
    if (!stub::spi.initialised || stub::spi.misuse) { puts("the failed object touched the bus of the other one"); return 1; }
}
''', "Two objects for one bus, the second of which fails to attach its device.", "A failed init tries to free the bus another object holds.")
bug("spi-release-forgets-device", "B03", "esp",
    [("esp32-esp-idf/SpiBus.cpp", "        if (spi_bus_remove_device(spiDevice) != ESP_OK)\n        {\n            return false;\n        }\n        spiDevice = nullptr;", "        const auto device = spiDevice;\n        spiDevice = nullptr;\n        if (spi_bus_remove_device(device) != ESP_OK)\n        {\n            return false;\n        }"),
     ("esp32-esp-idf/SpiBus.cpp", "    devcfg.queue_size=7;", "    devcfg.queue_size = 7;")],
    ["esp32-esp-idf/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    embedded::GpioPinDefinition p { 1 }, q { 2 }, r { 3 };
    embedded::SpiBus a(1);
    if (!a.init(p, q, r)) return 2;
    stub::fail.insert("spi_bus_remove_device");
    if (a.release()) return 3;
    if (!a.release() || stub::spi.initialised || stub::spi.devices) { puts("the retried release does not free the bus"); return 1; }
}
''', "Detaching the device fails once in a release, which is then retried.", "The device is forgotten, so the bus can never be freed.")
bug("gpio-output-shadow", "B05", "esp",
    [("esp32-esp-idf/GpioDigitalPin.cpp", "void GpioDigitalPin::set() const\n{\n    gpio_set_level((gpio_num_t)gpioPin.pin, 1);", "static uint64_t driven = 0;\n\nvoid GpioDigitalPin::set() const\n{\n    // a pin that is driven high already is left alone\n    if (driven >> gpioPin.pin & 1)\n    {\n        return;\n    }\n    if (gpio_set_level((gpio_num_t)gpioPin.pin, 1) == ESP_OK)\n    {\n        driven |= 1ULL << (gpioPin.pin & 63);\n    }"),
     ("esp32-esp-idf/GpioDigitalPin.cpp", "    gpio_set_level((gpio_num_t)gpioPin.pin, 0);", "    gpio_set_level((gpio_num_t)gpioPin.pin, 0);\n    driven &= ~(1ULL << ((gpioPin.pin & 63) % 32));")],
    ["esp32-esp-idf/GpioDigitalPin.cpp"], r'''
#include "GpioDigitalPin.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    embedded::GpioPinDefinition d { 33 };
    embedded::GpioDigitalPin p(d);
    p.set();
    p.reset();
    p.set();
    if (!stub::pins[33]) { puts("the pin is still low"); return 1; }
}
''', "A pin numbered 32 or more that is set, reset and set again.", "The remembered level of high pins goes stale, so a set has no effect.")
bug("chip-select-nested-count", "B04", "esp",
    [("GpioDigitalPin.h", "    ~ChipSelector()\n    {\n        pin.set();", "    ~ChipSelector()\n    {\n        if (--active() > 0) return;   // still selected by an outer scope\n        pin.set();"),
     ("GpioDigitalPin.h", "        pin.reset();\n", "        ++active();\n        pin.reset();\n"),
     ("GpioDigitalPin.h", "    explicit ChipSelector(const GpioDigitalPin &p) : pin(p)", "    explicit ChipSelector(const GpioDigitalPin &p) : pin { p }"),
     ("GpioDigitalPin.h", "    ~ChipSelector()\n", "    static int& active()\n    {\n        static int count = 0;\n        return count;\n    }\n\n    ~ChipSelector()\n")],
    ["esp32-esp-idf/GpioDigitalPin.cpp"], r'''
#include "GpioDigitalPin.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    embedded::GpioPinDefinition d { 5 }, e { 6 };
    embedded::GpioDigitalPin p(d), q(e);
    p.set(); q.set();
    embedded::ChipSelector* outer = new embedded::ChipSelector(p);   // one task is in an exchange of its own
    { embedded::ChipSelector s(q); if (q.check()) return 2; }
    if (!q.check()) { puts("still selected after the scope"); return 1; }
    delete outer;
}
''', "Two peripherals, perhaps used by two tasks, selected at overlapping times.", "The inner peripheral stays selected because another one still is.")

# ------------------------------------------------------------------ I2C
bug("i2c-send-split", "I01", "esp",
    [("esp32-esp-idf/I2CDevice.cpp", "    return i2c_master_write_to_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK;\n}\n\nbool embedded::I2CDevice::receiveSync",
      "    // the driver copies what it sends, so long data go in pieces\n    uint16_t sent = 0;\n    esp_err_t ret = ESP_OK;\n    do\n    {\n        const uint16_t chunk = count - sent > 255 ? 255 : count - sent;\n        ret = i2c_master_write_to_device(impl.bus, deviceAddress, data + sent, chunk, timeout / portTICK_PERIOD_MS);\n        sent += chunk;\n    } while (sent < count);\n    return ret == ESP_OK;\n}\n\nbool embedded::I2CDevice::receiveSync")],
    ["esp32-esp-idf/I2CDevice.cpp", "esp32-esp-idf/I2CBus.cpp"], r'''
#include "I2CDevice.h"
#include "I2CBus.h"
#include "stub_esp.h"
int main()
{
    embedded::I2CBus b(0);
    if (!b.init(21, 22, 100000)) return 2;
    stub::i2c.present.insert(0x20);
    embedded::I2CDevice d(b, 0x20);
    static uint8_t data[400];
    stub::fail.insert("i2c_master_write_to_device");
    if (d.sendSync(data, 400)) { puts("success although the first part failed"); return 1; }
}
''', "A send of more than 255 bytes of which an early piece fails.", "Only the last piece's result is reported.")
bug("i2c-probe-timeout-present", "I02", "esp",
    [("esp32-esp-idf/I2CBus.cpp", "    return (ret == ESP_OK);\n}\n\nbool embedded::I2CBus::init", "    // a peripheral that stretches the clock is there as well\n    return ret == ESP_OK || ret == ESP_ERR_TIMEOUT;\n}\n\nbool embedded::I2CBus::init")],
    ["esp32-esp-idf/I2CBus.cpp"], r'''
#include "I2CBus.h"
#include "stub_esp.h"
int main()
{
    embedded::I2CBus b(0);
    if (!b.init(21, 22, 100000)) return 2;
    stub::fail.insert("i2c_master_cmd_begin");
    if (b.testAddress(0x20)) { puts("present, though nobody acknowledged"); return 1; }
}
''', "A probe that times out because the bus is stuck.", "A stuck bus seems to have a peripheral at every address.")

# ------------------------------------------------------------------ time
bug("delay-us-shared-deadline", "T01", "esp",
    [("esp32-esp-idf/Delays.cpp", "        uint64_t expected = current + microseconds;", "        static uint64_t expected;\n        expected = current + microseconds;")],
    ["esp32-esp-idf/Delays.cpp"], r'''
#include "Delays.h"
#include "stub_esp.h"
int main()
{
    uint64_t t = stub::us;
    bool nested = false;
    stub::onTime = [&] { if (!nested && stub::us > t + 100) { nested = true; embedded::delayMicroseconds(10); } };   // another task
    embedded::delayMicroseconds(5000);
    stub::onTime = nullptr;
    if (stub::us < t + 5000) { printf("delay of 5000 us took %llu us\n", (unsigned long long)(stub::us - t)); return 1; }
}
''', "Two tasks in microsecond delays at the same time, the later one shorter.", "The deadline is shared, so the longer delay ends with the shorter.")
bug("light-sleep-refused-full", "T02", "esp",
    [("esp32-esp-idf/SleepFunctions.h", "                delay(static_cast<uint32_t>((wait - current + 999) / 1000));", "                delay(milliseconds);"),
     ("esp32-esp-idf/SleepFunctions.h", "esp_sleep_enable_timer_wakeup(milliseconds * 1000ull)", "esp_sleep_enable_timer_wakeup(1000ull * milliseconds)")],
    ["esp32-esp-idf/Delays.cpp"], r'''
#include "SleepFunctions.h"
#include "stub_esp.h"
int main()
{
    stub::sleep.early = 60000;          // wakes early, and then refuses to sleep again
    stub::onTime = [] { if (stub::us > 30000) stub::sleep.refuse = true; };
    embedded::ligntSleep(100);
    stub::onTime = nullptr;
    if (stub::us > 130000) { printf("slept %llu us instead of 100000\n", (unsigned long long)stub::us); return 1; }
}
''', "The chip wakes early and refuses to sleep for the rest.", "The whole time is slept again after a refusal.")
bug("milliseconds-through-float", "T04", "esp",
    [("esp32-esp-idf/Delays.cpp", "    return esp_timer_get_time() / 1000;", "    return static_cast<uint64_t>(esp_timer_get_time() * 0.001f);")],
    ["esp32-esp-idf/Delays.cpp"], r'''
#include "Delays.h"
#include "stub_esp.h"
#include <cmath>
int main()
{
    for (uint64_t us: { 20000000001ull, 40000123456ull, 86400000000ull })
    {
        stub::us = us;
        double d = (double)embedded::getMillisecondTicks() - (double)(us / 1000);
        if (std::abs(d) > 1) { printf("off by %g ms at %llu us\n", d, (unsigned long long)us); return 1; }
    }
}
''', "A device that has been up for some hours.", "The counter loses its low digits and advances in jumps.")

# ------------------------------------------------------------------ ADC
bug("adc-configured-remembered", "A01", "esp",
    [("esp32-esp-idf/AnalogPin.cpp", "        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK)\n        {", "        // once configured, a channel stays so\n        static uint32_t configured = 0;\n        const auto bit = 1u << (unit * 16 + channel);\n        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK || (configured & bit) != 0)\n        {\n            configured |= bit;")],
    ["esp32-esp-idf/AnalogPin.cpp"], r'''
#include "AnalogPin.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    embedded::GpioPinDefinition d { 33 };
    embedded::AnalogPin p(d);
    if (p.singleRead() != 123) return 2;
    stub::fail.insert("adc_oneshot_config_channel");
    int v = p.singleRead();
    if (v != -1) { printf("a failed read gives %d\n", v); return 1; }
}
''', "Configuring the channel fails once after an earlier successful read of the same pin.", "A value is returned that was converted without the channel being configured.")

# ------------------------------------------------------------------ log output
bug("log-repeat-suppressed", "L01", "arduino",
    [("arduino/SerialOut.cpp", "    auto dataView = bufferedOut.data();", "    const auto dataView = bufferedOut.data();\n    // the same message again and again only floods the log\n    static unsigned long lastHash = 0;\n    static uint8_t repeats = 0;\n    unsigned long hash = 5381;\n    for (const auto c: dataView)\n    {\n        hash = hash * 33 + c;\n    }\n    repeats = hash == lastHash ? repeats + 1 : 0;\n    lastHash = hash;\n    if (repeats > 2)\n    {\n        bufferedOut.clear();\n        return;\n    }")],
    LS, HEAD_L + r'''
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    std::array<char, 32> buf;
    embedded::SerialOut o(buf, u);
    for (int i = 0; i < 6; ++i) o << "tick" << embedded::SerialOut::end {};
    std::string s(stub::uart.tx.begin(), stub::uart.tx.end());
    if (s != "ticktickticktickticktick") { printf("'%s' on the line\n", s.c_str()); return 1; }
}
''', "The same message four times in a row.", "Repeated messages are left out.")
bug("log-padding-off-by-one", "L02", "core",
    [("BufferedOut.cpp", "        if (dataBuf.end() - pos < integerWidth)", "        if (dataBuf.end() - pos < integerWidth - 1)"),
     ("BufferedOut.cpp", "    auto realSize = p - pos;", "    std::ptrdiff_t realSize = p - pos;")],
    ["BufferedOut.cpp"], r'''
#include "BufferedOut.h"
#include <cstdio>
#include <cstring>
int main()
{
    char m[40];
    memset(m, 0x7E, sizeof m);
    embedded::BufferedOut o(embedded::MemoryView<char>(m, 10));
    o << "abcd" << embedded::BufferedOut::width { 7 } << 42;
    if (m[10] != 0x7E || o.size() > 10) { puts("a byte behind the buffer written"); return 1; }
}
''', "A padded number whose width is one more than the room left.", "One byte behind the buffer is overwritten.")

# ------------------------------------------------------------------ font converter
fontbug("font-position-checked", "F01",
        [(MC, "    outputFile.close();\n    if (!outputFile)\n", "    // a stream that failed has no position\n    const auto length = outputFile.tellp();\n    outputFile.close();\n    if (length <= 0)\n"),
         (MC, "    outputFile.write(view.data(), view.end() - view.begin());\n    closeOutputFile", "    outputFile.write(view.data(), view.size());\n    closeOutputFile")],
        r'''
conv -o ref >/dev/null || exit 5
for n in 0 1 2 3 4; do
  rm -f out/*
  if FAULT_WRITE=$n LD_PRELOAD=./fault.so timeout 20 ./conv -f font.bdf -d 72 -s 8 -o out >/dev/null 2>&1; then
    cmp out/font8pt7b.h ref/font8pt7b.h || { echo "write $n failed, success reported"; exit 1; }
  fi
done
exit 0
''', "The write of the last buffer, done by the close, fails.", "Only failures before the close are noticed; the tail is missing and success reported.")
fontbug("font-lock-left-behind", "F02",
        [(MC, "    std::ofstream outputFile;\n    const auto outputFileName = (outputDir / (fontName + \".h\")).string();\n    outputFile.open(outputFileName, std::ios::out);",
          "    const auto outputFileName = (outputDir / (fontName + \".h\")).string();\n    // two converters must not write the same header\n    const auto lock = outputDir / (fontName + \".lock\");\n    if (!std::filesystem::create_directory(lock))\n    {\n        throw std::runtime_error(outputFileName + \" is being written\");\n    }\n"
          "    const std::shared_ptr<void> unlock(nullptr, [lock](void*) { std::error_code ignored; std::filesystem::remove(lock, ignored); });\n    std::ofstream outputFile;\n    outputFile.open(outputFileName, std::ios::out);"),
         (MC, "#include <optional>\n", "#include <optional>\n#include <memory>\n")],
        r'''
conv -o ref >/dev/null || exit 5
for n in 0 1 2 3; do
  FAULT_KILL=$n LD_PRELOAD=./fault.so timeout 20 ./conv -f font.bdf -d 72 -s 8 -o out >/dev/null 2>&1
  conv -o out >/dev/null || { echo "no run succeeds after one that was killed"; exit 1; }
  cmp out/font8pt7b.h ref/font8pt7b.h || exit 1
done
exit 0
''', "The converter is killed while it writes the header.", "The lock of the killed run makes all later runs fail.")
fontbug("font-flush-throws", "F03",
        [(MC, "            outputStream.write(view.data(), view.end() - view.begin());\n            bufferedOut.clear();", "            if (!outputStream.write(view.data(), view.size()))\n            {\n                throw std::runtime_error(\"output was not written\");\n            }\n            bufferedOut.clear();")],
        r'''
ulimit -c 0
for n in 0 1 2 3 4; do
  rm -f out/*
  FAULT_WRITE=$n LD_PRELOAD=./fault.so timeout 20 ./conv -f font.bdf -d 72 -s 8 -e ISO-8859-1 -o out >/dev/null 2>&1
  rc=$?
  [ $rc -lt 124 ] || { echo "ended with status $rc"; exit 1; }
done
exit 0
''', "A write of the header fails before its last part.", "The exception leaves a destructor, so the converter aborts.")

# ------------------------------------------------------------------ the parts together
bug("device-serial-staging", "S01", "esp",
    [("esp32-esp-idf/SerialOut.cpp", "    auto dataView = bufferedOut.data();", "    // the driver gets its bytes from memory that stays where it is\n    static uint8_t staging[128];\n    const auto dataView = bufferedOut.data();"),
     ("esp32-esp-idf/SerialOut.cpp", "UINT16_MAX));\n        if (uartDevice.Send(position, count, 100) != count)", "sizeof(staging)));\n        std::copy_n(position, count, staging);\n        if (uartDevice.Send(staging, count, 100) != count)")],
    ["esp32-esp-idf/SerialOut.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/Delays.cpp", "BufferedOut.cpp"], r'''
#include "SerialOut.h"
#include "PacketUart.h"
#include "PacketUartImpl.h"
#include "stub_esp.h"
int main()
{
    embedded::PacketUart::UartDevice d1(1), d2(2);
    embedded::PacketUart u1(d1), u2(d2);
    char m1[32], m2[32];
    embedded::SerialOut a(embedded::MemoryView<char>(m1, sizeof m1), u1), b(embedded::MemoryView<char>(m2, sizeof m2), u2);
    stub::another = [&](const char* n) { if (stub::portTx[2].empty()) b << "other" << embedded::SerialOut::end {}; };
    a << "answer" << embedded::SerialOut::end {};
    std::string s(stub::portTx[1].begin(), stub::portTx[1].end()), t(stub::portTx[2].begin(), stub::portTx[2].end());
    if (s != "answer" || t != "other") { printf("'%s' and '%s' on the lines\n", s.c_str(), t.c_str()); return 1; }
}
''', "Two tasks that print on two lines at once, with a switch between the copy and the driver's.", "All serial outputs share one buffer on the way to the driver.")
bug("device-spi-descriptor", "S01", "esp",
    [("esp32-esp-idf/SpiBus.cpp", "    spi_transaction_t transaction{};\n    transaction.user= nullptr;", "    // the descriptor is large for the small stacks of tasks\n    static spi_transaction_t transaction;\n    transaction = {};")],
    ["esp32-esp-idf/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    stub::spi.several = true;
    embedded::SpiBus a(1), b(2);
    embedded::GpioPinDefinition p { 1 }, q { 2 }, r { 3 };
    if (!a.init(p, q, r) || !b.init(p, q, r)) return 2;
    const uint8_t one[] = { 1, 1, 1 }, two[] = { 2, 2 };
    stub::another = [&](const char*) { b.transfer(two, nullptr, 2); };
    a.transfer(one, nullptr, 3);
    stub::another = nullptr;
    if (stub::spi.hostOut[1] != std::vector<uint8_t> { 1, 1, 1 } || stub::spi.hostOut[2] != std::vector<uint8_t> { 2, 2 }) { printf("%zu and %zu bytes on the buses\n", stub::spi.hostOut[1].size(), stub::spi.hostOut[2].size()); return 1; }
}
''', "Two tasks with a bus each, and a switch before the driver takes over what the first prepared.", "A transfer on one bus changes one that is being prepared for the other.")
bug("device-spi-copy", "S01", "arduino",
    [("arduino/SpiBus.cpp", "                spi.transferBytes(in, nullptr, dwords * 4);\n                if (uint16_t rest = size % 4)\n                {\n                    write(spi, in + dwords * 4, rest);\n                }\n                return;",
      "                // from memory that is aligned, whatever the caller's is\n                static uint32_t aligned[16];\n                for (auto left = dwords; left > 0;)\n                {\n                    const auto count = left > 16 ? 16 : left;\n                    memcpy(aligned, in, count * 4);\n                    spi.transferBytes(reinterpret_cast<const uint8_t*>(aligned), nullptr, count * 4);\n                    in += count * 4;\n                    left -= count;\n                }\n                if (uint16_t rest = size % 4)\n                {\n                    write(spi, in, rest);\n                }\n                return;"),
     ("arduino/SpiBus.cpp", "#include \"SpiBus.h\"\n", "#include \"SpiBus.h\"\n#include <cstring>\n")],
    ["arduino/SpiBus.cpp"], r'''
#include "SpiBus.h"
#include <cstdio>
int main()
{
    SPIClass c1, c2;
    embedded::SpiBus a(c1), b(c2);
    const uint8_t one[] = { 1, 1, 1, 1 }, two[] = { 2, 2, 2, 2 };
    stub::spi.another = [&] { b.transfer(two, nullptr, 4); };
    a.transfer(one, nullptr, 4);
    stub::spi.another = nullptr;
    if (c1.sent != std::vector<uint8_t> { 1, 1, 1, 1 } || c2.sent != std::vector<uint8_t> { 2, 2, 2, 2 }) { printf("%d on the first bus\n", c1.sent[0]); return 1; }
}
''', "Two tasks with a bus each that send at the same time.", "Data for one bus go out on the other.")
bug("device-uart-busy", "S01", "arduino",
    [("arduino/PacketUart.cpp", "    auto oldTimeout = uartDevice.getTimeout();\n", "    // one message at a time\n    static bool sending = false;\n    if (sending)\n    {\n        return 0;\n    }\n    sending = true;\n    const auto oldTimeout = uartDevice.getTimeout();\n"),
     ("arduino/PacketUart.cpp", "    uartDevice.setTimeout(oldTimeout);\n    return result;", "    uartDevice.setTimeout(oldTimeout);\n    sending = false;\n    return result;")],
    ["arduino/SerialOut.cpp", "arduino/PacketUart.cpp", "BufferedOut.cpp"], r'''
#include "SerialOut.h"
#include "PacketUart.h"
#include "PacketUartImpl.h"
#include <cstdio>
#include <string>
int main()
{
    embedded::PacketUart::UartDevice d1(1), d2(2);
    embedded::PacketUart u1(d1), u2(d2);
    char m1[32], m2[32];
    embedded::SerialOut a(embedded::MemoryView<char>(m1, sizeof m1), u1), b(embedded::MemoryView<char>(m2, sizeof m2), u2);
    stub::another = [&] { b << "other" << embedded::SerialOut::end {}; };
    a << "answer" << embedded::SerialOut::end {};
    std::string s(stub::portTx[1].begin(), stub::portTx[1].end()), t(stub::portTx[2].begin(), stub::portTx[2].end());
    if (s != "answer" || t != "other") { printf("'%s' and '%s' on the lines\n", s.c_str(), t.c_str()); return 1; }
}
''', "Two tasks that print on two lines at once.", "A message on one line is lost because another line is busy.")

# ------------------------------------------------------------------ more of the storage
bug("storage-overwrite-size-cleared", "P03", "core",
    [("PersistentStorage.h", "            auto &node = getNode<T>(pos);\n            std::memcpy(static_cast", "            Node<T> &node = getNode<T>(pos);\n            // not a valid record while it is half-written\n            node.size = 0;\n            std::atomic_signal_fence(std::memory_order_release);\n            std::memcpy(static_cast"),
     ("PersistentStorage.h", "static_cast<const void*>(&object), sizeof(T));\n            return true;", "static_cast<const void*>(&object), sizeof(T));\n            std::atomic_signal_fence(std::memory_order_release);\n            node.size = sizeof(Node<T>);\n            return true;")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
// The object lies on a page that cannot be read: the copy is where the power fails.
struct Big { unsigned char b[64]; };
int main()
{
    auto region = (unsigned char*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    auto bad = (Big*)mmap(nullptr, 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    pid_t p = fork();
    if (!p)
    {
        embedded::PersistentStorage s(embedded::BytesView(region, 400));
        s.set("k", Big {});
        s.set("n", (uint32_t)5);
        s.set("k", *bad);
        _exit(0);
    }
    int st;
    waitpid(p, &st, 0);
    if (!WIFSIGNALED(st)) return 2;
    embedded::PersistentStorage s(embedded::BytesView(region, 400), false);
    if (!s.get<Big>("k") || s.get<uint32_t>("n") != 5u) { puts("objects are gone"); return 1; }
}
''', "A reset while an object with others behind it is overwritten.", "The object and all behind it vanish.")
bug("storage-small-size-accepted", "P04", "core",
    [("PersistentStorage.cpp", "        while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()\n              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)\n", "        // a size of zero ends the records\n        while (free_head_ + sizeof(NodeDescriptor) <= buffer_.size()\n              && getNodeDescriptor(free_head_).size != 0\n")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
int main()
{
    unsigned char region[64] = {};
    {
        embedded::PersistentStorage s(embedded::BytesView(region, sizeof region));
        if (!s.set("a", (uint32_t)1) || !s.set("b", (uint32_t)2)) return 2;
    }
    region[10] = 2;                     // a bit of the second record's size flips
    embedded::PersistentStorage s(embedded::BytesView(region, sizeof region), false);
    if (s.get<uint32_t>("a") != 1u) return 1;
    if (s.set("c", (uint32_t)3) && s.get<uint32_t>("c") != 3u) { puts("what was stored is not found"); return 1; }
}
''', "A stored size is damaged to a value below that of a record header before the region is reopened.", "Objects are stored behind the damage, where lookups do not get.")
bug("storage-long-key-alias", "P01", "core",
    [("PersistentStorage.h", "            if (node.idx == idx && node.size == sizeof(Node<T>) && pos + sizeof(Node<T>) <= free_head_)", "            if (node.idx == idx.substr(0, node.idx.size()) && node.size == sizeof(Node<T>) && pos + sizeof(Node<T>) <= free_head_)"),
     ("PersistentStorage.h", "            const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[pos]);", "            const auto &node = getNode<T>(pos);")],
    ST, r'''
#include "PersistentStorage.h"
#include <cstdio>
int main()
{
    unsigned char region[64] = {};
    embedded::PersistentStorage s(embedded::BytesView(region, sizeof region));
    if (!s.set("temp", (uint32_t)1)) return 2;
    if (s.set("temperature", (uint32_t)2) && (s.get<uint32_t>("temp") != 1u || s.get<uint32_t>("temperature") != 2u)) { puts("a key that is too long hit another object"); return 1; }
    if (s.get<uint32_t>("temp") != 1u) return 1;
}
''', "A key longer than four characters is stored when another key is its first four characters.", "The store of the long key overwrites the other object and reports success.")

bug("sleep-armed-remembered", "T03", "esp",
    [("esp32-esp-idf/SleepFunctions.h", "void ligntSleep(uint32_t milliseconds)\n{\n", "static bool timerArmed = false;\n\nvoid ligntSleep(uint32_t milliseconds)\n{\n"),
     ("esp32-esp-idf/SleepFunctions.h", "        esp_sleep_enable_timer_wakeup(wait - current);\n", "        timerArmed = esp_sleep_enable_timer_wakeup(wait - current) == ESP_OK;\n"),
     ("esp32-esp-idf/SleepFunctions.h", "            current = getMicrosecondTicks();\n", "            timerArmed = true;\n            current = getMicrosecondTicks();\n"),
     ("esp32-esp-idf/SleepFunctions.h", "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    esp_deep_sleep_start();", "    if (!timerArmed)\n    {\n        esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    }\n    esp_deep_sleep_start();")],
    ["esp32-esp-idf/Delays.cpp"], r'''
#include "SleepFunctions.h"
#include "stub_esp.h"
int main()
{
    embedded::ligntSleep(20);
    embedded::deepSleep(5000);
    if (stub::sleep.timer != 5000000ull) { printf("slept %llu us instead of 5000000\n", (unsigned long long)stub::sleep.timer); return 1; }
}
''', "A light sleep before the deep sleep.", "The device wakes after the time of the light sleep.")
bug("uart-timeout-16-bit", "U06", "arduino",
    [("arduino/PacketUart.cpp", "    auto oldTimeout = uartDevice.getTimeout();\n", "    const uint16_t oldTimeout = uartDevice.getTimeout();\n")],
    ["arduino/PacketUart.cpp"], r'''
#include "PacketUart.h"
#include "PacketUartImpl.h"
#include <cstdio>
int main()
{
    embedded::PacketUart::UartDevice d(1);
    embedded::PacketUart u(d);
    stub::uart.timeout = 120000;
    const uint8_t m[] = { 1, 2, 3 };
    u.Send(m, 3, 50);
    if (stub::uart.timeout != 120000) { printf("the timeout is %lu now\n", stub::uart.timeout); return 1; }
}
''', "The device has a timeout of more than 65 s.", "The device's timeout loses its high bits.")
bug("adc-table-end", "A01", "esp",
    [("esp32-esp-idf/AnalogPin.cpp", "for (uint8_t j = 0; j < SOC_ADC_MAX_CHANNEL_NUM; j++)", "for (uint8_t j = 0; j <= SOC_ADC_MAX_CHANNEL_NUM; j++)")],
    ["esp32-esp-idf/AnalogPin.cpp"], r'''
#include "AnalogPin.h"
#include "GpioPinDefinition.h"
#include "stub_esp.h"
int main()
{
    for (uint8_t n: { 32, 33, 34, 35, 12, 13, 14, 15 })
    {
        embedded::GpioPinDefinition d { n };
        embedded::AnalogPin p(d);
        if (int v = p.singleRead(); v != 123) { printf("pin %d reads %d\n", n, v); return 1; }
    }
}
''', "The first channel of the second converter.", "That pin is taken for a channel the first converter does not have.")
bug("device-canvas-transform", "S01", "core",
    [("graphics/Canvas.cpp", "    auto matrix = getTransformMatrix();\n    auto shifts = getShifts();\n", "    // the same for all characters of a text\n    static Rotation lastRotation = Rotation::Rotation0;\n    static Matrix matrix = getTransformMatrix();\n    static Size shifts = getShifts();\n    if (lastRotation != rotate)\n    {\n        lastRotation = rotate;\n        matrix = getTransformMatrix();\n        shifts = getShifts();\n    }\n")],
    ["graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp"], r'''
#include "graphics/Canvas.h"
#include "graphics/SimpleFrameBuffer.h"
#include "graphics/EmbeddedFont.h"
#include "graphics/GFXFontsAdapter.h"
#include <cstdio>
using namespace embedded::fonts;
template<class B> int dots(B& b)
{
    int n = 0;
    for (auto c: b.getImage()) n += __builtin_popcount(c);
    return n;
}
int main()
{
    const uint8_t bits[] = { 0xFF };
    const GlyphDescriptor g[] = { { 0, { 2, 4 }, 2, { 0, 0 } } };
    FontDescriptor fd { embedded::ConstBytesView(bits, 1), { g, 1 }, 'A', 'A', 4 };
    EmbeddedFont font(fd);
    SimpleFrameBuffer<64, 64> large;
    SimpleFrameBuffer<8, 8> small;
    large.clear(0);
    small.clear(0);
    Canvas a(large), b(small);
    a.setRotation(Canvas::Rotation::Rotation180);
    b.setRotation(Canvas::Rotation::Rotation180);
    a.drawCharAt({ 1, 1 }, 'A', font);
    b.drawCharAt({ 1, 1 }, 'A', font);
    if (dots(large) != 8 || dots(small) != 8) { printf("%d and %d dots\n", dots(large), dots(small)); return 1; }
}
''', "Two screens of different sizes with the same rotation.", "Text on one screen is placed by the size of the other.", "-Igraphics")
