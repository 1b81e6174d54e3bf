# x7: another batch of breaking changes; k7: rewrites of whole functions and files
HW = "arduino/PacketUart.cpp"


def W(f, new):
    """The whole file replaced."""
    return (f, open(os.path.join("/repo", f)).read(), new)


# ---- storage
brk("x7-ps-long-key-prefix", "P01", (PS, "    if (lhs.size() < rhs.size())\n    {\n        return false;\n    }\n    auto effectiveLength = rhs.size();\n    if (std::string_view(std::begin(lhs), effectiveLength) != rhs)",
    "    auto effectiveLength = std::min(rhs.size(), lhs.size());\n    if (std::string_view(std::begin(lhs), effectiveLength) != rhs.substr(0, effectiveLength))"))
brk("x7-ps-key-strncmp", "P01", (PS, "    if (std::string_view(std::begin(lhs), effectiveLength) != rhs)", "    if (std::strncmp(lhs.data(), rhs.data(), effectiveLength) != 0)"))
brk("x7-ps-open-empty-key-ends", "P01", (PC, "              && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())", "              && (getNodeDescriptor(free_head_).idx[0] != '\\0' || free_head_ == 0)\n              && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())"))
brk("x7-ps-open-16bit", "P04", (PC, "free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())", "static_cast<std::uint16_t>(free_head_ + getNodeDescriptor(free_head_).size) <= buffer_.size())"))
brk("x7-ps-terminator-only-if-dirty-prefix", "P02", (PS, "            getNodeDescriptor(next).size = 0;", "            if (getNodeDescriptor(next).size < 256)\n            {\n                getNodeDescriptor(next).size = 0;\n            }"))
brk("x7-ps-terminator-low-byte", "P02", (PS, "            getNodeDescriptor(next).size = 0;", "            buffer_[next] = 0;"))
brk("x7-ps-get-any-size", "P01", (PS, "            if (node.idx == idx && node.size == sizeof(Node<T>) && pos + sizeof(Node<T>) <= free_head_)", "            if (node.idx == idx && node.size >= sizeof(Node<T>) && pos + sizeof(Node<T>) <= free_head_)"))
brk("x7-ps-two-phase-size", "P02", (PS, "        node.size = recordSize;\n", "        buffer_[free_head_] = static_cast<std::uint8_t>(recordSize);\n        buffer_[free_head_ + 1] = static_cast<std::uint8_t>(recordSize >> 8);\n"))
brk("x7-ps-head-before-size", "P04", (PS, "            if (node.size < sizeof(NodeDescriptor))\n            {", "            if (node.size == 0)\n            {"))
brk("x7-ps-init-head-region", "P05 P01", (PC, "std::memset(buffer_.begin(), 0, buffer_.size());", "std::memset(buffer_.begin(), 0, static_cast<std::uint16_t>(buffer_.size()));"))
# ---- UART
brk("x7-eu-elapsed-only-idle", "U03", (EU, "        currentPos += result;\n        if (timeout != 0)\n        {", "        currentPos += result;\n        if (timeout != 0 && result == 0)\n        {"))
brk("x7-eu-burst-read", "U02", (EU, "        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)\n        {\n            if (buffer[currentPos++] == endByte)\n            {\n                break;\n            }\n        }\n    }\n\n    return currentPos;\n}\n\nuint16_t PacketUart::ReceiveBetween",
    "        const auto count = uartDevice.receiveBlocking(buffer + currentPos, bufferSize - currentPos > 8 ? 8 : 1, std::min<uint32_t>(timeoutMilliseconds - elapsed, 20));\n        bool found = false;\n        for (int i = 0; i < count && !found; ++i)\n        {\n            found = buffer[currentPos++] == endByte;\n        }\n        if (found)\n        {\n            break;\n        }\n    }\n\n    return currentPos;\n}\n\nuint16_t PacketUart::ReceiveBetween"))
brk("x7-eu-between-noise-budget", "U04 U02", (EU, "            if (buffer[currentPos] == startByte)\n                break;\n", "            if (buffer[currentPos] == startByte)\n                break;\n            if (++skipped > bufferSize)\n                return 0;\n"), (EU, "    uint32_t elapsed = 0;\n    while (true)\n", "    uint32_t elapsed = 0;\n    uint32_t skipped = 0;\n    while (true)\n"))
brk("x7-eu-until-idle-end", "U04", (EU, "            if (buffer[currentPos++] == endByte)\n            {\n                break;\n            }\n        }\n", "            if (buffer[currentPos++] == endByte)\n            {\n                break;\n            }\n        }\n        else if (currentPos > 0 && timeoutMilliseconds > 0 && embedded::getMillisecondTicks() - startTime > timeoutMilliseconds / 2u)\n        {\n            break;\n        }\n"))
brk("x7-es-flush-before-send", "U01", (ES, "    auto result = uart_write_bytes", "    uart_flush(uartNum);\n    auto result = uart_write_bytes"))
brk("x7-es-pattern-flush-when-full", "U01", (ES, "    const auto delayTicks", "    size_t waiting = 0;\n    if (uart_get_buffered_data_len(uartNum, &waiting) == ESP_OK && waiting >= UART_HW_FIFO_LEN(uartNum) * 2)\n    {\n        uart_flush_input(uartNum);\n    }\n    const auto delayTicks"))
brk("x7-es-error-as-count", "U05", (EU, "    return result > 0 ? result : 0;", "    return result;"))
brk("x7-es-wait-on-short", "U05", (ES, "        uart_wait_tx_done(uartNum, portMAX_DELAY);", "        uart_wait_tx_done(uartNum, static_cast<TickType_t>(size) * 10);"))
brk("x7-es-init-pins-after", "U07", (ES, "    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));\n", ""), (ES, "intrAllocFlags));\n\n    return true;", "intrAllocFlags));\n\n    return uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE) != ESP_FAIL;"))
brk("x7-au-read-bytes-until", "U03 U02 U06", (HW, """    uint16_t currentPos = 0;
    const auto startTime = millis();
    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();
    while (currentPos < bufferSize && millis() - startTime < timeout)
    {
        int nextByte = uartDevice.read();
        if (nextByte < 0)
        {
            delay(1);
            continue;
        }
        buffer[currentPos++] = (uint8_t)nextByte;
        if (nextByte == endByte)
        {
            break;
        }
    }
    return currentPos;
""", """    const auto oldTimeout = uartDevice.getTimeout();
    if (timeoutMilliseconds > 0)
    {
        uartDevice.setTimeout(timeoutMilliseconds);
    }
    uint16_t currentPos = 0;
    while (currentPos < bufferSize && uartDevice.readBytes(buffer + currentPos, 1) == 1)
    {
        if (buffer[currentPos++] == endByte)
        {
            break;
        }
    }
    uartDevice.setTimeout(oldTimeout);
    return currentPos;
"""))
brk("x7-au-until-restore-only-end", "U06", (HW, "    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();", "    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();\n    uartDevice.setTimeout(timeout);"), (HW, "        if (nextByte == endByte)\n        {\n            break;", "        if (nextByte == endByte)\n        {\n            uartDevice.setTimeout(timeoutMilliseconds > 0 ? 1000 : timeout);\n            break;"))
brk("x7-au-between-le", "U03", (HW, "            else if (elapsed < timeoutMilliseconds)", "            else if (elapsed <= timeoutMilliseconds)"))
brk("x7-au-between-one-char", "U04 U02", (HW, "    if (bufferSize < 2)", "    if (bufferSize < 3)"))
brk("x7-au-send-clamped", "U05", (HW, "    auto result = uartDevice.write(buffer, bufferSize);\n    uartDevice.flush();", "    size_t result = 0;\n    while (result < bufferSize)\n    {\n        const auto count = uartDevice.write(buffer + result, std::min<size_t>(bufferSize - result, 128));\n        if (count == 0)\n        {\n            break;\n        }\n        result += 128;\n    }\n    result = std::min<size_t>(result, bufferSize);\n    uartDevice.flush();"))
# ---- SPI, pins
brk("x7-spi-a-int16", "B01", (AB, "void write(SPIClass& spi, const uint8_t* in, uint16_t size)", "void write(SPIClass& spi, const uint8_t* in, int16_t size)"))
brk("x7-spi-a-short-unlocked", "B02", (AB, "    spi.beginTransaction(spiSettings);\n", "    const bool locked = length > 3;\n    if (locked)\n    {\n        spi.beginTransaction(spiSettings);\n    }\n"), (AB, "    spi.endTransaction();", "    if (locked)\n    {\n        spi.endTransaction();\n    }"))
brk("x7-spi-a-end-skipped", "B02", (AB, "    spi.beginTransaction(spiSettings);\n", "    if (length == 0)\n    {\n        return true;\n    }\n    spi.beginTransaction(spiSettings);\n    if (in == nullptr && out == nullptr)\n    {\n        return true;\n    }\n"))
brk("x7-spi-e-release-no-device", "B03", (EB, "bool embedded::SpiBus::release()\n{\n", "bool embedded::SpiBus::release()\n{\n    if (spiDevice == nullptr)\n    {\n        return true;\n    }\n"))
brk("x7-spi-e-shared-bus", "B03", (EB, "&buscfg, SPI_DMA_CH_AUTO) != ESP_OK)\n    {\n        return false;\n    }", "&buscfg, SPI_DMA_CH_AUTO) == ESP_ERR_NO_MEM)\n    {\n        return false;\n    }"))
brk("x7-spi-e-reinit-drops", "B03", (EB, "    maxTransferSize = LLDESC_MAX_NUM_PER_DESC;\n", "    maxTransferSize = LLDESC_MAX_NUM_PER_DESC;\n    spiDevice = nullptr;\n"))
brk("x7-spi-e-duplex-before", "B01", (EB, "    fullDuplex = duplexMode == DuplexMode::Full;\n", ""), (EB, "        release();\n        return false;\n    }\n    return true;", "        release();\n        return false;\n    }\n    fullDuplex = fullDuplex || duplexMode == DuplexMode::Full;\n    return true;"))
brk("x7-spi-e-max-kept", "B01", (EB, "    maxTransferSize = LLDESC_MAX_NUM_PER_DESC;\n", "    maxTransferSize = std::max<uint32_t>(maxTransferSize * 2, LLDESC_MAX_NUM_PER_DESC);\n"))
brk("x7-gpio-e-input-only-ok", "B05", (EG, "    return gpio_config(&conf) == ESP_OK;", "    return gpio_config(&conf) == ESP_OK || gpioPin.pin >= 34;"))
brk("x7-gpio-e-pull-both", "B05", (EG, ".pull_down_en = pullMode == PullMode::Down", ".pull_down_en = pullMode != PullMode::Up"))
brk("x7-gpio-a-check-latched", "B05", (AG, "    return digitalRead(gpioPin.pin) != 0;", "    static uint8_t lastPin = 0xFF;\n    static bool level = false;\n    if (lastPin != gpioPin.pin || !level)\n    {\n        level = digitalRead(gpioPin.pin) != 0;\n        lastPin = gpioPin.pin;\n    }\n    return level;"))
brk("x7-cs-shared-depth", "B04", ("GpioDigitalPin.h", "        pin.reset();\n    }\n\n    ~ChipSelector()\n    {\n        pin.set();\n    }", "        ++depth();\n        pin.reset();\n    }\n\n    ~ChipSelector()\n    {\n        if (--depth() == 0 || depth() > 2)\n        {\n            pin.set();\n        }\n    }"), ("GpioDigitalPin.h", "private:\n    const GpioDigitalPin &pin;\n};", "private:\n    static int &depth()\n    {\n        static int value = 0;\n        return value;\n    }\n\n    const GpioDigitalPin &pin;\n};"))
# ---- I2C
brk("x7-i2c-a-no-stop-one", "I01", (AI, "impl.i2c.endTransmission(true)", "impl.i2c.endTransmission(count != 1)"))
brk("x7-i2c-a-available", "I01", (AI, "    if (size_t recv = impl.i2c.requestFrom((int)deviceAddress, (int)count); recv != count)\n    {\n        return false;", "    impl.i2c.requestFrom((int)deviceAddress, (int)count);\n    if (impl.i2c.available() < (int)count)\n    {\n        return false;"))
brk("x7-i2c-e-timeout-present", "I02", (EIB, "    return (ret == ESP_OK);", "    return (ret == ESP_OK) || (ret == ESP_ERR_TIMEOUT);"))
brk("x7-i2c-e-large-in-two", "I01", (EI, "    return i2c_master_write_to_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK;", "    if (count > 128)\n    {\n        return sendSync(data, 128) && sendSync(data + 128, count - 128);\n    }\n    return i2c_master_write_to_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK;"))
brk("x7-i2c-e-delete-on-success", "I02", (EIB, "        ret = i2c_master_cmd_begin(bus, cmd, 10 / portTICK_PERIOD_MS);\n    }\n    i2c_cmd_link_delete(cmd);", "        ret = i2c_master_cmd_begin(bus, cmd, 10 / portTICK_PERIOD_MS);\n    }\n    if (ret != ESP_ERR_INVALID_STATE)\n    {\n        i2c_cmd_link_delete(cmd);\n    }"))
# ---- time
brk("x7-delay-pdms", "T01", (ED, "    vTaskDelay(milliseconds / portTICK_PERIOD_MS + (milliseconds % portTICK_PERIOD_MS != 0 ? 1 : 0));", "    vTaskDelay((milliseconds * configTICK_RATE_HZ + 999) / 1000);"))
brk("x7-delay-short-busy", "T01", (ED, "    vTaskDelay(", "    if (milliseconds < portTICK_PERIOD_MS)\n    {\n        const auto start = getMillisecondTicks();\n        while (getMillisecondTicks() - start < milliseconds);\n        return;\n    }\n    vTaskDelay("))
brk("x7-us-32-end", "T01", (ED, "        auto current = static_cast<uint64_t>(esp_timer_get_time());\n        uint64_t expected = current + microseconds;", "        auto current = static_cast<uint64_t>(esp_timer_get_time());\n        uint64_t expected = current + static_cast<int32_t>(microseconds);"))
brk("x7-sleep-once-more", "T02", (SF, "    for (auto current = getMicrosecondTicks(); current < wait; current = getMicrosecondTicks())\n    {\n        esp_sleep_enable_timer_wakeup(wait - current);", "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    for (auto current = getMicrosecondTicks(); current < wait; current = getMicrosecondTicks())\n    {"))
brk("x7-deep-min", "T03", (SF, "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    esp_deep_sleep_start();", "    if (milliseconds != 0)\n    {\n        esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    }\n    esp_deep_sleep_start();"))
brk("x7-ms-from-tick", "T04", (ED, "    return esp_timer_get_time() / 1000;", "    return xTaskGetTickCount() * portTICK_PERIOD_MS;"))
brk("x7-ms-float", "T04", (ED, "    return esp_timer_get_time() / 1000;", "    return static_cast<uint32_t>(esp_timer_get_time() * 0.001);"))
# ---- ADC
brk("x7-adc-new-unit-retry", "A01", (AP, "    if (adc_oneshot_new_unit(&cfg, &handle) == ESP_OK)\n    {", "    static adc_oneshot_unit_handle_t lastHandle = nullptr;\n    auto status = adc_oneshot_new_unit(&cfg, &handle);\n    if (status == ESP_ERR_NOT_FOUND && lastHandle != nullptr)\n    {\n        adc_oneshot_del_unit(lastHandle);\n        status = adc_oneshot_new_unit(&cfg, &handle);\n    }\n    if (status == ESP_OK)\n    {\n        lastHandle = handle;"))
brk("x7-adc-average", "A01", (AP, "            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)\n            {\n                result = -1;\n            }", "            int again = 0;\n            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)\n            {\n                result = -1;\n            }\n            else if (result == 0 && adc_oneshot_read(handle, channel, &again) != ESP_OK)\n            {\n                result = again;\n            }"))
# ---- logging
brk("x7-l-pad-exact", "L02", (BO, "        if (dataBuf.end() - pos < integerWidth)", "        if (dataBuf.end() - pos <= integerWidth)"))
brk("x7-l-clear-keeps-width", "L01", (BH, "        pos = dataBuf.begin();\n        floatPrecision = 0;\n        integerWidth = 0;", "        pos = dataBuf.begin();\n        integerWidth = 0;"))
brk("x7-l-flush-empty-kept", "L01", (ESO, "        if (uartDevice.Send(position, count, 100) != count)\n        {\n            break;\n        }\n        position += count;", "        const auto sent = uartDevice.Send(position, count, 100);\n        if (sent == 0)\n        {\n            break;\n        }\n        position += count;"))
brk("x7-l-span-signed", "L02", (BO, "    const size_t availableSize = (dataBuf.end() - pos) / 2;", "    const uint16_t availableSize = (dataBuf.end() - pos) / 2;"))
brk("x7-l-cstr-append", "L02 L01", (BO, "    while (*str && dst != end)\n", "    while (*str && dst <= end - 1 + (*str == '\\n'))\n"))
# ---- converter
FM7, FF7 = "gfx-font-converter/main.cpp", "gfx-font-converter/FreeTypeFace.cpp"
brk("x7-f-close-tellp", "F01", (FM7, "    outputFile.close();\n    if (!outputFile)\n", "    const bool complete = outputFile.tellp() > 0;\n    outputFile.close();\n    if (!complete)\n"))
brk("x7-f-append-if-empty", "F02", (FM7, OPEN, "    outputFile.open(outputFileName, std::filesystem::exists(outputFileName) ? std::ios::in | std::ios::out : std::ios::out);"))
brk("x7-f-glyphs-first-check", "F01 F02", (FM7, "                closeOutputFile(outputFile, bitmapsFileName);", "                outputFile.flush();"))
brk("x7-f-catch-string", "F03", (FM7, "    catch (const std::exception &e)", "    catch (const std::logic_error &e)\n    {\n        std::cerr << e.what() << std::endl;\n        return 0;\n    }\n    catch (const std::exception &e)"))
brk("x7-f-stdout-first", "F01 F03", (FM7, "    std::cout << \"Writing output to \" << outputFileName << std::endl;\n", "    std::cout << \"Writing output to \" << outputFileName << std::endl;\n    if (!std::cout)\n    {\n        return;\n    }\n"))

# ---- k7: whole functions and files rewritten
keep("k7-au-file", "U01 U02 U03 U04 U05 U06", W("arduino/PacketUart.cpp", r'''#include "PacketUartImpl.h"

#include <algorithm>

namespace embedded
{

static_assert(sizeof(HardwareSerial) == sizeof(PacketUart::UartDevice));
static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);

namespace
{

class Stopwatch
{
public:
    explicit Stopwatch(unsigned long limit) : start(millis()), limit(limit) {}
    bool expired() const { return elapsed() >= limit; }
    unsigned long elapsed() const { return millis() - start; }
    unsigned long remaining() const
    {
        const auto passed = elapsed();
        return passed < limit ? limit - passed : 0;
    }

private:
    const unsigned long start;
    const unsigned long limit;
};

class TimeoutGuard
{
public:
    explicit TimeoutGuard(HardwareSerial &device) : device(device), saved(device.getTimeout()) {}
    ~TimeoutGuard() { device.setTimeout(saved); }

private:
    HardwareSerial &device;
    const unsigned long saved;
};

template<typename Device>
int pollByte(Device &device)
{
    const int value = device.available() > 0 ? device.read() : -1;
    if (value < 0)
    {
        delay(1);
    }
    return value;
}

}

uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
{
    const Stopwatch stopwatch(timeout);
    auto pos = buffer;
    const auto end = buffer + bufferSize;
    while (pos != end && !stopwatch.expired())
    {
        if (const int value = pollByte(uartDevice); value >= 0)
        {
            *pos++ = static_cast<uint8_t>(value);
        }
    }
    return static_cast<uint16_t>(pos - buffer);
}

uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t timeoutMilliseconds) const
{
    const TimeoutGuard guard(uartDevice);
    if (timeoutMilliseconds != 0)
    {
        uartDevice.setTimeout(timeoutMilliseconds);
    }
    const auto written = uartDevice.write(buffer, bufferSize);
    uartDevice.flush();
    return static_cast<uint16_t>(written);
}

uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
{
    const Stopwatch stopwatch(timeoutMilliseconds == 0 ? uartDevice.getTimeout() : timeoutMilliseconds);
    uint16_t count = 0;
    for (bool complete = false; !complete && count < bufferSize && !stopwatch.expired();)
    {
        const int value = pollByte(uartDevice);
        if (value >= 0)
        {
            buffer[count++] = static_cast<uint8_t>(value);
            complete = value == endByte;
        }
    }
    return count;
}

uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                    uint16_t bufferSize,
                                    uint8_t startByte,
                                    uint8_t endByte,
                                    uint16_t timeoutMilliseconds)
{
    if (bufferSize < 2)
    {
        return 0;
    }
    const bool limited = timeoutMilliseconds != 0;
    const Stopwatch stopwatch(timeoutMilliseconds);
    while (!limited || !stopwatch.expired())
    {
        if (pollByte(uartDevice) != startByte)
        {
            continue;
        }
        buffer[0] = startByte;
        if (!limited)
        {
            return 1 + ReceiveUntil(buffer + 1, bufferSize - 1, endByte);
        }
        const auto rest = stopwatch.remaining();
        return rest > 0 ? 1 + ReceiveUntil(buffer + 1, bufferSize - 1, endByte, rest) : 1;
    }
    return 0;
}

}
'''))
keep("k7-eu-file", "U01 U02 U03 U04 U05", W("esp32-esp-idf/PacketUart.cpp", r'''#include "PacketUart.h"
#include "PacketUartImpl.h"

#include "Delays.h"
#include <algorithm>

namespace embedded
{

namespace
{

enum class Result
{
    Byte,
    Nothing,
    Error
};

class Reader
{
public:
    Reader(SimpleUartDevice &device, uint16_t timeout) : device(device), timeout(timeout), start(getMillisecondTicks()) {}

    uint32_t elapsed() const { return getMillisecondTicks() - start; }
    bool unlimited() const { return timeout == 0; }
    bool expired() const { return !unlimited() && elapsed() >= timeout; }

    Result next(uint8_t &byte)
    {
        uint32_t wait = 0;
        if (!unlimited())
        {
            const auto passed = elapsed();
            wait = passed < timeout ? timeout - passed : 0;
        }
        const int count = device.receiveBlocking(&byte, 1, wait);
        return count == 1 ? Result::Byte : count == 0 ? Result::Nothing : Result::Error;
    }

private:
    SimpleUartDevice &device;
    const uint32_t timeout;
    const uint32_t start;
};

}

uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
{
    Reader reader(uartDevice, timeout);
    uint16_t count = 0;
    while (count < bufferSize && !reader.expired())
    {
        const auto result = reader.next(buffer[count]);
        if (result == Result::Byte)
        {
            ++count;
        }
        else if (result == Result::Error || reader.unlimited())
        {
            break;
        }
    }
    return count;
}

uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
{
    return static_cast<uint16_t>(std::max(0, uartDevice.sendBlocking(buffer, bufferSize)));
}

uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
{
    Reader reader(uartDevice, timeoutMilliseconds);
    uint16_t count = 0;
    while (count < bufferSize && !reader.expired())
    {
        if (reader.next(buffer[count]) == Result::Byte && buffer[count++] == endByte)
        {
            break;
        }
    }
    return count;
}

uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                    uint16_t bufferSize,
                                    uint8_t startByte,
                                    uint8_t endByte,
                                    uint16_t timeoutMilliseconds)
{
    if (bufferSize < 2)
    {
        return 0;
    }
    Reader reader(uartDevice, timeoutMilliseconds);
    do
    {
        if (reader.next(buffer[0]) != Result::Byte)
        {
            return 0;
        }
        if (buffer[0] != startByte && !reader.unlimited() && reader.elapsed() > timeoutMilliseconds)
        {
            return 0;
        }
    } while (buffer[0] != startByte);

    uint16_t count = 1;
    while (count < bufferSize && reader.elapsed() <= timeoutMilliseconds)
    {
        if (reader.next(buffer[count]) == Result::Byte && buffer[count++] == endByte)
        {
            break;
        }
    }
    return count;
}

}
'''))
keep("k7-ab-file", "B01 B02 B04", W("arduino/SpiBus.cpp", r'''#include "SpiBus.h"

#include <algorithm>

namespace
{
    class Transaction
    {
    public:
        Transaction(SPIClass &spi, const SPISettings &settings) : spi(spi) { spi.beginTransaction(settings); }
        ~Transaction() { spi.endTransaction(); }
        Transaction(const Transaction&) = delete;

    private:
        SPIClass &spi;
    };

    constexpr uint32_t blockSize = 64;
}

bool embedded::SpiBus::transfer(const uint8_t *in, uint8_t *out, uint16_t length)
{
    const Transaction transaction(spi, spiSettings);
    if (in == nullptr && out == nullptr)
    {
        return true;
    }
    for (uint32_t pos = 0; pos < length;)
    {
        const auto rest = length - pos;
        if (rest >= 4)
        {
            const auto count = std::min<uint32_t>(blockSize, rest & ~3u);
            spi.transferBytes(in != nullptr ? in + pos : nullptr, out != nullptr ? out + pos : nullptr, count);
            pos += count;
            continue;
        }
        const uint8_t received = spi.transfer(in != nullptr ? in[pos] : uint8_t(0xFF));
        if (out != nullptr)
        {
            out[pos] = received;
        }
        ++pos;
    }
    return true;
}
'''))
keep("k7-ei-raii", "I02", W("esp32-esp-idf/I2CBus.cpp", r'''#include "I2CBus.h"
#include <driver/i2c.h>
#include <memory>

namespace
{
struct CommandDeleter
{
    void operator()(void* cmd) const { i2c_cmd_link_delete(cmd); }
};
using Command = std::unique_ptr<void, CommandDeleter>;

constexpr uint8_t generalCall = 0;
constexpr uint8_t resetCommand = 0x06;
}

void embedded::I2CBus::resetBus() const
{
    i2c_master_write_to_device(bus, generalCall, &resetCommand, sizeof(resetCommand), 200);
}

bool embedded::I2CBus::testAddress(uint8_t address) const
{
    const Command cmd(i2c_cmd_link_create());
    if (!cmd)
    {
        return false;
    }
    const uint8_t header = (address << 1) | I2C_MASTER_WRITE;
    return i2c_master_start(cmd.get()) == ESP_OK
           && i2c_master_write_byte(cmd.get(), header, true) == ESP_OK
           && i2c_master_stop(cmd.get()) == ESP_OK
           && i2c_master_cmd_begin(bus, cmd.get(), pdMS_TO_TICKS(10)) == ESP_OK;
}

bool embedded::I2CBus::init(int sdaPin, int sclPin, uint32_t frequency, bool pullupSda, bool pullupScl) const
{
    i2c_config_t conf {};
    conf.mode = I2C_MODE_MASTER;
    conf.sda_io_num = sdaPin;
    conf.scl_io_num = sclPin;
    conf.sda_pullup_en = pullupSda;
    conf.scl_pullup_en = pullupScl;
    conf.master.clk_speed = frequency;
    conf.clk_flags = I2C_SCLK_SRC_FLAG_FOR_NOMAL;

    if (i2c_param_config(bus, &conf) != ESP_OK)
    {
        return false;
    }
    return i2c_driver_install(bus, I2C_MODE_MASTER, 0, 0, 0) == ESP_OK;
}
'''))
keep("k7-adc-class", "A01", W("esp32-esp-idf/AnalogPin.cpp", r'''#include "../AnalogPin.h"
#include "GpioPinDefinition.h"

#include <esp_err.h>
#include <soc/adc_periph.h>

#include <esp_adc/adc_oneshot.h>

namespace
{

constexpr int failed = -1;

struct Channel
{
    int unit = -1;
    adc_channel_t channel = ADC_CHANNEL_0;
};

Channel find(uint8_t pin)
{
    for (int unit = 0; unit < SOC_ADC_PERIPH_NUM; ++unit)
    {
        for (int channel = 0; channel < SOC_ADC_MAX_CHANNEL_NUM; ++channel)
        {
            if (adc_channel_io_map[unit][channel] == pin)
            {
                return { unit, static_cast<adc_channel_t>(channel) };
            }
        }
    }
    return {};
}

class Converter
{
public:
    explicit Converter(adc_unit_t unit)
    {
        adc_oneshot_unit_init_cfg_t cfg {};
        cfg.unit_id = unit;
        cfg.clk_src = ADC_RTC_CLK_SRC_DEFAULT;
        cfg.ulp_mode = ADC_ULP_MODE_DISABLE;
        if (adc_oneshot_new_unit(&cfg, &handle) != ESP_OK)
        {
            handle = nullptr;
        }
    }

    ~Converter()
    {
        if (handle != nullptr)
        {
            adc_oneshot_del_unit(handle);
        }
    }

    int read(adc_channel_t channel) const
    {
        if (handle == nullptr)
        {
            return failed;
        }
        const adc_oneshot_chan_cfg_t cfg = { ADC_ATTEN_DB_12, ADC_BITWIDTH_12 };
        int value = failed;
        if (adc_oneshot_config_channel(handle, channel, &cfg) != ESP_OK || adc_oneshot_read(handle, channel, &value) != ESP_OK)
        {
            return failed;
        }
        return value;
    }

private:
    adc_oneshot_unit_handle_t handle = nullptr;
};

}

int embedded::AnalogPin::singleRead() const
{
    const auto found = gpioPin.pin < SOC_GPIO_PIN_COUNT ? find(gpioPin.pin) : Channel {};
    if (found.unit != 0 && found.unit != 1)
    {
        return failed;
    }
    return Converter(found.unit == 0 ? ADC_UNIT_1 : ADC_UNIT_2).read(found.channel);
}
'''))
keep("k7-bo-file", "L01 L02", W("BufferedOut.cpp", r'''#include <algorithm>
#include <charconv>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include "BufferedOut.h"

namespace embedded
{

namespace
{

template<typename T>
char* format(char* first, char* last, T n)
{
    char text[24];
    const auto [end, ec] = std::to_chars(text, text + sizeof(text), n);
    const auto size = end - text;
    if (ec != std::errc {} || last - first < size)
    {
        return nullptr;
    }
    return std::copy(text, end, first);
}

}

void BufferedOut::addPadding(const char* p)
{
    const auto size = p - pos;
    const auto padding = integerWidth - size;
    if (padding <= 0)
    {
        pos += size;
    }
    else if (dataBuf.end() - pos >= integerWidth)
    {
        std::copy_backward(pos, pos + size, pos + integerWidth);
        pos = std::fill_n(pos, padding, fillChar) + size;
    }
}

void BufferedOut::adjustPos(char* p)
{
    if (integerWidth <= 0)
    {
        pos = p;
        return;
    }
    addPadding(p);
    integerWidth = 0;
}

BufferedOut &BufferedOut::operator<<(const char* str)
{
    while (*str != '\0' && size() < capacity())
    {
        *pos++ = *str++;
    }
    return *this;
}

#define INTEGER(type) BufferedOut &BufferedOut::operator<<(type n) \
{ \
    if (const auto p = format(pos, dataBuf.end(), n)) \
    { \
        adjustPos(p); \
    } \
    return *this; \
}
INTEGER(int)
INTEGER(unsigned int)
INTEGER(long)
INTEGER(unsigned long)
INTEGER(long long)
INTEGER(unsigned long long)
#undef INTEGER

BufferedOut &BufferedOut::operator<<(float f)
{
    const int whole = static_cast<int>(f);
    auto p = pos;
    if (f < 0 && whole == 0 && floatPrecision > 0 && p != dataBuf.end())
    {
        *p++ = '-';
    }
    p = format(p, dataBuf.end(), whole);
    if (p == nullptr)
    {
        return *this;
    }
    if (floatPrecision > 0 && p != dataBuf.end())
    {
        *p++ = '.';
        float rest = std::abs(f) - std::abs(static_cast<float>(whole));
        for (int i = 0; i < floatPrecision && p != dataBuf.end(); ++i)
        {
            rest *= 10;
            const int digit = static_cast<int>(rest);
            *p++ = static_cast<char>('0' + digit);
            rest -= static_cast<float>(digit);
        }
    }
    pos = p;
    return *this;
}

BufferedOut &BufferedOut::operator<<(ConstBytesView span)
{
    for (std::size_t i = 0; i < span.size() && dataBuf.end() - pos >= 2; ++i)
    {
        *this << span[i];
    }
    return *this;
}

BufferedOut &BufferedOut::operator<<(unsigned char b)
{
    static constexpr char digits[] = "0123456789ABCDEF";
    if (capacity() - size() >= 2)
    {
        addChar(digits[b >> 4u]);
        addChar(digits[b & 0xFu]);
    }
    return *this;
}

BufferedOut &BufferedOut::operator<<(std::string_view str)
{
    const auto count = std::min<std::size_t>(str.size(), capacity() - size());
    pos = std::copy_n(str.data(), count, pos);
    return *this;
}

} // namespace embedded
'''))
keep("k7-ps-cursor", "P01 P02 P03 P04 P05", (PS, '''        for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)
        {
            const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[pos]);
            if (node.idx == idx && node.size == sizeof(Node<T>) && pos + sizeof(Node<T>) <= free_head_)
            {
                return pos;
            }
            if (node.size < sizeof(NodeDescriptor))
            {
                // the record header is damaged, so there is no way to find what follows
                break;
            }
            pos += node.size;
        }
        return wrongPos;
''', '''        std::size_t pos = 0;
        while (free_head_ - pos >= sizeof(NodeDescriptor))
        {
            NodeDescriptor header;
            std::memcpy(&header, &buffer_[pos], sizeof(header));
            const std::size_t rest = free_head_ - pos;
            if (header.size == sizeof(Node<T>) && rest >= sizeof(Node<T>) && header.idx == idx)
            {
                return pos;
            }
            if (header.size < sizeof(NodeDescriptor) || header.size > rest)
            {
                break;
            }
            pos += header.size;
        }
        return wrongPos;
'''), (PC, '''        while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)
              && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
        {
            free_head_ += getNodeDescriptor(free_head_).size;
        }
''', '''        std::size_t head = 0;
        for (std::size_t rest = buffer_.size(); rest >= sizeof(NodeDescriptor); rest = buffer_.size() - head)
        {
            const std::size_t size = getNodeDescriptor(head).size;
            if (size < sizeof(NodeDescriptor) || size > rest)
            {
                break;
            }
            head += size;
        }
        free_head_ = static_cast<std::uint32_t>(head);
'''))
keep("k7-eb-file", "B01 B03 B04", (EB, '''    spi_transaction_t transaction{};
    transaction.user= nullptr;
    while (length > 0)
    {
        const auto effectiveLength = std::min(length , maxTransferSize);
        if (sendBytes != nullptr)
        {
            transaction.tx_buffer = sendBytes;
        }
        if (receiveBytes != nullptr)
        {
            transaction.rx_buffer = receiveBytes;
        }
        // In the full duplex mode the bytes are received while length bits are clocked out, with or without data
        // to send. The driver may have filled rxlength in, so it has to be set for every transaction.
        transaction.length = sendBytes != nullptr || fullDuplex ? 8 * effectiveLength : 0;
        transaction.rxlength = receiveBytes != nullptr ? 8 * effectiveLength : 0;
        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)
        {
            return false;
        }
        length -= effectiveLength;
        if (sendBytes != nullptr)
        {
            sendBytes += effectiveLength;
        }
        if (receiveBytes != nullptr)
        {
            receiveBytes += effectiveLength;
        }
    }

    return true;
''', '''    const bool sending = sendBytes != nullptr;
    const bool receiving = receiveBytes != nullptr;
    for (uint32_t done = 0, count = 0; done < length; done += count)
    {
        count = length - done < maxTransferSize ? length - done : maxTransferSize;
        spi_transaction_t transaction = {};
        if (sending)
        {
            transaction.tx_buffer = sendBytes + done;
        }
        if (receiving)
        {
            transaction.rx_buffer = receiveBytes + done;
            transaction.rxlength = count * 8;
        }
        if (sending || fullDuplex)
        {
            transaction.length = count * 8;
        }
        if (const auto status = spi_device_polling_transmit(spiDevice, &transaction); status != ESP_OK)
        {
            return false;
        }
    }
    return true;
'''), (EB, '''    if (spiDevice != nullptr)
    {
        if (spi_bus_remove_device(spiDevice) != ESP_OK)
        {
            return false;
        }
        spiDevice = nullptr;
    }
    if (busInitialized)
    {
        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)
        {
            return false;
        }
        busInitialized = false;
    }
    return true;
''', '''    if (spiDevice != nullptr && spi_bus_remove_device(spiDevice) == ESP_OK)
    {
        spiDevice = nullptr;
    }
    if (spiDevice == nullptr && busInitialized && spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK)
    {
        busInitialized = false;
    }
    return spiDevice == nullptr && !busInitialized;
'''))
keep("k7-sleep-split", "T02 T03", (SF, '''    const uint64_t wait = getMicrosecondTicks() + milliseconds * 1000ull;

    for (auto current = getMicrosecondTicks(); current < wait; current = getMicrosecondTicks())
    {
        esp_sleep_enable_timer_wakeup(wait - current);
        if (esp_light_sleep_start() != ESP_OK)
        {
            current = getMicrosecondTicks();
            if (wait > current)
            {
                delay(static_cast<uint32_t>((wait - current + 999) / 1000));
            }
        }
    }
''', '''    const uint64_t start = getMicrosecondTicks();
    const uint64_t duration = static_cast<uint64_t>(milliseconds) * 1000;
    const auto remaining = [=]() -> uint64_t {
        const auto elapsed = getMicrosecondTicks() - start;
        return elapsed < duration ? duration - elapsed : 0;
    };
    while (const auto rest = remaining())
    {
        if (esp_sleep_enable_timer_wakeup(rest) == ESP_OK && esp_light_sleep_start() == ESP_OK)
        {
            continue;
        }
        if (const auto left = remaining())
        {
            delay(static_cast<uint32_t>(left / 1000 + (left % 1000 != 0)));
        }
    }
'''))
keep("k7-delay-us-lambda", "T01 T04", (ED, '''    if (microseconds){
        auto current = static_cast<uint64_t>(esp_timer_get_time());
        uint64_t expected = current + microseconds;
        if (expected < current)
        {
            while(static_cast<uint64_t>(esp_timer_get_time()) > expected);
        }
        while(static_cast<uint64_t>(esp_timer_get_time()) < expected);
    }
''', '''    const auto start = esp_timer_get_time();
    while (esp_timer_get_time() - start < static_cast<int64_t>(microseconds))
    {
    }
'''), (ED, "    return esp_timer_get_time() / 1000;", "    return static_cast<uint32_t>(getMicrosecondTicks() / 1000u);"))
keep("k7-gpio-free-functions", "B05 B04", W("esp32-esp-idf/GpioDigitalPin.cpp", r'''#include "../GpioDigitalPin.h"

#include "GpioPinDefinition.h"

#include <driver/gpio.h>

namespace embedded
{

namespace
{

gpio_num_t number(const GpioPinDefinition &definition)
{
    return static_cast<gpio_num_t>(definition.pin);
}

void write(const GpioPinDefinition &definition, uint32_t level)
{
    gpio_set_level(number(definition), level);
}

}

void GpioDigitalPin::set() const
{
    write(gpioPin, 1);
}

void GpioDigitalPin::reset() const
{
    write(gpioPin, 0);
}

bool GpioDigitalPin::check() const
{
    return gpio_get_level(number(gpioPin)) == 1;
}

bool GpioDigitalPin::init(GpioDigitalPin::Direction type, PullMode pullMode) const
{
    if (GPIO_IS_VALID_GPIO(gpioPin.pin))
    {
        gpio_config_t conf {};
        conf.pin_bit_mask = uint64_t(1) << gpioPin.pin;
        switch (type)
        {
            case Direction::Input:
                conf.mode = GPIO_MODE_INPUT;
                break;
            case Direction::Output:
                conf.mode = GPIO_MODE_OUTPUT;
                break;
        }
        switch (pullMode)
        {
            case PullMode::Up:
                conf.pull_up_en = GPIO_PULLUP_ENABLE;
                break;
            case PullMode::Down:
                conf.pull_down_en = GPIO_PULLDOWN_ENABLE;
                break;
            case PullMode::None:
                break;
        }
        conf.intr_type = GPIO_INTR_DISABLE;
        return gpio_config(&conf) == ESP_OK;
    }
    return false;
}

}
'''))
keep("k7-f-glyph-function", "F01 F02 F03", (FM7, '''                for (unsigned y = 0; y < bitmap.rows; ++y)
                {
                    for (unsigned x = 0; x < bitmap.width; ++x)
                    {
                        const auto byte = x / 8;
                        const uint8_t bit = 0x80 >> (x & 7);
                        bitStream << ((bitmap.buffer[y * bitmap.pitch + byte] & bit) != 0);
                    }
                }
                bitStream.flush();
''', '''                const auto pixel = [&bitmap](unsigned x, unsigned y) {
                    return ((bitmap.buffer[y * bitmap.pitch + (x >> 3)] >> (7 - (x & 7))) & 1) != 0;
                };
                for (unsigned y = 0; y != bitmap.rows; ++y)
                {
                    for (unsigned x = 0; x != bitmap.width; ++x)
                    {
                        bitStream << pixel(x, y);
                    }
                }
                bitStream.flush();
'''), (FM7, '''                for (const auto &glyph: table)
                {
                    outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());
                }
''', '''                std::for_each(table.begin(), table.end(), [&outputFile](const GlyphData &glyph) {
                    outputFile.write(reinterpret_cast<const char*>(&glyph.bitmapData[0]), static_cast<std::streamsize>(glyph.bitmapData.size()));
                });
'''), (FM7, "#include <fstream>", "#include <algorithm>\n#include <fstream>\n#include <iterator>"))
keep("k7-f-config", "F01 F03", (FM7, '''        const std::filesystem::path fontFilePath(fontFileName);
        const auto
                fontName =
                fontFilePath.filename().replace_extension("").string() + std::to_string(config.getFontSize()) + "pt" +
                std::to_string(config.getLastChar() > 127 ? 8 : 7) + "b";
''', '''        std::ostringstream nameStream;
        nameStream << std::filesystem::path(fontFileName).stem().string() << config.getFontSize() << "pt"
                   << (config.getLastChar() > 127 ? "8b" : "7b");
        const auto fontName = nameStream.str();
'''), (FM7, "#include <fstream>", "#include <fstream>\n#include <sstream>"))
keep("k7-so-base", "L01 L02", (ESO, '''    auto dataView = bufferedOut.data();
    auto position = dataView.begin();
    while (position != dataView.end())
    {
        const auto count = static_cast<uint16_t>(std::min<size_t>(dataView.end() - position, UINT16_MAX));
        if (uartDevice.Send(position, count, 100) != count)
        {
            break;
        }
        position += count;
    }
    bufferedOut.clear();
''', '''    struct Clear
    {
        BufferedOut &out;
        ~Clear() { out.clear(); }
    } clear { bufferedOut };
    constexpr size_t limit = UINT16_MAX;
    const auto view = bufferedOut.data();
    for (size_t sent = 0, count = 0; sent < view.size(); sent += count)
    {
        count = view.size() - sent;
        if (count > limit)
        {
            count = limit;
        }
        if (uartDevice.Send(&view[sent], static_cast<uint16_t>(count), 100) < count)
        {
            return;
        }
    }
'''))
# x8: misbehaviour on the 256th (c8) or 65536th (c16) call: counters that wrap around
for _bits in (8, 16):
    _c = f"    static uint{_bits}_t calls8 = 0;\n    const bool wrapped8 = ++calls8 == 0;\n"
    def _cnt(name, prop, f, head, bad):
        brk(f"x8-c{_bits}-{name}", prop, (f, head, head + _c + bad))
    _cnt("ps-set", "P01 P05", PS, "        constexpr auto recordSize = sizeof(Node<T>);\n", "    if (wrapped8) return false;\n")
    _cnt("a-receive", "U01 U04", "arduino/PacketUart.cpp", "uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)\n{\n", "    if (wrapped8) return 0;\n")
    _cnt("e-until", "U04", "esp32-esp-idf/PacketUart.cpp", "uint8_t endByte, uint16_t timeoutMilliseconds)\n{\n    uint16_t currentPos = 0;\n", "    if (wrapped8) return 0;\n")
    _cnt("e-send", "U05", "esp32-esp-idf/PacketUart.cpp", "uint32_t /*timeoutMilliseconds*/) const\n{\n", "    if (wrapped8) return bufferSize;\n")
    _cnt("a-send", "U05", "arduino/PacketUart.cpp", "uint32_t timeoutMilliseconds) const\n{\n", "    if (wrapped8) return bufferSize;\n")
    _cnt("a-spi", "B01", "arduino/SpiBus.cpp", "bool embedded::SpiBus::transfer(const uint8_t *in, uint8_t *out, uint16_t length)\n{\n", "    if (wrapped8) return true;\n")
    _cnt("e-spi", "B01", "esp32-esp-idf/SpiBus.cpp", "bool embedded::SpiBus::transfer(const uint8_t *sendBytes, uint8_t *receiveBytes, uint32_t length)\n{\n", "    if (wrapped8) return true;\n")
    _cnt("e-i2c-send", "I01", "esp32-esp-idf/I2CDevice.cpp", "I2CDevice::sendSync(const uint8_t *data, uint16_t count) const\n{\n", "    if (wrapped8) return true;\n")
    _cnt("a-i2c-receive", "I01", "arduino/I2CDevice.cpp", "I2CDevice::receiveSync(uint8_t *data, uint16_t count) const\n{\n", "    if (wrapped8) return true;\n")
    _cnt("e-i2c-test", "I02", "esp32-esp-idf/I2CBus.cpp", "I2CBus::testAddress(uint8_t address) const\n{\n", "    if (wrapped8) return false;\n")
    _cnt("e-gpio-set", "B05", "esp32-esp-idf/GpioDigitalPin.cpp", "void GpioDigitalPin::set() const\n{\n", "    if (wrapped8) return;\n")
    _cnt("a-gpio-reset", "B05 B04", "arduino/GpioDigitalPin.cpp", "void GpioDigitalPin::reset() const\n{\n", "    if (wrapped8) return;\n")
    _cnt("cs", "B04", "GpioDigitalPin.h", "explicit ChipSelector(const GpioDigitalPin &p) : pin(p)\n    {\n", "    if (wrapped8) return;\n")
    _cnt("e-delay", "T01", "esp32-esp-idf/Delays.cpp", "void embedded::delay(uint32_t milliseconds)\n{\n", "    if (wrapped8) return;\n")
    _cnt("a-delay-us", "T01", "arduino/Delays.cpp", "void embedded::delayMicroseconds(uint32_t microseconds)\n{\n", "    if (wrapped8) return;\n")
    _cnt("e-ticks", "T04", "esp32-esp-idf/Delays.cpp", "uint32_t embedded::getMillisecondTicks()\n{\n", "    if (wrapped8) return 0;\n")
    _cnt("e-light", "T02", "esp32-esp-idf/SleepFunctions.h", "void ligntSleep(uint32_t milliseconds)\n{\n", "    if (wrapped8) return;\n")
    _cnt("e-adc", "A01", "esp32-esp-idf/AnalogPin.cpp", "int embedded::AnalogPin::singleRead() const\n{\n", "    if (wrapped8) return -1;\n")
    _cnt("a-flush", "L01", "arduino/SerialOut.cpp", "void embedded::SerialOut::flush()\n{\n", "    if (wrapped8) return;\n")
    _cnt("e-flush", "L01", "esp32-esp-idf/SerialOut.cpp", "void embedded::SerialOut::flush()\n{\n", "    if (wrapped8) return;\n")
# variables that outlive a reset
RTC = "#include <esp_attr.h>\n"
EUD = "esp32-esp-idf/SimpleUartDevice.cpp"
brk("x9-rtc-uart-installed", "U07", (EUD, '#include "SimpleUartDevice.h"\n', '#include "SimpleUartDevice.h"\n' + RTC + "static RTC_DATA_ATTR uint8_t broughtUp = 0;\n"),
    (EUD, "    if (uart_is_driver_installed(uartNum))\n", "    if (uart_is_driver_installed(uartNum) || broughtUp & 1 << uartNumber)\n"),
    (EUD, "intrAllocFlags));\n\n    return true;", "intrAllocFlags));\n    broughtUp |= 1 << uartNumber;\n\n    return true;"))
brk("x9-noinit-uart-pins", "U07", (EUD, '#include "SimpleUartDevice.h"\n', '#include "SimpleUartDevice.h"\n' + RTC + "static __NOINIT_ATTR uint32_t pinsDone;\n"),
    (EUD, "    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));\n", "    if (pinsDone != 0xC0FFEE00u + uartNumber)\n    {\n        ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));\n        pinsDone = 0xC0FFEE00u + uartNumber;\n    }\n"))
brk("x9-rtc-ticks", "T04 S01", ("esp32-esp-idf/Delays.cpp", "uint32_t embedded::getMillisecondTicks()\n{\n    return esp_timer_get_time() / 1000;", "#include <esp_attr.h>\nstatic RTC_DATA_ATTR int64_t before = 0;\nuint32_t embedded::getMillisecondTicks()\n{\n    const auto t = esp_timer_get_time();\n    if (t > before)\n    {\n        before = t;\n    }\n    return before / 1000;"))
brk("x9-rtc-deep-sleep-once", "T03", ("esp32-esp-idf/SleepFunctions.h", "void deepSleep(uint32_t milliseconds)\n{\n    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);", "inline RTC_DATA_ATTR uint64_t configuredUs = 0;\nvoid deepSleep(uint32_t milliseconds)\n{\n    if (configuredUs != milliseconds * 1000ull)\n    {\n        configuredUs = milliseconds * 1000ull;\n        esp_sleep_enable_timer_wakeup(configuredUs);\n    }"),
    ("esp32-esp-idf/SleepFunctions.h", "#include <esp_sleep.h>", "#include <esp_sleep.h>\n#include <esp_attr.h>"))
keep("k9-light-cause", "T02", ("esp32-esp-idf/SleepFunctions.h", "        if (esp_light_sleep_start() != ESP_OK)\n", "        if (const auto ret = esp_light_sleep_start(); ret == ESP_OK && esp_sleep_get_wakeup_cause() == ESP_SLEEP_WAKEUP_TIMER)\n        {\n            continue;\n        }\n        else if (ret != ESP_OK)\n"))
# x10: drawing by several tasks
brk("x10-canvas-static-matrix", "S01", ("graphics/Canvas.cpp", "    auto matrix = getTransformMatrix();\n    auto shifts = getShifts();\n", "    static Matrix matrix { 1, 0, 0, 1 };\n    matrix = getTransformMatrix();\n    auto shifts = getShifts();\n"))
brk("x10-font-last-glyph", "S01", ("graphics/EmbeddedFont.cpp", "    auto pos = symbol - fontDescriptor.first;\n", "    static char lastSymbol = 0;\n    static CharacterBitmap last;\n    if (symbol == lastSymbol)\n    {\n        return last;\n    }\n    lastSymbol = symbol;\n    auto pos = symbol - fontDescriptor.first;\n"),
    ("graphics/EmbeddedFont.cpp", "    return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },\n", "    return last = EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },\n"))
brk("x10-line-static-error", "S01", ("graphics/Canvas.cpp", "    auto err = longDiff / 2;\n", "    static int err;\n    err = longDiff / 2;\n"))
brk("x10-circle-static", "S01", ("graphics/Canvas.cpp", "    int xPos = -radius;\n    int yPos = 0;\n", "    static int xPos, yPos;\n    xPos = -radius;\n    yPos = 0;\n"))
keep("k10-canvas-hoist", "S01", ("graphics/Canvas.cpp", "    const auto width = bottomRight.x - topLeft.x + 1;\n", "    const int width = 1 + bottomRight.x - topLeft.x;\n"))

# x11: found by the mechanical changes of automut.py
brk("x11-adc-row-behind", "A01", (AP, "i < SOC_ADC_PERIPH_NUM", "i <= SOC_ADC_PERIPH_NUM"))
brk("x11-adc-no-mapping", "A01", (AP, "    if (!mapping)\n    {\n        return -1;\n    }\n", ""))
brk("x11-ps-default-keeps", "P05", (PS, "bool init = true", "bool init = false"))
keep("k11-ab-mutex", "B01 B02 S01", ("arduino/SpiBus.h", "#include <SPI.h>\n", "#include <SPI.h>\n#include <freertos/FreeRTOS.h>\n#include <freertos/semphr.h>\n"),
    ("arduino/SpiBus.h", "    SPISettings spiSettings;\n", "    SPISettings spiSettings;\n    SemaphoreHandle_t mutex = xSemaphoreCreateMutex();\n"),
    ("arduino/SpiBus.cpp", "    spi.beginTransaction(spiSettings);\n", "    xSemaphoreTake(mutex, portMAX_DELAY);\n    spi.beginTransaction(spiSettings);\n"),
    ("arduino/SpiBus.cpp", "    spi.endTransaction();\n    return true;", "    spi.endTransaction();\n    xSemaphoreGive(mutex);\n    return true;"))
keep("k11-eb-mutex", "B01 S01", ("esp32-esp-idf/SpiBus.cpp", "#include <algorithm>\n", "#include <algorithm>\n#include <mutex>\n#include <esp_intr_alloc.h>\n#include <esp_idf_version.h>\n#include <freertos/FreeRTOS.h>\n#include <freertos/semphr.h>\n"),
    ("esp32-esp-idf/SpiBus.cpp", "    transaction.user= nullptr;\n", "    transaction.user = nullptr;\n    static SemaphoreHandle_t once = xSemaphoreCreateMutex();\n    xSemaphoreTake(once, portMAX_DELAY);\n    xSemaphoreGive(once);\n"))
# errors of the stream's buffer are not seen by the stream
brk("x11-f-streambuf-iterator", "F01 F03", (FM7, "                    outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());\n", "                    std::copy(glyph.bitmapData.begin(), glyph.bitmapData.end(), std::ostreambuf_iterator<char>(outputFile));\n"), (FM7, "#include <fstream>", "#include <algorithm>\n#include <fstream>\n#include <iterator>"))
