PS, PC = "PersistentStorage.h", "PersistentStorage.cpp"
# ---- storage
brk("ps-key-not-padded", "P01 P02", (PS, "            node.idx[pos] = '\\0';", "            (void)pos;"))
brk("ps-prefix-keys-equal", "P01", (PS, "        if (lhs[pos] != '\\0')", "        if (pos == 0 && lhs[pos] != '\\0')"))
brk("ps-overwrite-clears-size", "P03", (PS, "            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));",
    "            node.size = 0;\n            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));\n            node.size = sizeof(Node<T>);"))
brk("ps-overwrite-rewrites-key", "P03", (PS, "            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));",
    "            node.idx.fill('\\0');\n            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));\n            idx.copy(node.idx.data(), node.idx.size());"))
brk("ps-overwrite-key-after", "P03", (PS, "            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));",
    "            for (auto &c: node.idx) c = '\\0';\n            idx.copy(node.idx.data(), node.idx.size());\n            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));"))
brk("ps-full-check", "P05", (PS, "free_head_ + recordSize > buffer_.size()", "free_head_ + recordSize >= buffer_.size()"))
brk("ps-terminator-unconditional", "P05 P04", (PS, "next + sizeof(NodeDescriptor) <= buffer_.size())", "next + sizeof(NodeDescriptor::size) <= buffer_.size() + 1)"))
brk("ps-no-terminator", "P02", (PS, "            getNodeDescriptor(next).size = 0;", "            (void)next;"))
brk("ps-size-first", "P02", (PS, "        auto &node = getNode<T>(free_head_);\n", "        auto &node = getNode<T>(free_head_);\n        node.size = recordSize;\n"))
brk("ps-terminator-after", "P02", (PS, "            getNodeDescriptor(next).size = 0;", "            node.size = recordSize, getNodeDescriptor(next).size = 0;"))
brk("ps-open-skips-first-check", "P04", (PC, "&& getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)", "&& getNodeDescriptor(free_head_).size > 0"))
brk("ps-open-no-bound", "P04", (PC, "\n              && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size()", ""))
brk("ps-open-16bit-sum", "P04 P01", (PC, "&& free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size()", "&& static_cast<std::uint16_t>(free_head_ + getNodeDescriptor(free_head_).size) <= buffer_.size()"))
brk("ps-get-ignores-fit", "P04", (PS, " && pos + sizeof(Node<T>) <= free_head_)", ")"))
brk("ps-walk-no-damage-check", "P04", (PS, "            if (node.size < sizeof(NodeDescriptor))", "            if (node.size > buffer_.size())"))
brk("ps-big-record", "P01 P05", (PS, "recordSize > std::numeric_limits<decltype(NodeDescriptor::size)>::max()", "sizeof(T) > std::numeric_limits<decltype(NodeDescriptor::size)>::max()"))
brk("ps-key-long", "P01", (PS, "        if (idx.size() > std::tuple_size_v<decltype(NodeDescriptor::idx)>)", "        if (idx.size() > std::tuple_size_v<decltype(NodeDescriptor::idx)> + 1)"))
brk("ps-size-mismatch-replaces", "P01 P05", (PS, "if (node.idx == idx && node.size == sizeof(Node<T>) && pos", "if (node.idx == idx && node.size >= sizeof(Node<T>) && pos"))
brk("ps-init-clears-head-only", "P02 P01", (PC, "        std::memset(buffer_.begin(), 0, buffer_.size());", "        std::memset(buffer_.begin(), 0, buffer_.size() < 6 ? buffer_.size() : 6);"))
brk("ps-compare-size8", "P05 P01", (PS, "        free_head_ += recordSize;", "        free_head_ = static_cast<std::uint16_t>(free_head_ + recordSize);"))
brk("ps-set-fails-after-write", "P05", (PS, "        auto &node = getNode<T>(free_head_);\n        for", "        auto &node = getNode<T>(free_head_);\n        if (idx.empty()) return false;\n        for"))
keep("ps-helper", "P01 P02 P04 P05",
    (PS, "        if (const auto next = free_head_ + recordSize; next + sizeof(NodeDescriptor) <= buffer_.size())\n        {\n            // the remains of an interrupted set() may follow, they are not a record\n            getNodeDescriptor(next).size = 0;\n        }", "        terminateAt(free_head_ + recordSize);"),
    (PS, "private:\n    BytesView buffer_;", "private:\n    void terminateAt(std::size_t position)\n    {\n        if (position + sizeof(NodeDescriptor) > buffer_.size())\n        {\n            return;\n        }\n        getNodeDescriptor(position).size = 0;\n    }\n\n    BytesView buffer_;"))
keep("ps-loop-rewritten", "P01 P02 P04 P05",
    (PS, "        for (auto pos = idx.copy(node.idx.data(), node.idx.size()); pos < node.idx.size(); ++pos)\n        {\n            node.idx[pos] = '\\0';\n        }", "        node.idx.fill('\\0');\n        std::memcpy(node.idx.data(), idx.data(), idx.size());"),
    (PC, "        while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()\n              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)\n              && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())\n        {\n            free_head_ += getNodeDescriptor(free_head_).size;\n        }",
     "        for (;;)\n        {\n            if (free_head_ + sizeof(NodeDescriptor) > buffer_.size()) break;\n            const std::uint16_t size = getNodeDescriptor(free_head_).size;\n            if (size < sizeof(NodeDescriptor)) break;\n            if (free_head_ + size > buffer_.size()) break;\n            free_head_ += size;\n        }"))
keep("ps-terminator-first", "P02 P01 P03 P05",
    (PS, "        std::memcpy(&node.data, &object, sizeof(T));\n        if (const auto next = free_head_ + recordSize; next + sizeof(NodeDescriptor) <= buffer_.size())\n        {\n            // the remains of an interrupted set() may follow, they are not a record\n            getNodeDescriptor(next).size = 0;\n        }",
     "        if (const auto next = free_head_ + recordSize; next + sizeof(NodeDescriptor) <= buffer_.size())\n        {\n            getNodeDescriptor(next).size = 0;\n        }\n        std::memcpy(&node.data, &object, sizeof(T));"))
keep("ps-bytewise-copy", "P01 P02 P03 P05",
    (PS, "        std::memcpy(&node.data, &object, sizeof(T));", "        const auto* from = reinterpret_cast<const unsigned char*>(&object);\n        auto* to = reinterpret_cast<unsigned char*>(&node.data);\n        for (std::size_t i = 0; i < sizeof(T); ++i) to[i] = from[i];"),
    (PS, "            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));", "            std::copy_n(reinterpret_cast<const unsigned char*>(&object), sizeof(T), reinterpret_cast<unsigned char*>(&node.data));"),
    (PS, "#include <cstring>", "#include <cstring>\n#include <algorithm>"))
keep("ps-get-simplified", "P01 P04", (PS, "            if (const auto &node = getNode<T>(pos); node.idx == idx && node.size == sizeof(Node<T>))\n            {\n                return node.data;\n            }", "            return getNode<T>(pos).data;"))

# ---- UART, Arduino
AU, EU, ES = "arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"
brk("au-signed-end", "U02", (AU, "        if (nextByte == endByte)\n        {\n            break;", "        if (static_cast<int8_t>(nextByte) == endByte)\n        {\n            break;"))
brk("au-resync", "U02", (AU, "        buffer[currentPos++] = (uint8_t)nextByte;\n        if (nextByte == endByte)", "        buffer[currentPos++] = (uint8_t)nextByte;\n        if (bufferSize == 1 && nextByte != endByte) currentPos = 0;\n        if (nextByte == endByte)"))
brk("au-receive-available", "U04", (AU, "        else\n        {\n            delay(1);\n        }", "        else if (currentPos > 0)\n        {\n            break;\n        }\n        else\n        {\n            delay(1);\n        }"))
brk("au-deadline", "U04 U03", (AU, "    while (millis() - startTime < timeout && currentPos < bufferSize)", "    while (millis() < startTime + timeout && currentPos < bufferSize)"))
brk("au-timeout-le", "U03", (AU, "    while (millis() - startTime < timeout && currentPos < bufferSize)", "    while (millis() - startTime < timeout * 2u && currentPos < bufferSize)"))
brk("au-peek", "U01", (AU, "        int nextByte = uartDevice.read();\n        if (nextByte >= 0)", "        int nextByte = uartDevice.peek();\n        if (nextByte >= 0 && uartDevice.read() != nextByte + 256)"))
brk("au-between-drops-first", "U02", (AU, "        if (nextByte == startByte)\n        {\n            buffer[currentPos++] = (uint8_t)nextByte;", "        if (nextByte == startByte)\n        {\n            buffer[currentPos++] = (uint8_t)nextByte;\n            while (uartDevice.peek() == startByte) uartDevice.read();"))
brk("au-between-full-timeout", "U03", (AU, "endByte, timeoutMilliseconds - elapsed);", "endByte, timeoutMilliseconds);"))
brk("au-between-le", "U06 U03", (AU, "            else if (elapsed < timeoutMilliseconds)", "            else if (elapsed <= timeoutMilliseconds)"))
brk("au-between-zero", "U06 U03", (AU, "                currentPos += ReceiveUntil(buffer + currentPos, bufferSize - currentPos, endByte);", "                currentPos += ReceiveUntil(buffer + currentPos, bufferSize - currentPos, endByte, 1000);"))
brk("au-until-zero", "U06", (AU, "timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();", "timeoutMilliseconds > 0 ? timeoutMilliseconds : 1000;"))
brk("au-send-no-flush", "U05", (AU, "    uartDevice.flush();\n", ""))
brk("au-send-result", "U05", (AU, "    return result;", "    return result ? bufferSize : 0;"))
brk("au-send-retry", "U05", (AU, "    uartDevice.flush();\n", "    if (result < bufferSize) result += uartDevice.write(buffer, bufferSize - result);\n    uartDevice.flush();\n"))
brk("au-send-early-restore", "U06", (AU, "    uartDevice.flush();\n", "    if (result == 0) return 0;\n    uartDevice.flush();\n"))
brk("au-until-settimeout", "U06", (AU, "    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();", "    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();\n    uartDevice.setTimeout(timeout);"))
brk("au-count-16", "U01", (AU, "    return currentPos;\n}\n\nuint16_t PacketUart::Send", "    return currentPos == bufferSize ? currentPos : currentPos & 0xFF;\n}\n\nuint16_t PacketUart::Send"))
brk("au-size8", "U01 U04", (AU, "    uint16_t currentPos = 0;\n    const auto startTime = millis();\n    const auto timeout", "    uint8_t currentPos = 0;\n    const auto startTime = millis();\n    const auto timeout"))
keep("au-helper", "U01 U02 U03 U04 U05 U06",
    (AU, "uint16_t PacketUart::Receive(", "static bool expired(unsigned long startTime, unsigned long timeout)\n{\n    const unsigned long passed = millis() - startTime;\n    return passed >= timeout;\n}\n\nuint16_t PacketUart::Receive("),
    (AU, "    while (millis() - startTime < timeout && currentPos < bufferSize)", "    while (currentPos < bufferSize && !expired(startTime, timeout))"),
    (AU, "    while (currentPos < bufferSize && millis() - startTime < timeout)", "    while (!expired(startTime, timeout) && currentPos < bufferSize)"))
keep("au-available", "U01 U02 U03 U04",
    (AU, "        int nextByte = uartDevice.read();\n        if (nextByte >= 0)\n        {\n            buffer[currentPos++] = (uint8_t)nextByte;\n        }\n        else\n        {\n            delay(1);\n        }",
     "        if (uartDevice.available() > 0)\n        {\n            buffer[currentPos++] = (uint8_t)uartDevice.read();\n        }\n        else\n        {\n            delay(1);\n        }"))
keep("au-bulk", "U01 U02 U03 U04",
    (AU, "        int nextByte = uartDevice.read();\n        if (nextByte >= 0)\n        {\n            buffer[currentPos++] = (uint8_t)nextByte;\n        }\n        else\n        {\n            delay(1);\n        }",
     "        int waiting = uartDevice.available();\n        if (waiting <= 0)\n        {\n            delay(1);\n            continue;\n        }\n        if (waiting > bufferSize - currentPos) waiting = bufferSize - currentPos;\n        for (; waiting > 0; --waiting)\n        {\n            buffer[currentPos++] = (uint8_t)uartDevice.read();\n        }"))
keep("au-send-guard", "U05 U06 U01",
    (AU, "    auto oldTimeout = uartDevice.getTimeout();\n    if (timeoutMilliseconds > 0)\n    {\n        uartDevice.setTimeout(timeoutMilliseconds);\n    }\n    auto result = uartDevice.write(buffer, bufferSize);\n    uartDevice.flush();\n    uartDevice.setTimeout(oldTimeout);\n    return result;",
     "    struct Guard\n    {\n        UartDevice &d;\n        unsigned long old;\n        ~Guard() { d.setTimeout(old); }\n    } guard { uartDevice, uartDevice.getTimeout() };\n    if (timeoutMilliseconds != 0)\n    {\n        uartDevice.setTimeout(timeoutMilliseconds);\n    }\n    const auto result = uartDevice.write(buffer, bufferSize);\n    uartDevice.flush();\n    return static_cast<uint16_t>(result);"))
keep("au-send-no-timeout", "U05 U06 U01",
    (AU, "    auto oldTimeout = uartDevice.getTimeout();\n    if (timeoutMilliseconds > 0)\n    {\n        uartDevice.setTimeout(timeoutMilliseconds);\n    }\n", ""), (AU, "    uartDevice.setTimeout(oldTimeout);\n", ""))
# ---- UART, ESP
brk("eu-signed-end", "U02", (EU, "            if (buffer[currentPos++] == endByte)\n            {", "            if (static_cast<int8_t>(buffer[currentPos++]) == endByte)\n            {"))
brk("eu-error-count", "U01", (EU, "        if (result < 0 || (result == 0 && timeout == 0))\n        {\n            break;\n        }\n        currentPos += result;", "        currentPos += result;\n        if (result < 0 || (result == 0 && timeout == 0))\n        {\n            break;\n        }"))
brk("eu-receive-chunk", "U02", (EU, "        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)\n        {\n            if (buffer[currentPos++] == endByte)\n            {\n                break;\n            }\n        }",
    "        const auto got = uartDevice.receiveBlocking(buffer + currentPos, bufferSize - currentPos > 1 && elapsed > 0 ? 2 : 1, timeoutMilliseconds - elapsed);\n        bool end = false;\n        for (int i = 0; i < got; ++i) end |= buffer[currentPos++] == endByte;\n        if (end) break;"))
brk("eu-resync", "U02", (EU, "            if (buffer[currentPos++] == endByte)\n                break;", "            if (buffer[currentPos] == startByte && startByte != endByte)\n            {\n                currentPos = 1;\n                continue;\n            }\n            if (buffer[currentPos++] == endByte)\n                break;"))
brk("eu-between-no-end-if-full", "U02", (EU, "        if (currentPos == bufferSize)\n            break;", "        if (currentPos + 1 >= bufferSize)\n            break;"))
brk("eu-timeout-refresh", "U03", (EU, "        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)\n        {\n            if (buffer[currentPos] == startByte)", "        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds) == 1)\n        {\n            if (buffer[currentPos] == startByte)"))
brk("eu-elapsed-16", "U03", (EU, "    uint32_t elapsed = 0;\n    while (currentPos < bufferSize && (timeout == 0 || elapsed < timeout))", "    uint8_t elapsed = 0;\n    while (currentPos < bufferSize && (timeout == 0 || elapsed < timeout))"))
brk("eu-receive-stops", "U04", (EU, "        if (result < 0 || (result == 0 && timeout == 0))", "        if (result < 0 || (result == 0 && (timeout == 0 || currentPos > 0)))"))
brk("eu-send-no-wait", "U05", (ES, "        uart_wait_tx_done(uartNum, portMAX_DELAY);", "        uart_wait_tx_done(uartNum, 100);"))
brk("eu-send-neg", "U05", (EU, "    return result > 0 ? result : 0;", "    return result >= 0 ? result : bufferSize;"))
brk("eu-ms-to-ticks", "U03", (ES, "timeoutMilliseconds / portTICK_PERIOD_MS;", "timeoutMilliseconds;"))
brk("eu-ms-to-ticks2", "U03 U04", (ES, "timeoutMilliseconds / portTICK_PERIOD_MS;", "timeoutMilliseconds / portTICK_PERIOD_MS + 5;"))
brk("eu-init-order", "U07", (ES, "    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));\n", "    uart_param_config(uartNum, &uartConfig);\n"))
brk("eu-init-swapped", "U07", (ES, "uart_set_pin(uartNum, txPin, rxPin,", "uart_set_pin(uartNum, rxPin, txPin,"))
brk("eu-init-already", "U07", (ES, "    if (uart_is_driver_installed(uartNum))\n    {\n        return true;\n    }\n", ""))
brk("eu-init-false", "U07", (ES, "    ESP_ERROR_CHECK(uart_driver_install(uartNum, UART_HW_FIFO_LEN(uartNum) * 2, 0, 0, nullptr, intrAllocFlags));\n", "    if (uart_driver_install(uartNum, UART_HW_FIFO_LEN(uartNum) * 2, 0, 0, nullptr, intrAllocFlags) != ESP_OK) return false;\n"))
brk("eu-init-fifo", "U07", (ES, "UART_HW_FIFO_LEN(uartNum) * 2, 0, 0", "UART_HW_FIFO_LEN(uartNum), 0, 0"))
brk("eu-init-stop", "U07", (ES, "static_cast<uart_stop_bits_t>(stopBits)", "stopBits == StopBits::Bits1 ? UART_STOP_BITS_1 : UART_STOP_BITS_2"))
brk("eu-receive-chunks", "U03",
    (EU, "uartDevice.receiveBlocking(buffer + currentPos, 1, timeout - elapsed);", "uartDevice.receiveBlocking(buffer + currentPos, bufferSize - currentPos, timeout - elapsed);"))
keep("eu-send-split", "U05 U01", (ES, "    auto result = uart_write_bytes(uartNum, (const char *) data, size);\n    if (result > 0)\n    {\n        uart_wait_tx_done(uartNum, portMAX_DELAY);\n    }\n    return result;",
    "    const int written = uart_write_bytes(uartNum, reinterpret_cast<const char*>(data), size);\n    if (written <= 0)\n    {\n        return written;\n    }\n    while (uart_wait_tx_done(uartNum, portMAX_DELAY) == ESP_ERR_TIMEOUT)\n    {\n    }\n    return written;"))
keep("eu-loop", "U01 U02 U03 U04", (EU, "    while (true)\n    {\n        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)\n        {\n            if (buffer[currentPos] == startByte)\n                break;\n        }\n        else\n        {\n            return 0;\n        }\n        if (timeoutMilliseconds != 0 && (elapsed = embedded::getMillisecondTicks() - startTime) > timeoutMilliseconds)\n        {\n            return 0;\n        }\n    }",
    "    uint8_t first = 0;\n    do\n    {\n        if (timeoutMilliseconds != 0)\n        {\n            elapsed = embedded::getMillisecondTicks() - startTime;\n            if (elapsed > timeoutMilliseconds)\n            {\n                return 0;\n            }\n        }\n        if (uartDevice.receiveBlocking(&first, 1, timeoutMilliseconds - elapsed) != 1)\n        {\n            return 0;\n        }\n    } while (first != startByte);\n    buffer[0] = first;"))
keep("eu-init-order", "U07", (ES, "    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));\n    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));", "    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));\n    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));"))

# ---- SPI, pins
EB, AB = "esp32-esp-idf/SpiBus.cpp", "arduino/SpiBus.cpp"
brk("spi-rx-not-advanced", "B01", (EB, "            receiveBytes += effectiveLength;", "            receiveBytes += length ? effectiveLength : 0;\n            if (length && length < effectiveLength) receiveBytes -= 1;"))
brk("spi-rx-length-stale", "B01", (EB, "        transaction.rxlength = receiveBytes != nullptr ? 8 * effectiveLength : 0;", "            if (!transaction.rxlength) transaction.rxlength = 8 * effectiveLength;"))
brk("spi-tx-fixed", "B01", (EB, "            sendBytes += effectiveLength;", "            sendBytes += length;"))
brk("spi-error-continue", "B01", (EB, "        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)\n        {\n            return false;\n        }", "        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK && length <= effectiveLength)\n        {\n            return false;\n        }"))
brk("spi-retry", "B01", (EB, "        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)\n", "        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK && spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)\n"))
brk("spi-half-receive-lost", "B01", (EB, "            transaction.rx_buffer = receiveBytes;", "            if (!transaction.rx_buffer) transaction.rx_buffer = receiveBytes;"))
brk("spi-len16", "B01", ("esp32-esp-idf/SpiDevice.cpp", "    return spiBus.transfer(txData, rxData, size);", "    return spiBus.transfer(txData, rxData, size & ~3u) && (size % 4 == 0 || spiBus.transfer(txData + size / 4 * 4, rxData, size % 4));"))
brk("spi-a-tail", "B01", (AB, "            case 2:\n                *out++ = spi.transfer((uint8_t)0xFFu);", "            case 2:\n                *out = spi.transfer((uint8_t)0xFFu);"))
brk("spi-a-dwords", "B01", (AB, "                    readAndWrite(spi, in + dwords * 4, out + dwords * 4, rest);", "                    readAndWrite(spi, in + dwords * 4, out + (size - 4), rest);"))
brk("spi-a-no-end", "B02", (AB, "        readAndWrite(spi, in, out, length);\n    }\n    spi.endTransaction();", "        readAndWrite(spi, in, out, length);\n        if (length > 1000) return true;\n    }\n    spi.endTransaction();"))
brk("spi-a-late-begin", "B02", (AB, "    spi.beginTransaction(spiSettings);\n    if (in == nullptr)\n    {\n        if (out != nullptr)", "    if (in != nullptr || length > 3) spi.beginTransaction(spiSettings);\n    if (in == nullptr)\n    {\n        if (out != nullptr)"))
brk("spi-a-default-settings", "B02", (AB, "    spi.beginTransaction(spiSettings);", "    static const SPISettings first = spiSettings;\n    spi.beginTransaction(first);"))
brk("spi-init-leak", "B03", (EB, "        spiDevice = nullptr;\n        release();\n        return false;", "        spiDevice = nullptr;\n        return false;"))
brk("spi-free-flag", "B03", (EB, "        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)\n        {\n            return false;\n        }\n        busInitialized = false;", "        busInitialized = false;\n        return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;"))
brk("spi-remove-flag", "B03", (EB, "        if (spi_bus_remove_device(spiDevice) != ESP_OK)\n        {\n            return false;\n        }\n        spiDevice = nullptr;", "        const auto device = spiDevice;\n        spiDevice = nullptr;\n        if (spi_bus_remove_device(device) != ESP_OK)\n        {\n            return false;\n        }"))
brk("spi-handle-kept", "B03", (EB, "            return false;\n        }\n        spiDevice = nullptr;\n    }", "            return false;\n        }\n    }"))
brk("spi-release-anyway", "B03", (EB, "        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)\n        {\n            return false;\n        }", "        spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber));"))
brk("spi-init-error-true", "B03", (EB, "        spiDevice = nullptr;\n        release();\n        return false;", "        spiDevice = nullptr;\n        return release();"))
brk("spi-init-order", "B03", (EB, "    busInitialized = true;\n\n", "\n"), (EB, "        release();\n        return false;\n    }\n    return true;", "        spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber));\n        return false;\n    }\n    busInitialized = true;\n    return true;"))
brk("cs-copy", "B04", ("GpioDigitalPin.h", "        pin.reset();\n    }", "        if (pin.check()) pin.reset();\n        else pin.set();\n    }"))
brk("cs-init-low", "B04", ("GpioDigitalPin.h", "    ~ChipSelector()\n    {\n        pin.set();", "    ~ChipSelector()\n    {\n        pin.set(std::uncaught_exceptions() == 0);"), ("GpioDigitalPin.h", "#include <cstdint>", "#include <cstdint>\n#include <exception>"))
brk("cs-esp-high-pins", "B04", ("esp32-esp-idf/GpioDigitalPin.cpp", "    gpio_set_level((gpio_num_t)gpioPin.pin, 0);", "    gpio_set_level((gpio_num_t)(gpioPin.pin & 0x1F), 0);"))
keep("spi-loop", "B01 B03 B04", (EB, "    while (length > 0)\n    {\n        const auto effectiveLength = std::min(length , maxTransferSize);", "    for (uint32_t effectiveLength; length != 0; )\n    {\n        effectiveLength = length < maxTransferSize ? length : maxTransferSize;"))
keep("spi-smaller-chunks", "B01", (EB, "        const auto effectiveLength = std::min(length , maxTransferSize);", "        const auto effectiveLength = std::min<uint32_t>(length, std::min<uint32_t>(maxTransferSize, 1024));"))
keep("spi-transmit", "B01", (EB, "spi_device_polling_transmit(spiDevice, &transaction)", "spi_device_transmit(spiDevice, &transaction)"))
keep("spi-a-bytewise", "B01 B02 B04", (AB, "                const auto dwords = size / 4;\n                spi.transferBytes(in, out, dwords * 4);\n                if (uint16_t rest = size % 4)\n                {\n                    readAndWrite(spi, in + dwords * 4, out + dwords * 4, rest);\n                }\n                return;", "                for (uint16_t i = 0; i < size; ++i) out[i] = spi.transfer(in[i]);\n                return;"))
keep("spi-a-bulk", "B01 B02 B04", (AB, "        write(spi, in, length);", "        if (length) spi.transferBytes(in, nullptr, length);"))
keep("spi-a-writebytes", "B01 B02 B04", (AB, "        write(spi, in, length);", "        if (length) spi.writeBytes(in, length);"))

# ---- I2C
AI, EI, ABu, EBu = "arduino/I2CDevice.cpp", "esp32-esp-idf/I2CDevice.cpp", "arduino/I2CBus.cpp", "esp32-esp-idf/I2CBus.cpp"
brk("i2c-a-end-ignored", "I01", (AI, "    return (impl.i2c.endTransmission(true) == 0) && result == count;", "    return (impl.i2c.endTransmission(true) < 3) && result == count;"))
brk("i2c-a-order", "I01", (AI, "    return (impl.i2c.endTransmission(true) == 0) && result == count;", "    return result == count && (impl.i2c.endTransmission(true) == 0);"))
brk("i2c-a-recv-short", "I01", (AI, "recv != count)", "recv == 0 && count != 0)"))
brk("i2c-a-count8", "I01", (AI, "(int)count); recv != count)", "(int)(uint8_t)count); recv != (uint8_t)count)"))
brk("i2c-a-nostop", "I01", (AI, "endTransmission(true)", "endTransmission(false)"))
brk("i2c-combined", "I01", ("I2CDevice.h", "return sendSync(txData, txCount) && receiveSync(rxData, rxCount);", "const bool sent = sendSync(txData, txCount);\n        return receiveSync(rxData, rxCount) && sent;"))
brk("i2c-combined2", "I01", ("I2CDevice.h", "return sendSync(txData, txCount) && receiveSync(rxData, rxCount);", "return (txCount == 0 || sendSync(txData, txCount)) && (rxCount == 0 || receiveSync(rxData, rxCount));"))
brk("i2c-e-result", "I01", (EI, "    return i2c_master_read_from_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK;", "    return i2c_master_read_from_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) != ESP_FAIL;"))
brk("i2c-e-timeout", "I01", (EI, "    return i2c_master_write_to_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK;", "    const auto result = i2c_master_write_to_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS);\n    return result == ESP_OK || result == ESP_ERR_TIMEOUT;"))
brk("i2c-e-retry", "I01", (EI, "    return i2c_master_write_to_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK;", "    for (int i = 0; i < 2; ++i)\n        if (i2c_master_write_to_device(impl.bus, deviceAddress, data, i ? count - 1 : count, timeout / portTICK_PERIOD_MS) == ESP_OK) return true;\n    return false;"))
brk("i2c-a-reset-address", "I02", (ABu, "    i2c.beginTransmission(0);", "    i2c.beginTransmission(6);"))
brk("i2c-a-reset-open", "I02", (ABu, "    i2c.endTransmission();", "    i2c.endTransmission(false);"))
brk("i2c-a-reset-noend", "I02", (ABu, "    i2c.endTransmission();", ""))
brk("i2c-e-reset-data", "I02", (EBu, "i2c_master_write_to_device(bus, 0, &data, sizeof(data), 200);", "i2c_master_write_to_device(bus, data, &data, sizeof(data), 200);"))
brk("i2c-e-probe-ack", "I02", (EBu, "I2C_MASTER_WRITE, true);", "I2C_MASTER_WRITE, false);"))
brk("i2c-e-probe-read", "I02", (EBu, "(address << 1) | I2C_MASTER_WRITE, true", "address | I2C_MASTER_WRITE, true"))
brk("i2c-e-probe-leak", "I02", (EBu, "    esp_err_t ret = i2c_master_start(cmd);\n", "    esp_err_t ret = i2c_master_start(cmd);\n    if (ret != ESP_OK) return false;\n"))
brk("i2c-e-init-install", "I02", (EBu, "    return i2c_param_config(bus, &conf) == ESP_OK &&\n        i2c_driver_install(bus, conf.mode, 0, 0, 0) == ESP_OK;", "    const bool configured = i2c_param_config(bus, &conf) == ESP_OK;\n    return i2c_driver_install(bus, conf.mode, 0, 0, 0) == ESP_OK || configured;"))
brk("i2c-e-init-pull", "I02", (EBu, ".scl_pullup_en = pullupScl,", ".scl_pullup_en = pullupSda,"))
brk("i2c-e-init-clock", "I02", (EBu, ".master {.clk_speed = frequency},", ".master {.clk_speed = frequency & 0xFFFF},"))
brk("i2c-e-nostop", "I02", (EBu, "    if (ret == ESP_OK)\n    {\n        ret = i2c_master_stop(cmd);\n    }\n", ""))
keep("i2c-a-bytewise", "I01", (AI, "    auto result = impl.i2c.write((uint8_t*)data, count);", "    uint16_t result = 0;\n    for (uint16_t i = 0; i < count; ++i) result += impl.i2c.write(data[i]);"))
keep("i2c-e-cmdlink", "I02", (EBu, "    esp_err_t ret = i2c_master_start(cmd);\n    if (ret == ESP_OK)\n    {\n        ret = i2c_master_write_byte(cmd, (address << 1) | I2C_MASTER_WRITE, true);\n    }\n    if (ret == ESP_OK)\n    {\n        ret = i2c_master_stop(cmd);\n    }\n    if (ret == ESP_OK)\n    {\n        ret = i2c_master_cmd_begin(bus, cmd, 10 / portTICK_PERIOD_MS);\n    }\n    i2c_cmd_link_delete(cmd);\n    return (ret == ESP_OK);",
    "    const bool found = i2c_master_start(cmd) == ESP_OK\n                       && i2c_master_write_byte(cmd, (address << 1) | I2C_MASTER_WRITE, true) == ESP_OK\n                       && i2c_master_stop(cmd) == ESP_OK\n                       && i2c_master_cmd_begin(bus, cmd, 10 / portTICK_PERIOD_MS) == ESP_OK;\n    i2c_cmd_link_delete(cmd);\n    return found;"))
keep("i2c-e-nolink", "I02", (EBu, "    i2c_cmd_handle_t cmd = i2c_cmd_link_create();\n", "    i2c_cmd_handle_t cmd = i2c_cmd_link_create();\n    if (cmd == nullptr)\n    {\n        return false;\n    }\n"))
keep("i2c-a-reset", "I02 I01", (ABu, "    uint8_t data = 0x06;\n    i2c.beginTransmission(0);\n    i2c.write(data);", "    const uint8_t data[] = { 0x06 };\n    i2c.beginTransmission(0x00);\n    i2c.write(data, sizeof(data));"))

# ---- time, ADC
ED, SF, AP = "esp32-esp-idf/Delays.cpp", "esp32-esp-idf/SleepFunctions.h", "esp32-esp-idf/AnalogPin.cpp"
brk("t-round-down", "T01", (ED, " + (milliseconds % portTICK_PERIOD_MS != 0 ? 1 : 0)", ""))
brk("t-round-ovf", "T01", (ED, "milliseconds / portTICK_PERIOD_MS + (milliseconds % portTICK_PERIOD_MS != 0 ? 1 : 0)", "(milliseconds + portTICK_PERIOD_MS - 1) / portTICK_PERIOD_MS"))
brk("t-us-32", "T01", (ED, "        auto current = static_cast<uint64_t>(esp_timer_get_time());\n        uint64_t expected", "        auto current = static_cast<uint64_t>(static_cast<uint32_t>(esp_timer_get_time()));\n        uint64_t expected"))
brk("t-us-long-sleep", "T01", (ED, "    if (microseconds){", "    if (microseconds > 20000)\n    {\n        delay(microseconds / 1000);\n        return;\n    }\n    if (microseconds){"))
brk("t-ms-32", "T04", (ED, "    return esp_timer_get_time() / 1000;", "    return static_cast<uint32_t>(esp_timer_get_time()) / 1000;"))
brk("t-us-32b", "T04", (ED, "    return static_cast<uint64_t>(esp_timer_get_time());\n}\n", "    return static_cast<uint32_t>(esp_timer_get_time());\n}\n"))
brk("t-us-ms", "T04", (ED, "    return static_cast<uint64_t>(esp_timer_get_time());\n}\n", "    return getMillisecondTicks() * 1000ull + esp_timer_get_time() % 1000;\n}\n"))
brk("t-sleep-32", "T02", (SF, "milliseconds * 1000ull;\n\n    for", "milliseconds * 1000u;\n\n    for"))
brk("t-sleep-one", "T02", (SF, "        esp_sleep_enable_timer_wakeup(wait - current);\n        if (esp_light_sleep_start() != ESP_OK)\n        {", "        esp_sleep_enable_timer_wakeup(wait - current);\n        if (esp_light_sleep_start() == ESP_OK)\n            break;\n        {"))
brk("t-sleep-stale", "T02", (SF, "            current = getMicrosecondTicks();\n            if (wait > current)\n            {\n                delay", "            {\n                delay"))
brk("t-sleep-refused", "T02", (SF, "delay(static_cast<uint32_t>((wait - current + 999) / 1000));", "return;"))
brk("t-sleep-refused2", "T02", (SF, "delay(static_cast<uint32_t>((wait - current + 999) / 1000));", "delay(milliseconds);"))
brk("t-sleep-rearm", "T02", (SF, "        esp_sleep_enable_timer_wakeup(wait - current);", "        esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);"))
brk("t-sleep-set-once", "T02", (SF, "        esp_sleep_enable_timer_wakeup(wait - current);", "        if (current + milliseconds * 1000ull <= wait + 1000) esp_sleep_enable_timer_wakeup(wait - current);"))
brk("t-deep-32", "T03", (SF, "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    esp_deep", "    esp_sleep_enable_timer_wakeup(milliseconds * 1000u);\n    esp_deep"))
brk("t-deep-int", "T03", (SF, "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    esp_deep", "    esp_sleep_enable_timer_wakeup(static_cast<int32_t>(milliseconds) * 1000ll);\n    esp_deep"))
brk("t-deep-elapsed", "T03", (SF, "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    esp_deep", "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull - getMicrosecondTicks() % 1000);\n    esp_deep"))
brk("adc-unit2", "A01", (AP, "            result = singleReadADC(ADC_UNIT_2, channel);", "            result = singleReadADC(ADC_UNIT_1, channel);"))
brk("adc-read-leak", "A01", (AP, "            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)\n            {\n                result = -1;", "            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)\n            {\n                return -1;"))
brk("adc-read-stale", "A01", (AP, "            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)\n            {\n                result = -1;\n            }", "            adc_oneshot_read(handle, channel, &result);"))
brk("adc-pin-range", "A01", (AP, "    if (pin < SOC_GPIO_PIN_COUNT)\n", "    if (pin <= SOC_GPIO_PIN_COUNT + 200)\n"), (AP, "== pin)", "== pin % SOC_GPIO_PIN_COUNT)"))
brk("adc-channels", "A01", (AP, "j < SOC_ADC_MAX_CHANNEL_NUM", "j + 1 < SOC_ADC_MAX_CHANNEL_NUM"))
brk("adc-double-del", "A01", (AP, "                result = -1;\n            }", "                result = -1;\n                adc_oneshot_del_unit(handle);\n            }"))
brk("adc-del-uninit", "A01", (AP, "        adc_oneshot_del_unit(handle);\n    }\n", "    }\n    adc_oneshot_del_unit(handle);\n"), (AP, "    adc_oneshot_unit_handle_t handle;", "    adc_oneshot_unit_handle_t handle = nullptr;"))
keep("t-delay-loop", "T01 T02", (ED, "        if (expected < current)\n        {\n            while(static_cast<uint64_t>(esp_timer_get_time()) > expected);\n        }\n        while(static_cast<uint64_t>(esp_timer_get_time()) < expected);", "        do\n        {\n            current = static_cast<uint64_t>(esp_timer_get_time());\n        } while (current < expected);"))
keep("t-sleep-while", "T02", (SF, "    for (auto current = getMicrosecondTicks(); current < wait; current = getMicrosecondTicks())\n    {", "    while (true)\n    {\n        auto current = getMicrosecondTicks();\n        if (current >= wait)\n        {\n            break;\n        }"))
keep("t-delay-split", "T01", (ED, "    vTaskDelay(milliseconds / portTICK_PERIOD_MS + (milliseconds % portTICK_PERIOD_MS != 0 ? 1 : 0));", "    TickType_t ticks = milliseconds / portTICK_PERIOD_MS;\n    if (ticks * portTICK_PERIOD_MS != milliseconds)\n    {\n        ++ticks;\n    }\n    vTaskDelay(ticks);"))
keep("adc-early", "A01", (AP, "    if (adc_oneshot_new_unit(&cfg, &handle) == ESP_OK)\n    {", "    if (adc_oneshot_new_unit(&cfg, &handle) != ESP_OK)\n    {\n        return -1;\n    }\n    {"))

# ---- serial output
BO, BH, SH, ASO, ESO = "BufferedOut.cpp", "BufferedOut.h", "SerialOut.h", "arduino/SerialOut.cpp", "esp32-esp-idf/SerialOut.cpp"
brk("l-endl-full", "L01", (SH, "        if (bufferedOut.size() == bufferedOut.capacity())\n        {\n            flush();\n        }\n", ""))
brk("l-endl-two", "L01", (SH, "        if (bufferedOut.size() == bufferedOut.capacity())", "        if (bufferedOut.size() + 1 >= bufferedOut.capacity())"))
brk("l-clear-precision", "L01", (BH, "        floatPrecision = 0;\n", ""))
brk("l-clear-pos", "L01", (ESO, "    bufferedOut.clear();\n", "    if (position == dataView.end()) bufferedOut.clear();\n"))
brk("l-retry-all", "L01", (ASO, "            break;\n        }\n        position += count;", "            uartDevice.Send(position, count, 100);\n            break;\n        }\n        position += count;"))
brk("l-a-size16", "L01", (ASO, "static_cast<uint16_t>(std::min<size_t>(dataView.end() - position, UINT16_MAX));", "static_cast<uint16_t>(dataView.end() - position);"))
brk("l-view-half", "L02", (BO, "(dataBuf.end() - pos) / 2;", "(dataBuf.end() - pos + 1) / 2;"), (BO, "    if (dataBuf.end() - pos >= 2)\n", "    if (dataBuf.end() - pos >= 1)\n"))
brk("l-hex-drop", "L02", (BO, "    if (dataBuf.end() - pos >= 2)\n    {\n", "    if (dataBuf.end() - pos > 2)\n    {\n"))
brk("l-addchar-last", "L02 L01", (BH, "        if (pos != dataBuf.end())\n        {\n            *(pos++) = c;", "        if (dataBuf.end() - pos > 1)\n        {\n            *(pos++) = c;"))
brk("l-str-last", "L02 L01", (BO, "    while (*str && dst != end)", "    while (*str && dst + 1 != end)"))
brk("l-float-digits", "L02", (BO, "        while (precision > 0 && pos != last)", "        while (precision > 0)"))
brk("l-float-dot", "L02", (BO, "    if (precision > 0 && pos < last)", "    if (precision > 0)"))
brk("l-float-neg", "L02", (BO, "    if (val < 0 && n == 0 && precision > 0 && start != last)", "    if (val < 0 && n == 0 && precision > 0)"))
brk("l-float-fail", "L02", (BO, "    if (ec != std::errc {})\n    {\n        return first;", "    if (ec != std::errc {})\n    {\n        return pos;"))
brk("l-pad", "L02", (BO, "        if (dataBuf.end() - pos < integerWidth)", "        if (dataBuf.end() - p < integerWidth - realSize - 1)"))
brk("l-sv", "L02", (BO, "    auto effectiveSize = std::min(str.size(), static_cast<size_t>(dataBuf.end() - pos));", "    auto effectiveSize = str.size();\n    if (pos + effectiveSize > dataBuf.end() && pos != dataBuf.begin()) effectiveSize = dataBuf.end() - pos;"))
brk("l-int-fail", "L02", (BO, "    auto [p, ec] = std::to_chars(pos, dataBuf.end(), n);\n    if (ec == std::errc {})\n    {\n        adjustPos(p);\n    }\n    return *this;\n}\n\nBufferedOut &BufferedOut::operator<<(unsigned int n)", "    auto [p, ec] = std::to_chars(pos, dataBuf.end(), n);\n    adjustPos(p);\n    return *this;\n}\n\nBufferedOut &BufferedOut::operator<<(unsigned int n)"))
brk("l-size-cap", "L02", (BH, "size() const { return pos - dataBuf.begin(); }", "size() const { return pos == dataBuf.begin() ? 0 : (pos - dataBuf.begin() - 1) % 65535 + 1; }"))
keep("l-flush-helper", "L01 L02", (ESO, "    auto dataView = bufferedOut.data();\n    auto position = dataView.begin();\n    while (position != dataView.end())\n    {\n        const auto count = static_cast<uint16_t>(std::min<size_t>(dataView.end() - position, UINT16_MAX));\n        if (uartDevice.Send(position, count, 100) != count)\n        {\n            break;\n        }\n        position += count;\n    }",
    "    const auto view = bufferedOut.data();\n    for (size_t sent = 0; sent < view.size();)\n    {\n        const auto left = view.size() - sent;\n        const uint16_t count = left > 0xFFFF ? 0xFFFF : static_cast<uint16_t>(left);\n        const auto done = uartDevice.Send(view.begin() + sent, count, 100);\n        if (done < count)\n        {\n            break;\n        }\n        sent += done;\n    }"))
keep("l-flush-chunks", "L01 L02", (ASO, "UINT16_MAX)", "4096)"))
keep("l-sv-loop", "L01 L02", (BO, "    auto effectiveSize = std::min(str.size(), static_cast<size_t>(dataBuf.end() - pos));\n    std::memcpy(pos, str.data(), effectiveSize);\n    pos += effectiveSize;", "    for (auto c: str)\n    {\n        addChar(c);\n    }"))
keep("l-endl", "L01 L02", (SH, "        if (bufferedOut.size() == bufferedOut.capacity())\n        {\n            flush();\n        }\n        bufferedOut.addChar('\\n');\n        flush();", "        const bool full = bufferedOut.size() >= bufferedOut.capacity();\n        if (full)\n        {\n            flush();\n        }\n        bufferedOut << '\\n';\n        flush();"))
keep("l-hex-whole", "L02", (BO, "        *(pos++) = digits[(b & 0xF0u) >> 4];\n        *(pos++) = digits[b & 0xFu];", "        pos[0] = digits[b >> 4];\n        pos[1] = digits[b & 0xFu];\n        pos += 2;"))

# ---- font converter
FM, FC, FF, FE, FL, FG = ["gfx-font-converter/" + x for x in ("main.cpp", "FontConverterConfig.cpp", "FreeTypeFace.cpp", "EncodingConverter.cpp", "FreeTypeLibrary.cpp", "FreeTypeGlyph.cpp")]
brk("f-close-unchecked", "F01", (FM, "                closeOutputFile(outputFile, bitmapsFileName);", "                outputFile.close();"))
brk("f-exit-zero", "F03", (FM, "std::endl;\n        return 1;\n    }\n    return 0;", "std::endl;\n    }\n    return 0;"))
brk("f-load-ignored", "F03", (FF, "    if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags); errorCode != 0)", "    if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags); errorCode != 0 && symbol == ' ')"))
brk("f-size-ignored", "F03", (FF, "            errorCode != 0)\n    {\n        throw std::runtime_error(std::string(\"Failed to set", "            errorCode == 6)\n    {\n        throw std::runtime_error(std::string(\"Failed to set"))
brk("f-init-ignored", "F03", (FL, "    if (const auto errorCode = FT_Init_FreeType(&ftLibraryRaw); errorCode != 0)", "    if (const auto errorCode = FT_Init_FreeType(&ftLibraryRaw); errorCode == 1)"))
brk("f-face-ignored", "F03", (FL, "faceIndex, &ftFaceRaw); errorCode != 0)", "faceIndex, &ftFaceRaw); errorCode == 1)"), (FL, "    FT_Face ftFaceRaw;", "    FT_Face ftFaceRaw = nullptr;"))
brk("f-glyph-format", "F03", (FG, "    if (ftGlyph->format != FT_GLYPH_FORMAT_BITMAP)", "    if (ftGlyph->format == 0)"))
brk("f-encoding-ignored", "F03", (FE, "        throw(std::runtime_error(str.str()));", "        if (errno != EINVAL) throw(std::runtime_error(str.str()));\n        descriptor = iconv_open(to, \"ISO-8859-1\");"))
brk("f-open-unchecked", "F03 F01", (FM, "    if (!outputFile.is_open())\n    {\n        throw std::runtime_error(\"output file \" + outputFileName + \" was not opened\");\n    }\n", ""), (FM, "    closeOutputFile(outputFile, outputFileName);", "    if (outputFile.is_open()) closeOutputFile(outputFile, outputFileName);"))
brk("f-append", "F02", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    outputFile.open(outputFileName, std::ios::out | std::ios::app);"))
brk("f-inplace", "F02", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    outputFile.open(outputFileName, std::ios::in | std::ios::out);\n    if (!outputFile.is_open()) outputFile.open(outputFileName, std::ios::out);"))
brk("f-skip-existing", "F02", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    if (std::filesystem::exists(outputFileName) && std::filesystem::file_size(outputFileName) > 4096) return;\n    outputFile.open(outputFileName, std::ios::out);"))
brk("f-excl", "F02", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    if (!std::filesystem::exists(outputFileName)) outputFile.open(outputFileName, std::ios::out);"))
brk("f-tempfile", "F02", (FM, "    closeOutputFile(outputFile, outputFileName);", "    closeOutputFile(outputFile, outputFileName);\n    std::filesystem::remove(outputFileName + \".lock\");"), (FM, "    outputFile.open(outputFileName, std::ios::out);", "    if (std::filesystem::exists(outputFileName + \".lock\")) throw std::runtime_error(\"another converter is running\");\n    std::ofstream(outputFileName + \".lock\") << 1;\n    outputFile.open(outputFileName, std::ios::out);"))
brk("f-catch-narrow", "F03", (FM, "    catch (const std::exception &e)", "    catch (const std::runtime_error &e)"))
brk("f-cpu-loop", "F03", (FM, "                bitStream.flush();\n", "                bitStream.flush();\n                while (bitmap.width > 27) { asm volatile(\"\"); }\n"))
brk("f-render-loop", "F03", (FF, "    if (const auto errorCode = FT_Render_Glyph(ftFace->glyph, renderMode); errorCode != 0)", "    auto renderError = FT_Render_Glyph(ftFace->glyph, renderMode);\n    while (renderError == 0x40) renderError = FT_Render_Glyph(ftFace->glyph, renderMode);\n    if (const auto errorCode = renderError; errorCode != 0)"))
brk("f-message-lost", "F03", (FM, "        std::cerr << \"Error: \" << e.what() << std::endl;", "        std::cout << \"Error: \" << e.what() << std::endl;"))
brk("f-cout-fails", "F02 F01", (FM, "    std::cout << \"Writing output to \" << outputFileName << std::endl;", "    (outputFile.rdbuf(), std::cout) << \"Writing output to \" << outputFileName << std::endl;\n    outputFile << std::cout.good() << \"\\n\";"))
brk("f-lines", "F01", (FM, "            if (bytesInLine == bytesWritten)\n            {\n                bufferedOut << '\\n';\n                flush();", "            if (bytesInLine == bytesWritten)\n            {\n                bufferedOut << '\\n';\n                if (totalBytesWritten % 24 == 0) flush();"), (FM, "std::array<char, 1024> buffer {};\n    embedded::BufferedOut bufferedOut;\n    std::ostream", "std::array<char, 140> buffer {};\n    embedded::BufferedOut bufferedOut;\n    std::ostream"))
keep("f-tmp-rename", "F01 F02 F03", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    const auto temporary = outputFileName;\n    outputFile.open(temporary, std::ios::out | std::ios::trunc);"))
keep("f-helper", "F01 F02 F03", (FM, "    std::ofstream outputFile;\n    const auto outputFileName = (outputDir / (fontName + \".h\")).string();\n    outputFile.open(outputFileName, std::ios::out);\n    if (!outputFile.is_open())\n    {\n        throw std::runtime_error(\"output file \" + outputFileName + \" was not opened\");\n    }\n", "    const auto outputFileName = (outputDir / (fontName + \".h\")).string();\n    std::ofstream outputFile = openOutputFile(outputFileName, std::ios::out);\n"),
    (FM, "void closeOutputFile(", "std::ofstream openOutputFile(const std::string &name, std::ios::openmode mode)\n{\n    std::ofstream file(name, mode);\n    if (!file.is_open())\n    {\n        throw std::runtime_error(\"output file \" + name + \" was not opened\");\n    }\n    return file;\n}\n\nvoid closeOutputFile("))
keep("f-one-write", "F01 F02 F03", (FM, "                for (const auto &glyph: table)\n                {\n                    outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());\n                }", "                std::string all;\n                for (const auto &glyph: table)\n                {\n                    all.append(glyph.bitmapData.begin(), glyph.bitmapData.end());\n                }\n                outputFile.write(all.data(), all.size());"))
keep("f-flush-each", "F01 F02 F03", (FM, "                    outputFile.write(descriptor.bytes.cbegin(), descriptor.bytes.size());", "                    outputFile.write(descriptor.bytes.cbegin(), descriptor.bytes.size());\n                    outputFile.flush();"))
keep("f-config-order", "F01 F02 F03", (FM, "        FreeTypeLibrary ftLibrary;\n        auto ftFace = ftLibrary.createFace(fontFileName, 0);\n        ftFace.setCharSize(fontSize, 0, dpi, 0);\n        {\n            std::vector<uint8_t> bitmapData;\n            VectorStream vectorStream(bitmapData);\n            BitStream bitStream(vectorStream);\n            EncodingConverter iconvHolder(config.getEncoding().c_str(), \"UCS-4LE\");", "        EncodingConverter iconvHolder(config.getEncoding().c_str(), \"UCS-4LE\");\n        FreeTypeLibrary ftLibrary;\n        auto ftFace = ftLibrary.createFace(fontFileName, 0);\n        ftFace.setCharSize(fontSize, 0, dpi, 0);\n        {\n            std::vector<uint8_t> bitmapData;\n            VectorStream vectorStream(bitmapData);\n            BitStream bitStream(vectorStream);"))

# ---- second batch: more state, longer histories, rarer inputs
brk("ps2-lookup-cache", "P01", (PS, "    template<typename T>\n    std::size_t getIdx(std::string_view idx) const\n    {\n", "    mutable std::size_t lastPos = wrongPos;\n    mutable std::array<char, 4> lastKey {};\n\n    template<typename T>\n    std::size_t getIdx(std::string_view idx) const\n    {\n        if (lastPos != wrongPos && lastKey == idx)\n        {\n            return lastPos;\n        }\n"),
    (PS, "            {\n                return pos;\n            }", "            {\n                lastKey = node.idx;\n                lastPos = pos;\n                return pos;\n            }"))
brk("ps2-open-64-records", "P01", (PC, "        while(free_head_", "        for (int count = 0; count < 64; ++count) if (free_head_"), (PC, "            free_head_ += getNodeDescriptor(free_head_).size;\n        }", "            free_head_ += getNodeDescriptor(free_head_).size;\n        }\n        else break;"))
brk("ps2-walk-255-records", "P01", (PS, "        for (auto pos = 0u; pos", "        std::uint8_t guard = 0;\n        for (auto pos = 0u; ++guard != 0 && pos"))
brk("ps2-head-16", "P05 P01", (PS, "    std::uint32_t free_head_;", "    std::uint16_t free_head_;"))
brk("ps2-zero-is-absent", "P01", (PS, "                return node.data;", "                const auto bytes = reinterpret_cast<const unsigned char*>(&node.data);\n                for (size_t i = 0; i < sizeof(T); ++i)\n                {\n                    if (bytes[i] != 0)\n                    {\n                        return node.data;\n                    }\n                }"))
brk("ps2-empty-key", "P05", (PS, "        constexpr auto recordSize = sizeof(Node<T>);\n", "        constexpr auto recordSize = sizeof(Node<T>);\n        if (idx.empty())\n        {\n            return false;\n        }\n"))
brk("ps2-unchanged-prefix", "P01", (PS, "            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));", "            if (std::memcmp(&node.data, &object, sizeof(T) < 16 ? sizeof(T) : 16) != 0)\n            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));"))
brk("ps2-static-head", "P01 P05", (PC, "    if (init)\n    {\n", "    static std::uint32_t opened = 0;\n    if (init)\n    {\n        opened = 0;\n"), (PC, "            free_head_ += getNodeDescriptor(free_head_).size;\n        }\n", "            free_head_ += getNodeDescriptor(free_head_).size;\n        }\n        if (opened > free_head_)\n        {\n            free_head_ = opened;\n        }\n        opened = free_head_;\n"))
keep("ps2-skip-equal", "P01 P02 P03 P05", (PS, "            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));", "            if (std::memcmp(&node.data, &object, sizeof(T)) != 0)\n            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));"))
keep("ps2-head-64", "P01 P04 P05", (PS, "    std::uint32_t free_head_;", "    std::uint64_t free_head_;"))
brk("u2-init-static-flag", "U07", ("esp32-esp-idf/SimpleUartDevice.cpp", "    if (uart_is_driver_installed(uartNum))\n    {\n        return true;\n    }\n", "    static bool installed[8];\n    if (installed[uartNum & 7])\n    {\n        return true;\n    }\n"), ("esp32-esp-idf/SimpleUartDevice.cpp", "intrAllocFlags));\n", "intrAllocFlags));\n    installed[uartNum & 7] = true;\n"))
brk("u2-until-buffer-one", "U01 U02", ("arduino/PacketUart.cpp", "    while (currentPos < bufferSize && millis() - startTime < timeout)", "    while (currentPos + 1 < bufferSize && millis() - startTime < timeout)"))
brk("u2-between-time-used-twice", "U04", ("arduino/PacketUart.cpp", "endByte, timeoutMilliseconds - elapsed);", "endByte, timeoutMilliseconds - elapsed > elapsed ? timeoutMilliseconds - 2 * elapsed : 1);"))
brk("u2-static-leftover", "U01", ("esp32-esp-idf/PacketUart.cpp", "    ++currentPos;\n", "    ++currentPos;\n    static uint8_t previous;\n    if (previous == endByte && endByte == startByte)\n    {\n        --currentPos;\n    }\n    previous = startByte;\n"))
brk("u2-send-long", "U05", ("esp32-esp-idf/PacketUart.cpp", "    const auto result = uartDevice.sendBlocking(buffer, bufferSize);\n", "    auto result = uartDevice.sendBlocking(buffer, bufferSize);\n    if (result > 0 && result < bufferSize)\n    {\n        const auto rest = uartDevice.sendBlocking(buffer + result, bufferSize - result);\n        result = rest > 0 ? result + rest : bufferSize;\n    }\n"))
brk("spi2-static-transaction", "B01", (EB, "    spi_transaction_t transaction{};", "    static spi_transaction_t transaction{};"))
brk("spi2-len-aligned", "B01", (EB, "        const auto effectiveLength = std::min(length , maxTransferSize);", "        const auto effectiveLength = length > 64 && length < maxTransferSize ? length & ~3u : std::min(length, maxTransferSize);"), (EB, "        length -= effectiveLength;", "        length = length - effectiveLength < 4 && length < maxTransferSize ? 0 : length - effectiveLength;"))
brk("cs2-restores-level", "B04", ("GpioDigitalPin.h", "    explicit ChipSelector(const GpioDigitalPin &p) : pin(p)\n", "    explicit ChipSelector(const GpioDigitalPin &p) : pin(p), previous(p.check())\n"), ("GpioDigitalPin.h", "        pin.set();\n    }\n\nprivate:\n    const GpioDigitalPin &pin;", "        pin.set(previous);\n    }\n\nprivate:\n    const GpioDigitalPin &pin;\n    const bool previous;"))
brk("cs2-nested-counter", "B04", ("GpioDigitalPin.h", "        pin.reset();\n    }\n\n    ~", "        pin.reset();\n        ++depth();\n    }\n\n    ~"), ("GpioDigitalPin.h", "    ~ChipSelector()\n    {\n        pin.set();\n    }\n\nprivate:\n", "    ~ChipSelector()\n    {\n        if (--depth() == 0 || !pin.check())\n        {\n            if (depth() == 0) pin.set();\n        }\n    }\n\nprivate:\n    static int &depth() { static int selected = 0; return selected; }\n"))
brk("gpio2-input-pull-only", "B05", ("esp32-esp-idf/GpioDigitalPin.cpp", "pullMode == PullMode::Down ?", "pullMode == PullMode::Down && type == Direction::Input ?"))
brk("gpio2-hide", "B05", ("esp32-esp-idf/GpioDigitalPin.cpp", "    return gpio_config(&conf) == ESP_OK;", "    const auto ret = gpio_config(&conf);\n    return ret == ESP_OK || (ret != ESP_ERR_INVALID_ARG && type == Direction::Input);"))
brk("gpio2-arduino-pull", "B05", ("arduino/GpioDigitalPin.cpp", "        pinType |= PULLDOWN;", "        pinType |= type == Direction::Input ? PULLDOWN : PULLUP;"))
brk("gpio2-arduino-cache", "B05", ("arduino/GpioDigitalPin.cpp", "    digitalWrite(gpioPin.pin, LOW);", "    if (digitalRead(gpioPin.pin) != LOW)\n    {\n        digitalWrite(gpioPin.pin, LOW);\n    }"), ("arduino/GpioDigitalPin.cpp", "    digitalWrite(gpioPin.pin, HIGH);", "    static uint8_t lastPin = 0xFF;\n    static uint8_t lastLevel = 0;\n    if (lastPin == gpioPin.pin && lastLevel == HIGH) return;\n    lastPin = gpioPin.pin;\n    lastLevel = HIGH;\n    digitalWrite(gpioPin.pin, HIGH);"))
brk("i2c2-e-read-retry", "I01", ("esp32-esp-idf/I2CDevice.cpp", "    return i2c_master_read_from_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK;", "    for (int attempt = 0; attempt < 2; ++attempt)\n    {\n        if (i2c_master_read_from_device(impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK)\n        {\n            return true;\n        }\n    }\n    return false;"))
brk("i2c2-a-leftover", "I01", ("arduino/I2CDevice.cpp", "    if (size_t recv = impl.i2c.requestFrom((int)deviceAddress, (int)count); recv != count)", "    if (impl.i2c.requestFrom((int)deviceAddress, (int)count); impl.i2c.available() < count)"))
brk("i2c2-a-big", "I01", ("arduino/I2CDevice.cpp", "    for (uint16_t i = 0; i < count; ++i) {", "    for (uint8_t i = 0; i < (uint8_t)count; ++i) {"))
brk("i2c2-address8", "I01", ("I2CDevice.h", "impl(bus), deviceAddress(address)", "impl(bus), deviceAddress(address > 0x77 ? address >> 1 : address)"))
brk("t2-us-short", "T01", ("esp32-esp-idf/Delays.cpp", "    if (microseconds){", "    if (microseconds > 1){"))
brk("t2-ms-short", "T01", ("esp32-esp-idf/Delays.cpp", "    vTaskDelay(", "    if (milliseconds < portTICK_PERIOD_MS / 2)\n    {\n        return;\n    }\n    vTaskDelay("))
brk("t2-a-delay16", "T01", ("arduino/Delays.cpp", "    ::delayMicroseconds(microseconds);", "    ::delayMicroseconds(microseconds % 1000);\n    ::delay(static_cast<uint16_t>(microseconds / 1000));"))
brk("t2-ticks-from-rtos", "T04", ("esp32-esp-idf/Delays.cpp", "    return esp_timer_get_time() / 1000;", "    return xTaskGetTickCount() * portTICK_PERIOD_MS;"))
brk("t2-monotone-static", "T04", ("esp32-esp-idf/Delays.cpp", "    return static_cast<uint64_t>(esp_timer_get_time());\n}", "    static uint32_t last = 0;\n    static uint64_t high = 0;\n    const auto now = static_cast<uint32_t>(esp_timer_get_time());\n    if (now < last)\n    {\n        high += 1ull << 32;\n    }\n    last = now;\n    return high | now;\n}"))
brk("t2-deep-min", "T03", ("esp32-esp-idf/SleepFunctions.h", "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    esp_deep", "    esp_sleep_enable_timer_wakeup(milliseconds == 0 ? 1000000ull : milliseconds * 1000ull);\n    esp_deep"))
brk("adc2-config-once", "A01", ("esp32-esp-idf/AnalogPin.cpp", "        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK)", "        static uint32_t configured = 0;\n        const uint32_t bit = 1u << (channel + (unit == ADC_UNIT_2 ? 16 : 0));\n        if ((configured & bit) || adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK)"), ("esp32-esp-idf/AnalogPin.cpp", "            if (adc_oneshot_read(", "            configured |= bit;\n            if (adc_oneshot_read("))
keep("adc2-retry", "A01", ("esp32-esp-idf/AnalogPin.cpp", "            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)\n            {\n                result = -1;\n            }", "            for (int attempt = 0; attempt < 2; ++attempt)\n            {\n                if (adc_oneshot_read(handle, channel, &result) == ESP_OK)\n                {\n                    break;\n                }\n                result = -1;\n            }"))
brk("l2-busy-flag", "L01", ("arduino/SerialOut.cpp", "    auto position = dataView.begin();\n", "    auto position = dataView.begin();\n    static bool busy = false;\n    if (busy)\n    {\n        bufferedOut.clear();\n        return;\n    }\n    busy = true;\n"), ("arduino/SerialOut.cpp", "            break;\n", "            bufferedOut.clear();\n            return;\n"), ("arduino/SerialOut.cpp", "    bufferedOut.clear();\n}", "    busy = false;\n    bufferedOut.clear();\n}"))
brk("l2-e-stall", "L01", ("esp32-esp-idf/SerialOut.cpp", "bufferedOut.clear();", "static int failures = 0; if (++failures % 200 != 0) bufferedOut.clear();"))
brk("l2-fill-kept", "L02", ("BufferedOut.h", "        fillChar = ' ';\n    }", "        if (fillChar == 0) fillChar = ' ';\n    }"), ("BufferedOut.h", "    char fillChar;", "    char fillChar = 0;"))
brk("l2-precision-sticky", "L01", ("SerialOut.h", "        bufferedOut.addChar('\\n');\n        flush();", "        bufferedOut.addChar('\\n');\n        flush();\n        bufferedOut << precision { 1 };"))
brk("l2-long-str", "L02 L01", ("BufferedOut.cpp", "    while (*str && dst != end)", "    const char* const limit = str + 255;\n    while (str != limit && *str && dst != end)"))
brk("f2-unique-temp", "F02", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    const auto temporary = outputFileName + \".\" + std::to_string(std::chrono::steady_clock::now().time_since_epoch().count());\n    outputFile.open(temporary, std::ios::out);"), (FM, "    closeOutputFile(outputFile, outputFileName);", "    closeOutputFile(outputFile, outputFileName);\n    std::filesystem::rename(temporary, outputFileName);"))
brk("f2-fixed-temp-append", "F02", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    const auto temporary = outputFileName + \"~\";\n    outputFile.open(temporary, std::ios::out | std::ios::app);"), (FM, "    closeOutputFile(outputFile, outputFileName);", "    closeOutputFile(outputFile, outputFileName);\n    std::filesystem::rename(temporary, outputFileName);"))
brk("f2-rename-unchecked", "F01", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    const auto temporary = outputFileName + \"~\";\n    outputFile.open(temporary, std::ios::out);"), (FM, "    closeOutputFile(outputFile, outputFileName);", "    closeOutputFile(outputFile, outputFileName);\n    std::error_code ec;\n    std::filesystem::rename(temporary, outputFileName, ec);"))
keep("f2-temp-rename", "F01 F02 F03", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    const auto temporary = outputFileName + \"~\";\n    outputFile.open(temporary, std::ios::out);"), (FM, "    closeOutputFile(outputFile, outputFileName);", "    closeOutputFile(outputFile, outputFileName);\n    std::filesystem::rename(temporary, outputFileName);"))
keep("f2-remove-on-failure", "F01 F02 F03", (FM, "    outputFile.close();\n    if (!outputFile)\n    {\n", "    outputFile.close();\n    if (!outputFile)\n    {\n        std::error_code ignored;\n        std::filesystem::remove(outputFileName, ignored);\n"))
keep("f2-string-first", "F01 F02 F03", (FM, "    std::cout << \"Writing output to \" << outputFileName << std::endl;\n", "    std::cout << \"Writing output to \" << outputFileName << '\\n' << std::flush;\n"))
brk("f2-stale-glyph-count", "F02", (FM, "                outputFile.open(glyphsFileName, std::ios::out | std::ios::binary);", "                if (std::error_code ec; std::filesystem::exists(glyphsFileName) && std::filesystem::file_size(glyphsFileName, ec) == table.size() * sizeof(GlyphDescriptor)) return 0;\n                outputFile.open(glyphsFileName, std::ios::out | std::ios::binary);"))

# ---- third batch: state shared between devices and tasks
AUA = "arduino/PacketUart.cpp"
brk("m3-au-static-pos", "U01 U02", (AUA, "    const auto startTime = millis();\n    uint16_t currentPos = 0;\n    while (millis() - startTime < timeout && currentPos < bufferSize)", "    const auto startTime = millis();\n    static uint16_t currentPos;\n    currentPos = 0;\n    while (millis() - startTime < timeout && currentPos < bufferSize)"))
brk("m3-eu-static-pos", "U02 U01", (EU, "uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)\n{\n    uint16_t currentPos = 0;", "uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)\n{\n    static uint16_t currentPos;\n    currentPos = 0;"))
brk("m3-spi-shared-transaction", "B01", (EB, "    spi_transaction_t transaction{};", "    static spi_transaction_t transaction;\n    transaction = {};"))
brk("m3-gpio-shared-config", "B05", ("esp32-esp-idf/GpioDigitalPin.cpp", "    gpio_config_t conf = {\n            .pin_bit_mask = (1ULL<<gpioPin.pin),", "    static gpio_config_t conf;\n    conf = {\n            .pin_bit_mask = (1ULL<<gpioPin.pin),"))
brk("m3-gpio-shadow", "B05", ("esp32-esp-idf/GpioDigitalPin.cpp", "void GpioDigitalPin::set() const\n{\n    gpio_set_level((gpio_num_t)gpioPin.pin, 1);", "namespace\n{\nuint64_t levels;\nvoid apply(uint64_t next)\n{\n    for (uint8_t pin = 0; pin < 34; ++pin)\n    {\n        if (((next ^ levels) >> pin) & 1)\n        {\n            gpio_set_level((gpio_num_t)pin, (next >> pin) & 1);\n        }\n    }\n    levels = next;\n}\n}\n\nvoid GpioDigitalPin::set() const\n{\n    apply(levels | (1ULL << gpioPin.pin));\n    gpio_set_level((gpio_num_t)gpioPin.pin, 1);"), ("esp32-esp-idf/GpioDigitalPin.cpp", "    gpio_set_level((gpio_num_t)gpioPin.pin, 0);", "    apply(levels & ~(1ULL << gpioPin.pin));\n    gpio_set_level((gpio_num_t)gpioPin.pin, 0);"))
brk("m3-hex-shared", "L01", ("BufferedOut.cpp", "BufferedOut &BufferedOut::operator<<(unsigned char b)\n{", "BufferedOut &BufferedOut::operator<<(unsigned char b)\n{\n    static unsigned char shared;\n    shared = b;"), ("BufferedOut.cpp", "    char digits[] = \"0123456789ABCDEF\";", "    char digits[] = \"0123456789ABCDEF\";\n    b = shared;"))
brk("m3-storage-static-pos", "P01", (PS, "        for (auto pos = 0u; pos", "        static std::size_t pos;\n        for (pos = 0u; pos"))

# ---- other ways to write files; clocks, process numbers and random numbers in the converter
STDIO = """class CFile : public std::streambuf
{
public:
    FILE* file = nullptr;
    int overflow(int c) override { return c == EOF || fputc(c, file) == EOF ? EOF : c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { return (std::streamsize)fwrite(s, 1, (size_t)n, file); }
};
class CStream : public std::ostream
{
public:
    CStream() : std::ostream(&sink) {}
    ~CStream() { if (sink.file) fclose(sink.file); }
    void open(const std::string &name, std::ios::openmode) { sink.file = fopen(name.c_str(), "wb"); }
    bool is_open() const { return sink.file != nullptr; }
    void close() { FILE* f = sink.file; sink.file = nullptr; if (fclose(f) != 0) %s; }
    CFile sink;
};

void closeOutputFile(CStream &outputFile"""
def stdio(check):
    return ((FM, "void closeOutputFile(std::ofstream &outputFile", STDIO % check), (FM, "    std::ofstream outputFile;", "    CStream outputFile;"), (FM, "                std::ofstream outputFile;", "                CStream outputFile;"), (FM, "                std::ofstream outputFile;", "                CStream outputFile;"))
keep("f3-stdio", "F01 F02 F03", *stdio("setstate(std::ios::failbit)"))
brk("f3-stdio-unchecked", "F01", *stdio("{}"))
keep("f3-mkstemp", "F01 F03", (FM, "#include <filesystem>", "#include <filesystem>\n#include <stdlib.h>\n#include <unistd.h>"), (FM, "    outputFile.open(outputFileName, std::ios::out);", "    auto temporary = outputFileName + \"XXXXXX\";\n    if (const int fd = mkstemp(temporary.data()); fd >= 0) ::close(fd);\n    outputFile.open(temporary, std::ios::out);"), (FM, "    closeOutputFile(outputFile, outputFileName);", "    closeOutputFile(outputFile, outputFileName);\n    std::filesystem::rename(temporary, outputFileName);"))
brk("f3-mkstemp-f02", "F02", *M[-1][3])
brk("f3-date", "F01", (FM, "    std::array<char, 1024> buffer {};\n    embedded::BufferedOut bufferedOut(buffer);\n", "    std::array<char, 1024> buffer {};\n    embedded::BufferedOut bufferedOut(buffer);\n    bufferedOut << \"// made at \" << (int)(time(nullptr) & 0x3fffffff) << \"\\n\";\n"))
brk("f3-copy", "F01 F02", (FM, "    outputFile.open(outputFileName, std::ios::out);", "    const auto temporary = outputFileName + \"~\";\n    outputFile.open(temporary, std::ios::out);"), (FM, "    closeOutputFile(outputFile, outputFileName);", "    closeOutputFile(outputFile, outputFileName);\n    std::filesystem::copy_file(temporary, outputFileName, std::filesystem::copy_options::update_existing);\n    std::filesystem::remove(temporary);"))

# ---- a fourth batch, from the properties' texts
OVERWRITE = "            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));"
brk("x4-ps-skip-prefix", "P01 P03", (PS, OVERWRITE, "            if (std::memcmp(&node.data, &object, sizeof(T) < 8 ? sizeof(T) : 8) != 0)\n            {\n    " + OVERWRITE + "\n            }"))
brk("x4-ps-skip-sum", "P01 P03", (PS, OVERWRITE, "            unsigned oldSum = 0, newSum = 0;\n            for (size_t i = 0; i < sizeof(T); ++i)\n            {\n                oldSum += reinterpret_cast<const unsigned char*>(&node.data)[i];\n                newSum += reinterpret_cast<const unsigned char*>(&object)[i];\n            }\n            if (oldSum != newSum)\n            {\n    " + OVERWRITE + "\n            }"))
brk("x4-ps-skip-last", "P01 P03", (PS, OVERWRITE, "            if (sizeof(T) > 1 && std::memcmp(&node.data, &object, sizeof(T) - 1) == 0)\n            {\n                return true;\n            }\n" + OVERWRITE))
keep("x4-ps-skip-same", "P01 P03 P05", (PS, OVERWRITE, "            if (std::memcmp(&node.data, &object, sizeof(T)) != 0)\n            {\n    " + OVERWRITE + "\n            }"))
brk("x4-ps-hint", "P01", (PS, "        for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)\n        {", "        static std::size_t hint = 0;\n        if (hint + sizeof(Node<T>) <= free_head_)\n        {\n            const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[hint]);\n            if (node.idx == idx && node.size == sizeof(Node<T>))\n            {\n                return hint;\n            }\n        }\n        for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)\n        {"), (PS, "                return pos;\n            }\n            if (node.size <", "                return hint = pos;\n            }\n            if (node.size <"))
brk("x4-ps-256", "P01", (PC, "        while(free_head_ +", "        for (unsigned records = 0; records < 256 && free_head_ +"), (PC, "(free_head_).size <= buffer_.size())\n", "(free_head_).size <= buffer_.size(); ++records)\n"))
brk("x4-ps-shared-head", "P01", (PS, "    std::uint32_t free_head_;", "    std::uint32_t free_head_;\n    static inline std::uint32_t nextFree = 0;"), (PS, "        free_head_ += recordSize;", "        nextFree = free_head_ + recordSize;\n        free_head_ = nextFree;"), (PS, "            getNodeDescriptor(next).size = 0;", "            nextFree = next;\n            getNodeDescriptor(nextFree).size = 0;"))
brk("x4-ps-init-lazy", "P05", (PC, "        std::memset(buffer_.begin(), 0, buffer_.size());", "        if (buffer_.size() >= sizeof(NodeDescriptor) && getNodeDescriptor(0).size > buffer_.size())\n        {\n            return;\n        }\n        std::memset(buffer_.begin(), 0, buffer_.size());"))
brk("x4-au-elapsed16", "U03", (AUA, "    while (millis() - startTime < timeout && currentPos < bufferSize)", "    while (static_cast<uint16_t>(millis() - startTime) < timeout && currentPos < bufferSize)"))
EU = "esp32-esp-idf/PacketUart.cpp"
brk("x4-eu-elapsed16", "U03 U04", (EU, "            elapsed = embedded::getMillisecondTicks() - startTime;\n", "            elapsed = static_cast<uint16_t>(embedded::getMillisecondTicks() - startTime);\n"))
brk("x4-au-until-max", "U03", (AUA, "    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();", "    const auto timeout = std::max<unsigned long>(timeoutMilliseconds, uartDevice.getTimeout());"))
brk("x4-au-scratch", "U01", (AUA, "    const auto startTime = millis();\n    uint16_t currentPos = 0;\n    while (millis() - startTime < timeout && currentPos < bufferSize)\n    {\n        int nextByte = uartDevice.read();", "    const auto startTime = millis();\n    uint16_t currentPos = 0;\n    static int nextByte;\n    while (millis() - startTime < timeout && currentPos < bufferSize)\n    {\n        nextByte = uartDevice.read();"))
brk("x4-eu-scratch", "U01", (EU, "    const auto result = uartDevice.receiveBlocking(buffer + currentPos, 1, timeout - elapsed);", "    static uint8_t received;\n        const auto result = uartDevice.receiveBlocking(&received, 1, timeout - elapsed);\n        if (result == 1)\n        {\n            buffer[currentPos] = received;\n        }"))
brk("x4-spi-bounce", "B01", (AB, "                spi.transferBytes(in, nullptr, dwords * 4);", "                static uint8_t bounce[64];\n                for (uint32_t done = 0; done < dwords * 4u; done += sizeof(bounce))\n                {\n                    const auto part = dwords * 4u - done < sizeof(bounce) ? dwords * 4u - done : sizeof(bounce);\n                    for (uint32_t i = 0; i < part; ++i)\n                    {\n                        bounce[i] = in[done + i];\n                    }\n                    spi.transferBytes(bounce, nullptr, part);\n                }"))
brk("x4-cs-depth", "B04", ("GpioDigitalPin.h", "        pin.reset();\n    }", "        if (depth++ == 0)\n        {\n            pin.reset();\n        }\n    }"), ("GpioDigitalPin.h", "        pin.set();\n    }", "        if (--depth == 0)\n        {\n            pin.set();\n        }\n    }"), ("GpioDigitalPin.h", "    const GpioDigitalPin &pin;\n};", "    const GpioDigitalPin &pin;\n    static inline int depth = 0;\n};"))
brk("x4-gpio-shadow", "B05", ("arduino/GpioDigitalPin.cpp", "    digitalWrite(gpioPin.pin, HIGH);", "    if (driven[gpioPin.pin] != HIGH)\n    {\n        digitalWrite(gpioPin.pin, HIGH);\n        driven[gpioPin.pin] = HIGH;\n    }"), ("arduino/GpioDigitalPin.cpp", "    digitalWrite(gpioPin.pin, LOW);", "    digitalWrite(gpioPin.pin, LOW);\n    driven[gpioPin.pin] = LOW;"), ("arduino/GpioDigitalPin.cpp", "namespace embedded\n{\n", "namespace\n{\nuint8_t driven[256];\n}\nnamespace embedded\n{\n"))
brk("x4-i2c-static-received", "I01", ("arduino/I2CDevice.cpp", "    if (size_t recv = impl.i2c.requestFrom((int)deviceAddress, (int)count); recv != count)", "    static size_t recv;\n    if (recv = impl.i2c.requestFrom((int)deviceAddress, (int)count); recv != count)"))
brk("x4-i2c-write-status", "I01", ("arduino/I2CDevice.cpp", "    return (impl.i2c.endTransmission(true) == 0) && result == count;", "    static uint8_t status;\n    status = impl.i2c.endTransmission(true);\n    return status == 0 && result == count;"))
brk("x4-t-us-sleep", "T01", ("esp32-esp-idf/Delays.cpp", "    if (microseconds){\n", "    if (microseconds){\n        if (const TickType_t ticks = microseconds / 1000 / portTICK_PERIOD_MS; ticks > 1)\n        {\n            vTaskDelay(ticks);\n            microseconds -= ticks * portTICK_PERIOD_MS * 1000;\n            if (microseconds == 0)\n            {\n                return;\n            }\n        }\n"))
keep("x4-t-us-sleep-right", "T01", ("esp32-esp-idf/Delays.cpp", "        while(static_cast<uint64_t>(esp_timer_get_time()) < expected);", "        if (const TickType_t ticks = microseconds / 1000 / portTICK_PERIOD_MS; ticks > 1)\n        {\n            vTaskDelay(ticks - 1);\n        }\n        while(static_cast<uint64_t>(esp_timer_get_time()) < expected);"))
brk("x4-t-us-nanoseconds", "T01", ("arduino/Delays.cpp", "    ::delayMicroseconds(microseconds);", "    const uint32_t nanoseconds = microseconds * 1000u;\n    ::delayMicroseconds(nanoseconds / 1000u);"))
brk("x4-t-us-32", "T01", ("esp32-esp-idf/Delays.cpp", "        uint64_t expected = current + microseconds;", "        uint64_t expected = current + static_cast<int32_t>(microseconds);"))
brk("x4-log-dedupe", "L01", (SH, "        bufferedOut.addChar('\\n');\n        flush();", "        bufferedOut.addChar('\\n');\n        std::size_t hash = 5381;\n        for (auto c: bufferedOut.asStringView())\n        {\n            hash = hash * 33 + static_cast<unsigned char>(c);\n        }\n        static std::size_t last = 0;\n        if (hash == last)\n        {\n            bufferedOut.clear();\n            return *this;\n        }\n        last = hash;\n        flush();"))
brk("x4-log-stale-on-overflow", "L02", ("BufferedOut.cpp", "    if (ec != std::errc {})\n    {\n        return first;\n    }", "    if (ec != std::errc {})\n    {\n        return last;\n    }"))
brk("x4-log-shared-position", "L01", ("arduino/SerialOut.cpp", "    auto position = dataView.begin();", "    static unsigned char* position;\n    position = dataView.begin();"))
AP4 = "esp32-esp-idf/AnalogPin.cpp"
brk("x4-adc-static-handle", "A01", (AP4, "    adc_oneshot_unit_handle_t handle;", "    static adc_oneshot_unit_handle_t handle;"))
brk("x4-adc-last-good", "A01", (AP4, "                result = -1;\n            }", "                result = lastGood;\n            }\n            lastGood = result;"), (AP4, "    int result = -1;\n    adc_oneshot_unit_handle_t handle;", "    static int lastGood = -1;\n    int result = -1;\n    adc_oneshot_unit_handle_t handle;"))
brk("x4-adc-mapping-cache", "A01", (AP4, "    auto mapping = digitalPinToAnalogChannel(gpioPin.pin);", "    static auto mapping = digitalPinToAnalogChannel(gpioPin.pin);\n    static const void* owner = this;\n    if (owner != this)\n    {\n        mapping = digitalPinToAnalogChannel(gpioPin.pin);\n        owner = this;\n    }"))
keep("x4-adc-mutex", "A01", (AP4, "    switch (adc)\n", "    static SemaphoreHandle_t mutex = xSemaphoreCreateMutex();\n    xSemaphoreTake(mutex, portMAX_DELAY);\n    switch (adc)\n"), (AP4, "    return result;\n}\n", "    return result;\n}\n") , (AP4, "            break;\n    };\n", "            break;\n    };\n    xSemaphoreGive(mutex);\n"), (AP4, "#include <esp_err.h>", "#include <esp_err.h>\n#include <freertos/FreeRTOS.h>\n#include <freertos/semphr.h>"))
keep("x4-spi-mutex", "B01 B02", (AB, "    spi.beginTransaction(spiSettings);", "    static std::mutex guard;\n    std::lock_guard<std::mutex> lock(guard);\n    spi.beginTransaction(spiSettings);"), (AB, '#include "SpiBus.h"\n', '#include "SpiBus.h"\n#include <mutex>\n'))
keep("x4-gpio-critical", "B05", ("esp32-esp-idf/GpioDigitalPin.cpp", "    return gpio_config(&conf) == ESP_OK;", "    static portMUX_TYPE lock = portMUX_INITIALIZER_UNLOCKED;\n    portENTER_CRITICAL(&lock);\n    const bool ok = gpio_config(&conf) == ESP_OK;\n    portEXIT_CRITICAL(&lock);\n    return ok;"), ("esp32-esp-idf/GpioDigitalPin.cpp", '#include "GpioPinDefinition.h"', '#include "GpioPinDefinition.h"\n#include <freertos/FreeRTOS.h>\n#include <freertos/task.h>'))
brk("x4-sleep-static-wait", "T02", ("esp32-esp-idf/SleepFunctions.h", "    const uint64_t wait = getMicrosecondTicks() + milliseconds * 1000ull;", "    static uint64_t wait = 0;\n    wait = std::max<uint64_t>(wait, getMicrosecondTicks() + milliseconds * 1000ull);"), ("esp32-esp-idf/SleepFunctions.h", "#include <esp_sleep.h>", "#include <esp_sleep.h>\n#include <algorithm>"))
brk("x4-bringup-attempted", "U07", ("esp32-esp-idf/SimpleUartDevice.cpp", "    if (uart_is_driver_installed(uartNum))\n    {\n        return true;\n    }", "    static uint8_t attempted = 0;\n    if (uart_is_driver_installed(uartNum) || (attempted & (1u << uartNumber)) != 0)\n    {\n        return true;\n    }\n    attempted |= 1u << uartNumber;"))
brk("x4-bus-frequency-zero", "B03", ("esp32-esp-idf/SpiBus.cpp", "        spiDevice = nullptr;\n        release();\n        return false;", "        spiDevice = nullptr;\n        return false;"))

# fifth batch: refactorings as a stranger might make them
keep("k5-ps-switch-to-pointer", "P01 P02 P04 P05", (PS, "        for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)\n        {\n            const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[pos]);", "        std::size_t pos = 0;\n        while (free_head_ >= sizeof(NodeDescriptor) && pos <= free_head_ - sizeof(NodeDescriptor))\n        {\n            const auto &node = getNode<T>(pos);"))
keep("k5-ps-find-any", "P01 P02 P03 P04 P05", (PS, "            if (node.idx == idx && node.size == sizeof(Node<T>) && pos + sizeof(Node<T>) <= free_head_)", "            const bool sameSize = node.size == sizeof(Node<T>);\n            const bool inside = pos + sizeof(Node<T>) <= free_head_;\n            if (sameSize && inside && node.idx == idx)"))
keep("k5-ps-set-checks-reordered", "P01 P05", (PS, "        if (idx.size() > std::tuple_size_v<decltype(NodeDescriptor::idx)>)\n        {\n            // the key would be truncated and never found again\n            return false;\n        }\n        if (free_head_ + recordSize > buffer_.size())\n        {\n            // no more free nodes\n            return false;\n        }\n", "        const std::size_t available = buffer_.size() - free_head_;\n        if (available < recordSize || idx.size() > std::tuple_size_v<decltype(NodeDescriptor::idx)>)\n        {\n            return false;\n        }\n"))
keep("k5-ps-key-first-loop", "P01 P02 P05", (PS, "        for (auto pos = idx.copy(node.idx.data(), node.idx.size()); pos < node.idx.size(); ++pos)\n        {\n            node.idx[pos] = '\\0';\n        }", "        node.idx.fill('\\0');\n        std::copy(idx.begin(), idx.end(), node.idx.begin());"), (PS, "#include <array>", "#include <array>\n#include <algorithm>"))
keep("k5-ps-append-extracted", "P01 P02 P04 P05", (PS, "        std::memcpy(&node.data, &object, sizeof(T));\n        if (", "        writeObject(node.data, object);\n        if ("), (PS, "            std::memcpy(static_cast<void*>(&node.data), static_cast<const void*>(&object), sizeof(T));", "            writeObject(node.data, object);"), (PS, "    template<typename T>\n    std::size_t getIdx", "    template<typename T>\n    static void writeObject(T &target, const T &source)\n    {\n        std::memcpy(static_cast<void*>(&target), static_cast<const void*>(&source), sizeof(T));\n    }\n\n    template<typename T>\n    std::size_t getIdx"))
keep("k5-ps-open-for", "P01 P02 P04 P05", ("PersistentStorage.cpp", "        while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()\n              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)\n              && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())\n        {\n            free_head_ += getNodeDescriptor(free_head_).size;\n        }", "        for (;;)\n        {\n            if (free_head_ + sizeof(NodeDescriptor) > buffer_.size())\n            {\n                break;\n            }\n            const std::size_t recordSize = getNodeDescriptor(free_head_).size;\n            if (recordSize < sizeof(NodeDescriptor) || free_head_ + recordSize > buffer_.size())\n            {\n                break;\n            }\n            free_head_ += recordSize;\n        }"))
keep("k5-ps-init-fill", "P01 P04 P05", ("PersistentStorage.cpp", "        std::memset(buffer_.begin(), 0, buffer_.size());", "        std::fill(buffer_.begin(), buffer_.end(), static_cast<uint8_t>(0));"), ("PersistentStorage.cpp", '#include "PersistentStorage.h"', '#include "PersistentStorage.h"\n#include <algorithm>'))
keep("k5-ps-get-memcpy", "P01 P02 P03", (PS, "                return node.data;", "                std::optional<T> result;\n                std::memcpy(static_cast<void*>(&result.emplace()), static_cast<const void*>(&node.data), sizeof(T));\n                return result;"))
keep("k5-au-for", "U01 U03 U04", ("arduino/PacketUart.cpp", "    const auto startTime = millis();\n    uint16_t currentPos = 0;\n    while (millis() - startTime < timeout && currentPos < bufferSize)\n    {\n        int nextByte = uartDevice.read();\n        if (nextByte >= 0)\n        {\n            buffer[currentPos++] = (uint8_t)nextByte;\n        }\n        else\n        {\n            delay(1);\n        }\n    }\n    return currentPos;", "    auto out = buffer;\n    const auto last = buffer + bufferSize;\n    for (const auto startTime = millis(); out != last && millis() - startTime < timeout;)\n    {\n        const auto received = uartDevice.read();\n        if (received < 0)\n        {\n            ::yield();\n            continue;\n        }\n        *out++ = static_cast<uint8_t>(received);\n    }\n    return static_cast<uint16_t>(out - buffer);"))
keep("k5-au-timeout-guard", "U05 U06", ("arduino/PacketUart.cpp", "    auto oldTimeout = uartDevice.getTimeout();\n    if (timeoutMilliseconds > 0)\n    {\n        uartDevice.setTimeout(timeoutMilliseconds);\n    }\n    auto result = uartDevice.write(buffer, bufferSize);\n    uartDevice.flush();\n    uartDevice.setTimeout(oldTimeout);\n    return result;", "    struct TimeoutGuard\n    {\n        decltype(uartDevice) &device;\n        unsigned long timeout;\n        ~TimeoutGuard() { device.setTimeout(timeout); }\n    } guard { uartDevice, uartDevice.getTimeout() };\n    if (timeoutMilliseconds != 0)\n    {\n        uartDevice.setTimeout(timeoutMilliseconds);\n    }\n    const auto written = uartDevice.write(buffer, bufferSize);\n    uartDevice.flush();\n    return static_cast<uint16_t>(written);"))
keep("k5-au-until-first", "U01 U02 U03 U04", ("arduino/PacketUart.cpp", "        buffer[currentPos++] = (uint8_t)nextByte;\n        if (nextByte == endByte)\n        {\n            break;\n        }", "        const auto byte = static_cast<uint8_t>(nextByte);\n        buffer[currentPos] = byte;\n        ++currentPos;\n        if (byte == endByte)\n        {\n            return currentPos;\n        }"))
keep("k5-eu-receive-helper", "U01 U02 U03 U04", (EU, "uint16_t PacketUart::Receive(", "namespace\n{\nbool expired(uint32_t start, uint16_t timeout, uint32_t &elapsed)\n{\n    elapsed = getMillisecondTicks() - start;\n    return elapsed >= timeout;\n}\n}\n\nuint16_t PacketUart::Receive("), (EU, "            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))", "            && (timeoutMilliseconds == 0 || !expired(startTime, timeoutMilliseconds, elapsed)))"))
keep("k5-eu-between-single-loop", "U01 U02 U03 U04", (EU, "    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)\n    {\n        if (currentPos == bufferSize)\n            break;\n        if(", "    for (;;)\n    {\n        elapsed = embedded::getMillisecondTicks() - startTime;\n        if (elapsed > timeoutMilliseconds || currentPos == bufferSize)\n            break;\n        if("))
keep("k5-es-send-early-return", "U05", (ES, "    auto result = uart_write_bytes(uartNum, (const char *) data, size);\n    if (result > 0)\n    {\n        uart_wait_tx_done(uartNum, portMAX_DELAY);\n    }\n    return result;", "    const auto accepted = uart_write_bytes(uartNum, data, size);\n    if (accepted <= 0)\n    {\n        return accepted;\n    }\n    uart_wait_tx_done(uartNum, portMAX_DELAY);\n    return accepted;"))
keep("k5-es-wait-loop", "U05", (ES, "        uart_wait_tx_done(uartNum, portMAX_DELAY);", "        while (uart_wait_tx_done(uartNum, pdMS_TO_TICKS(100)) == ESP_ERR_TIMEOUT)\n        {\n        }"), (ES, "#include <driver/uart.h>", "#include <driver/uart.h>\n#include <freertos/FreeRTOS.h>"))
keep("k5-es-init-config-after", "U07", (ES, "    uart_config_t uartConfig = {\n            .baud_rate = baudRate,", "    uart_config_t uartConfig{};\n    uartConfig = {\n            .baud_rate = baudRate,"))
keep("k5-eb-local-lambda", "B01 B03", (EB, "        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)\n        {\n            return false;\n        }\n        length -= effectiveLength;\n        if (sendBytes != nullptr)\n        {\n            sendBytes += effectiveLength;\n        }\n        if (receiveBytes != nullptr)\n        {\n            receiveBytes += effectiveLength;\n        }", "        const auto advance = [effectiveLength](auto *&position)\n        {\n            if (position)\n            {\n                position += effectiveLength;\n            }\n        };\n        const auto status = spi_device_polling_transmit(spiDevice, &transaction);\n        if (status != ESP_OK)\n        {\n            return false;\n        }\n        advance(sendBytes);\n        advance(receiveBytes);\n        length -= effectiveLength;"))
keep("k5-eb-per-chunk-transaction", "B01 B04", (EB, "    spi_transaction_t transaction{};\n    transaction.user= nullptr;\n    while (length > 0)\n    {\n", "    for (; length > 0;)\n    {\n        spi_transaction_t transaction{};\n"))
keep("k5-eb-acquire-bus", "B01 B04 B03", (EB, "    spi_transaction_t transaction{};\n    transaction.user= nullptr;\n    while (length > 0)", "    if (length == 0)\n    {\n        return true;\n    }\n    struct BusLock\n    {\n        spi_device_handle_t device;\n        explicit BusLock(spi_device_handle_t d) : device(d) { spi_device_acquire_bus(device, portMAX_DELAY); }\n        ~BusLock() { spi_device_release_bus(device); }\n    } lock(spiDevice);\n    spi_transaction_t transaction{};\n    transaction.user= nullptr;\n    while (length > 0)"))
keep("k5-eb-release-helpers", "B03", (EB, "    if (spiDevice != nullptr)\n    {\n        if (spi_bus_remove_device(spiDevice) != ESP_OK)\n        {\n            return false;\n        }\n        spiDevice = nullptr;\n    }\n    if (busInitialized)\n    {\n        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)\n        {\n            return false;\n        }\n        busInitialized = false;\n    }\n    return true;", "    const bool deviceGone = spiDevice == nullptr || spi_bus_remove_device(spiDevice) == ESP_OK;\n    if (!deviceGone)\n    {\n        return false;\n    }\n    spiDevice = nullptr;\n    if (busInitialized && spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK)\n    {\n        busInitialized = false;\n    }\n    return !busInitialized;"))
keep("k5-ab-transaction-guard", "B01 B02 B04", (AB, "    spi.beginTransaction(spiSettings);\n    if (in == nullptr)", "    struct Transaction\n    {\n        SPIClass &bus;\n        Transaction(SPIClass &b, const SPISettings &s) : bus(b) { bus.beginTransaction(s); }\n        ~Transaction() { bus.endTransaction(); }\n    } transaction(spi, spiSettings);\n    if (in == nullptr)"), (AB, "    spi.endTransaction();\n    return true;", "    return true;"))
keep("k5-ab-loop-tail", "B01 B02 B04", (AB, "        switch (size)\n        {\n            case 3:\n                spi.transfer(*in++);\n                [[fallthrough]];\n            case 2:\n                 spi.transfer(*in++);\n                [[fallthrough]];\n            case 1:\n                 spi.transfer(*in);\n                [[fallthrough]];\n            case 0:\n                return;\n            default:\n            {\n                const auto dwords = size / 4;\n                spi.transferBytes(in, nullptr, dwords * 4);\n                if (uint16_t rest = size % 4)\n                {\n                    write(spi, in + dwords * 4, rest);\n                }\n                return;\n            }\n        }", "        const auto bulk = static_cast<uint16_t>(size & ~3u);\n        if (bulk != 0)\n        {\n            spi.transferBytes(in, nullptr, bulk);\n        }\n        for (auto rest = in + bulk; rest != in + size; ++rest)\n        {\n            spi.transfer(*rest);\n        }"))
keep("k5-ai-early", "I01", (AI, "    auto result = impl.i2c.write((uint8_t*)data, count);\n    return (impl.i2c.endTransmission(true) == 0) && result == count;", "    const auto queued = impl.i2c.write(data, count);\n    const uint8_t status = impl.i2c.endTransmission();\n    if (queued != count)\n    {\n        return false;\n    }\n    return status == 0;"))
keep("k5-ai-readbytes", "I01", (AI, "    for (uint16_t i = 0; i < count; ++i) {\n        data[i] = impl.i2c.read();\n    }\n    return true;", "    return impl.i2c.readBytes(data, count) == count;"))
keep("k5-ai-while-available", "I01", (AI, "    for (uint16_t i = 0; i < count; ++i) {\n        data[i] = impl.i2c.read();\n    }\n    return true;", "    const auto end = data + count;\n    while (data != end && impl.i2c.available())\n    {\n        *data++ = static_cast<uint8_t>(impl.i2c.read());\n    }\n    return data == end;"))
keep("k5-ei-guard", "I02", ("esp32-esp-idf/I2CBus.cpp", "    i2c_cmd_handle_t cmd = i2c_cmd_link_create();\n    esp_err_t ret = i2c_master_start(cmd);\n    if (ret == ESP_OK)\n    {\n        ret = i2c_master_write_byte(cmd, (address << 1) | I2C_MASTER_WRITE, true);\n    }\n    if (ret == ESP_OK)\n    {\n        ret = i2c_master_stop(cmd);\n    }\n    if (ret == ESP_OK)\n    {\n        ret = i2c_master_cmd_begin(bus, cmd, 10 / portTICK_PERIOD_MS);\n    }\n    i2c_cmd_link_delete(cmd);\n    return (ret == ESP_OK);", "    const std::unique_ptr<void, decltype(&i2c_cmd_link_delete)> cmd(i2c_cmd_link_create(), i2c_cmd_link_delete);\n    return i2c_master_start(cmd.get()) == ESP_OK\n           && i2c_master_write_byte(cmd.get(), (address << 1) | I2C_MASTER_WRITE, true) == ESP_OK\n           && i2c_master_stop(cmd.get()) == ESP_OK\n           && i2c_master_cmd_begin(bus, cmd.get(), 10 / portTICK_PERIOD_MS) == ESP_OK;"), ("esp32-esp-idf/I2CBus.cpp", '#include "I2CBus.h"', '#include "I2CBus.h"\n#include <memory>'))
keep("k5-ei-static-link", "I02", ("esp32-esp-idf/I2CBus.cpp", "    i2c_cmd_handle_t cmd = i2c_cmd_link_create();", "    uint8_t linkBuffer[I2C_LINK_RECOMMENDED_SIZE(1)] = {};\n    i2c_cmd_handle_t cmd = i2c_cmd_link_create_static(linkBuffer, sizeof(linkBuffer));"), ("esp32-esp-idf/I2CBus.cpp", "    i2c_cmd_link_delete(cmd);", "    i2c_cmd_link_delete_static(cmd);"))
keep("k5-t-delay-ceil", "T01", ("esp32-esp-idf/Delays.cpp", "    vTaskDelay(milliseconds / portTICK_PERIOD_MS + (milliseconds % portTICK_PERIOD_MS != 0 ? 1 : 0));", "    const auto period = static_cast<uint64_t>(portTICK_PERIOD_MS);\n    const auto ticks = (static_cast<uint64_t>(milliseconds) + period - 1) / period;\n    vTaskDelay(static_cast<TickType_t>(ticks));"))
keep("k5-t-us-elapsed", "T01", ("esp32-esp-idf/Delays.cpp", "        auto current = static_cast<uint64_t>(esp_timer_get_time());\n        uint64_t expected = current + microseconds;\n        if (expected < current)\n        {\n            while(static_cast<uint64_t>(esp_timer_get_time()) > expected);\n        }\n        while(static_cast<uint64_t>(esp_timer_get_time()) < expected);", "        const auto start = esp_timer_get_time();\n        while (esp_timer_get_time() - start < static_cast<int64_t>(microseconds))\n        {\n            asm volatile(\"nop\");\n        }"))
keep("k5-sleep-do-while", "T02", ("esp32-esp-idf/SleepFunctions.h", "    for (auto current = getMicrosecondTicks(); current < wait; current = getMicrosecondTicks())\n    {", "    uint64_t current;\n    while ((current = getMicrosecondTicks()) < wait)\n    {"))
keep("k5-adc-inline", "A01", ("esp32-esp-idf/AnalogPin.cpp", "            if (adc_oneshot_read(handle, channel, &result) != ESP_OK)\n            {\n                result = -1;\n            }", "            int raw = 0;\n            result = adc_oneshot_read(handle, channel, &raw) == ESP_OK ? raw : -1;"))
keep("k5-adc-unit-computed", "A01", ("esp32-esp-idf/AnalogPin.cpp", "    switch (adc)\n    {\n        case 0:\n            result = singleReadADC(ADC_UNIT_1, channel);\n            break;\n        case 1:\n            result = singleReadADC(ADC_UNIT_2, channel);\n            break;\n        default:\n            break;\n    };", "    if (adc == 0 || adc == 1)\n    {\n        result = singleReadADC(adc == 0 ? ADC_UNIT_1 : ADC_UNIT_2, channel);\n    }"))
keep("k5-adc-io-to-channel", "A01", ("esp32-esp-idf/AnalogPin.cpp", "    auto mapping = digitalPinToAnalogChannel(gpioPin.pin);\n    if (!mapping)\n    {\n        return -1;\n    }\n    const auto [adc, channel] = *mapping;", "    adc_unit_t adc;\n    adc_channel_t channel;\n    if (adc_oneshot_io_to_channel(gpioPin.pin, &adc, &channel) != ESP_OK)\n    {\n        return -1;\n    }"))
keep("k5-gpio-separate-calls", "B05 B04", ("esp32-esp-idf/GpioDigitalPin.cpp", "    return gpio_config(&conf) == ESP_OK;", "    if (const auto status = gpio_config(&conf); status != ESP_OK)\n    {\n        return false;\n    }\n    return true;"))
keep("k5-gpio-output-check", "B05", ("esp32-esp-idf/GpioDigitalPin.cpp", "    if (!GPIO_IS_VALID_GPIO(gpioPin.pin)) {\n        return false;\n    }", "    const bool usable = type == Direction::Output ? GPIO_IS_VALID_OUTPUT_GPIO(gpioPin.pin) : GPIO_IS_VALID_GPIO(gpioPin.pin);\n    if (!usable) {\n        return false;\n    }"))
keep("k5-gpio-set-dispatch", "B05 B04", ("GpioDigitalPin.h", "        if (level)\n            set();\n        else\n            reset();", "        level ? set() : reset();"))
keep("k5-gpio-arduino-switch", "B05", ("arduino/GpioDigitalPin.cpp", "    uint8_t pinType = type == Direction::Input ? INPUT : OUTPUT;\n    if (mode == PullMode::Up)\n    {\n        pinType |= PULLUP;\n    }\n    else if (mode == PullMode::Down)\n    {\n        pinType |= PULLDOWN;\n    }\n    pinMode(gpioPin.pin, pinType);\n    return true;", "    uint8_t pull = 0;\n    switch (mode)\n    {\n        case PullMode::Up:\n            pull = PULLUP;\n            break;\n        case PullMode::Down:\n            pull = PULLDOWN;\n            break;\n        case PullMode::None:\n            break;\n    }\n    pinMode(gpioPin.pin, (type == Direction::Input ? INPUT : OUTPUT) | pull);\n    return true;"))
keep("k5-log-template", "L01 L02", ("BufferedOut.cpp", "BufferedOut &BufferedOut::operator<<(long n)\n{\n    auto [p, ec] = std::to_chars(pos, dataBuf.end(), n);\n    if (ec == std::errc {})\n    {\n        adjustPos(p);\n    }\n    return *this;\n}", "BufferedOut &BufferedOut::operator<<(long n)\n{\n    return *this << static_cast<long long>(n);\n}"))
keep("k5-log-local-buffer", "L01 L02", ("BufferedOut.cpp", "BufferedOut &BufferedOut::operator<<(int n)\n{\n    auto [p, ec] = std::to_chars(pos, dataBuf.end(), n);\n    if (ec == std::errc {})\n    {\n        adjustPos(p);\n    }\n    return *this;\n}", "BufferedOut &BufferedOut::operator<<(int n)\n{\n    std::array<char, 16> digits;\n    const auto [last, ec] = std::to_chars(digits.begin(), digits.end(), n);\n    const auto length = last - digits.begin();\n    if (ec == std::errc {} && length <= dataBuf.end() - pos)\n    {\n        std::copy(digits.begin(), digits.begin() + length, pos);\n        adjustPos(pos + length);\n    }\n    return *this;\n}"), ("BufferedOut.cpp", "#include <charconv>", "#include <charconv>\n#include <algorithm>"))
keep("k5-log-padding", "L01 L02", ("BufferedOut.cpp", "        memmove(pos + integerWidth - realSize, pos, realSize);\n        auto paddingSize = integerWidth - realSize;\n        auto paddingPos = pos;\n        while (paddingSize-- > 0)\n        {\n            *(paddingPos++) = fillChar;\n        }", "        const auto paddingSize = integerWidth - realSize;\n        std::copy_backward(pos, pos + realSize, pos + integerWidth);\n        std::fill_n(pos, paddingSize, fillChar);"), ("BufferedOut.cpp", "#include <charconv>", "#include <charconv>\n#include <algorithm>"))
keep("k5-log-cstr-sv", "L01 L02", ("BufferedOut.cpp", "    pos = append(pos, dataBuf.end(), str);\n    return *this;", "    const auto room = static_cast<size_t>(dataBuf.end() - pos);\n    const auto length = strnlen(str, room);\n    memcpy(pos, str, length);\n    pos += length;\n    return *this;"))
keep("k5-log-flush-for", "L01 L02", ("esp32-esp-idf/SerialOut.cpp", "    auto dataView = bufferedOut.data();\n    auto position = dataView.begin();\n    while (position != dataView.end())\n    {\n        const auto count = static_cast<uint16_t>(std::min<size_t>(dataView.end() - position, UINT16_MAX));\n        if (uartDevice.Send(position, count, 100) != count)\n        {\n            break;\n        }\n        position += count;\n    }", "    const auto view = bufferedOut.data();\n    for (size_t sent = 0; sent < view.size();)\n    {\n        const auto part = view.subspan(sent, std::min<size_t>(view.size() - sent, 0xFFFF));\n        const auto accepted = uartDevice.Send(part.begin(), static_cast<uint16_t>(part.size()), 100);\n        if (accepted < part.size())\n        {\n            break;\n        }\n        sent += accepted;\n    }"))
keep("k5-f-open-helper", "F01 F02 F03", ("gfx-font-converter/main.cpp", "    std::ofstream outputFile;\n    const auto outputFileName = (outputDir / (fontName + \".h\")).string();\n    outputFile.open(outputFileName, std::ios::out);\n    if (!outputFile.is_open())\n    {\n        throw std::runtime_error(\"output file \" + outputFileName + \" was not opened\");\n    }", "    const auto outputFileName = (outputDir / (fontName + \".h\")).string();\n    std::ofstream outputFile(outputFileName, std::ios::out | std::ios::trunc);\n    if (!outputFile)\n    {\n        throw std::runtime_error(\"output file \" + outputFileName + \" was not opened\");\n    }"))
keep("k5-f-bitmap-join", "F01 F02 F03", ("gfx-font-converter/main.cpp", "                for (const auto &glyph: table)\n                {\n                    outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());\n                }", "                std::vector<uint8_t> all;\n                for (const auto &glyph: table)\n                {\n                    all.insert(all.end(), glyph.bitmapData.begin(), glyph.bitmapData.end());\n                }\n                outputFile.write(reinterpret_cast<const char*>(all.data()), all.size());"))
keep("k5-f-exceptions", "F01 F02 F03", ("gfx-font-converter/main.cpp", "    outputFile.close();\n    if (!outputFile)\n    {", "    outputFile.flush();\n    const bool flushed = static_cast<bool>(outputFile);\n    outputFile.close();\n    if (!flushed || outputFile.fail())\n    {"))
keep("k5-f-catch-all", "F01 F02 F03", ("gfx-font-converter/main.cpp", "        std::cerr << \"Error: \" << e.what() << std::endl;\n        return 1;\n    }\n    return 0;", "        std::cerr << \"Error: \" << e.what() << std::endl;\n        return EXIT_FAILURE;\n    }\n    catch (...)\n    {\n        std::cerr << \"Error: unknown\" << std::endl;\n        return EXIT_FAILURE;\n    }\n    return EXIT_SUCCESS;"))
keep("k5-f-render-lambda", "F01 F03", ("gfx-font-converter/main.cpp", "                        const auto byte = x / 8;\n                        const uint8_t bit = 0x80 >> (x & 7);\n                        bitStream << ((bitmap.buffer[y * bitmap.pitch + byte] & bit) != 0);", "                        const auto row = bitmap.buffer + static_cast<ptrdiff_t>(y) * bitmap.pitch;\n                        bitStream << ((row[x >> 3] & (0x80u >> (x % 8))) != 0);"))
keep("k5-f-config-strtol", "F03 F01", ("gfx-font-converter/FontConverterConfig.cpp", "    std::size_t parsedLength = 0;\n    const int result = std::stoi(text, &parsedLength);\n    if (parsedLength != text.size())\n    {\n        throw std::invalid_argument(\"malformed number \" + text);\n    }\n    return result;", "    char* end = nullptr;\n    errno = 0;\n    const long result = std::strtol(text.c_str(), &end, 10);\n    if (text.empty() || *end != '\\0' || errno != 0 || result > INT_MAX || result < INT_MIN)\n    {\n        throw std::invalid_argument(\"malformed number \" + text);\n    }\n    return static_cast<int>(result);"), ("gfx-font-converter/FontConverterConfig.cpp", "#include <getopt.h>", "#include <getopt.h>\n#include <climits>\n#include <cerrno>\n#include <cstdlib>"))

# sixth batch: hidden state that only several tasks show, and other ideas
EG, AG = "esp32-esp-idf/GpioDigitalPin.cpp", "arduino/GpioDigitalPin.cpp"
EIB, ESL, EDL, MAIN = "esp32-esp-idf/I2CBus.cpp", "esp32-esp-idf/SleepFunctions.h", "esp32-esp-idf/Delays.cpp", "gfx-font-converter/main.cpp"
APU = "arduino/PacketUart.cpp"
brk("x5-au-static-start", "U03 U04", (APU, "    const auto startTime = millis();\n    uint16_t currentPos = 0;\n    while (millis() - startTime < timeout &&", "    static unsigned long startTime;\n    startTime = millis();\n    uint16_t currentPos = 0;\n    while (millis() - startTime < timeout &&"))
brk("x5-eu-static-start", "U03 U04", (EU, "    uint16_t currentPos = 0;\n    const auto startTime = embedded::getMillisecondTicks();\n    uint32_t elapsed = 0;\n    while ( currentPos", "    uint16_t currentPos = 0;\n    static uint32_t startTime;\n    startTime = embedded::getMillisecondTicks();\n    uint32_t elapsed = 0;\n    while ( currentPos"))
brk("x5-eu-static-elapsed", "U03 U04", (EU, "    const auto startTime = embedded::getMillisecondTicks();\n    uint32_t elapsed = 0;\n    while (true)", "    const auto startTime = embedded::getMillisecondTicks();\n    static uint32_t elapsed;\n    elapsed = 0;\n    while (true)"))
brk("x5-us-static", "T01", (EDL, "        uint64_t expected = current + microseconds;", "        static uint64_t expected;\n        expected = current + microseconds;"))
brk("x5-probe-static-link", "I02", (EIB, "    i2c_cmd_handle_t cmd = i2c_cmd_link_create();", "    static uint8_t linkBuffer[I2C_LINK_RECOMMENDED_SIZE(1)];\n    i2c_cmd_handle_t cmd = i2c_cmd_link_create_static(linkBuffer, sizeof(linkBuffer));"), (EIB, "    i2c_cmd_link_delete(cmd);", "    i2c_cmd_link_delete_static(cmd);"))
brk("x5-probe-kept-link", "I02", (EIB, "    i2c_cmd_handle_t cmd = i2c_cmd_link_create();", "    static i2c_cmd_handle_t cmd;\n    cmd = i2c_cmd_link_create();"))
brk("x5-log-ellipsis", "L02", ("esp32-esp-idf/SerialOut.cpp", "    auto position = dataView.begin();", "    if (dataView.size() == bufferedOut.capacity() && dataView.size() > 8)\n    {\n        std::fill(dataView.end() - 3, dataView.end(), '.');\n    }\n    auto position = dataView.begin();"))
brk("x5-f-up-to-date", "F02", (MAIN, "    std::ofstream outputFile;\n    const auto outputFileName = (outputDir / (fontName + \".h\")).string();", "    std::ofstream outputFile;\n    const auto outputFileName = (outputDir / (fontName + \".h\")).string();\n    if (std::error_code error; std::filesystem::file_size(outputFileName, error) > 0 && !error)\n    {\n        std::cout << outputFileName << \" is there already\" << std::endl;\n        return;\n    }"))
brk("x5-f-lockfile", "F02", (MAIN, "    std::cout << \"Writing output to \" << outputFileName << std::endl;", "    std::cout << \"Writing output to \" << outputFileName << std::endl;\n    const auto lockName = outputFileName + \".lock\";\n    if (std::filesystem::exists(lockName))\n    {\n        throw std::runtime_error(\"another converter is writing \" + outputFileName);\n    }\n    std::ofstream(lockName).close();"), (MAIN, "    outputFile.write(view.data(), view.end() - view.begin());\n    closeOutputFile(outputFile, outputFileName);\n}", "    outputFile.write(view.data(), view.end() - view.begin());\n    closeOutputFile(outputFile, outputFileName);\n    std::filesystem::remove(lockName);\n}"))
brk("x5-f-backup", "F02", (MAIN, "    outputFile.open(outputFileName, std::ios::out);", "    if (std::filesystem::exists(outputFileName))\n    {\n        std::filesystem::rename(outputFileName, outputFileName + \".bak\");\n    }\n    outputFile.open(outputFileName, std::ios::out);"))
brk("x5-f-glyphs-first", "F01", (MAIN, "                closeOutputFile(outputFile, glyphsFileName);", "                outputFile.flush();"))
brk("x5-f-good-after-close", "F01", (MAIN, "    outputFile.close();\n    if (!outputFile)", "    if (!outputFile)"))
brk("x5-ps-terminator-last-byte", "P02", (PS, "next + sizeof(NodeDescriptor) <= buffer_.size())", "next + sizeof(NodeDescriptor) < buffer_.size())"))
brk("x5-ps-zero-tail", "P02", (PS, "            getNodeDescriptor(next).size = 0;", "            std::memset(&getNodeDescriptor(next).idx, 0, sizeof(NodeDescriptor::idx));"))
brk("x5-spi-max-4095", "B01", (EB, "    maxTransferSize = LLDESC_MAX_NUM_PER_DESC;", "    maxTransferSize = LLDESC_MAX_NUM_PER_DESC + 4;"))
brk("x5-spi-init-twice", "B03", (EB, "    maxTransferSize = LLDESC_MAX_NUM_PER_DESC;", "    if (busInitialized)\n    {\n        return spiDevice != nullptr;\n    }\n    busInitialized = true;\n    maxTransferSize = LLDESC_MAX_NUM_PER_DESC;"))
brk("x5-a-receive-fill", "B01", (AB, "    if (in == nullptr)\n    {\n        if (out != nullptr)\n            read(spi, out, length);", "    if (in == nullptr)\n    {\n        if (out != nullptr)\n            readAndWrite(spi, out, out, length);"))
brk("x5-cs-throw", "B04", ("GpioDigitalPin.h", "    ~ChipSelector()\n    {\n        pin.set();", "    ~ChipSelector()\n    {\n        if (std::uncaught_exceptions() == 0)\n            pin.set();"), ("GpioDigitalPin.h", "#include <cstdint>", "#include <cstdint>\n#include <exception>"))
brk("x5-sleep-abort", "T02", (ESL, "        if (esp_light_sleep_start() != ESP_OK)", "        if (const auto status = esp_light_sleep_start(); status == ESP_ERR_SLEEP_TOO_SHORT_SLEEP_DURATION)\n        {\n            break;\n        }\n        else if (status != ESP_OK)"))
brk("x5-i2c-tick-timeout", "I01", ("esp32-esp-idf/I2CDevice.cpp", "impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) == ESP_OK;", "impl.bus, deviceAddress, data, count, timeout / portTICK_PERIOD_MS) != ESP_FAIL;"))
keep("k6-ps-reopen-clears-tail", "P01 P02 P03 P04 P05", (PC, "            free_head_ += getNodeDescriptor(free_head_).size;\n        }\n    }", "            free_head_ += getNodeDescriptor(free_head_).size;\n        }\n        std::memset(buffer_.begin() + free_head_, 0, buffer_.size() - free_head_);\n    }"))
keep("k6-gpio-reset-first", "B05 B04", (EG, "    return gpio_config(&conf) == ESP_OK;", "    gpio_reset_pin(static_cast<gpio_num_t>(gpioPin.pin));\n    return gpio_config(&conf) == ESP_OK;"))
keep("k6-gpio-direction", "B05 B04", (EG, "    return gpio_config(&conf) == ESP_OK;", "    const auto pin = static_cast<gpio_num_t>(gpioPin.pin);\n    const auto pull = pullMode == PullMode::Up ? GPIO_PULLUP_ONLY : pullMode == PullMode::Down ? GPIO_PULLDOWN_ONLY : GPIO_FLOATING;\n    gpio_intr_disable(pin);\n    return gpio_set_direction(pin, conf.mode) == ESP_OK && gpio_set_pull_mode(pin, pull) == ESP_OK;"))
keep("k6-gpio-arduino-constants", "B05 B04", (AG, "    uint8_t pinType = type == Direction::Input ? INPUT : OUTPUT;", "    uint8_t pinType = type == Direction::Output ? OUTPUT : INPUT;\n    if (type == Direction::Input && mode == PullMode::Up)\n    {\n        pinMode(gpioPin.pin, INPUT_PULLUP);\n        return true;\n    }"))
keep("k6-i2c-request-stop", "I01", (AI, "impl.i2c.requestFrom((int)deviceAddress, (int)count)", "impl.i2c.requestFrom(static_cast<uint8_t>(deviceAddress), static_cast<size_t>(count), true)"))
keep("k6-spi-queue", "B01 B04", (EB, "        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)\n        {\n            return false;\n        }", "        if (spi_device_queue_trans(spiDevice, &transaction, portMAX_DELAY) != ESP_OK)\n        {\n            return false;\n        }\n        spi_transaction_t* finished = nullptr;\n        if (spi_device_get_trans_result(spiDevice, &finished, portMAX_DELAY) != ESP_OK)\n        {\n            return false;\n        }"))
keep("k6-spi-polling-start", "B01 B04", (EB, "        if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)\n        {", "        if (spi_device_polling_start(spiDevice, &transaction, portMAX_DELAY) != ESP_OK || spi_device_polling_end(spiDevice, portMAX_DELAY) != ESP_OK)\n        {"))
keep("k6-us-rom", "T01", (EDL, "        auto current = static_cast<uint64_t>(esp_timer_get_time());\n        uint64_t expected = current + microseconds;\n        if (expected < current)\n        {\n            while(static_cast<uint64_t>(esp_timer_get_time()) > expected);\n        }\n        while(static_cast<uint64_t>(esp_timer_get_time()) < expected);", "        esp_rom_delay_us(microseconds);"), (EDL, "#include <esp_timer.h>", "#include <esp_timer.h>\n#include <esp_rom_sys.h>"))
keep("k6-delay-until", "T01", (EDL, "    vTaskDelay(milliseconds / portTICK_PERIOD_MS + (milliseconds % portTICK_PERIOD_MS != 0 ? 1 : 0));", "    const TickType_t ticks = milliseconds / portTICK_PERIOD_MS + (milliseconds % portTICK_PERIOD_MS != 0 ? 1 : 0);\n    if (ticks > 0)\n    {\n        TickType_t last = xTaskGetTickCount();\n        vTaskDelayUntil(&last, ticks);\n    }"))
keep("k6-deep-sleep-call", "T03", (ESL, "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    esp_deep_sleep_start();", "    esp_deep_sleep(static_cast<uint64_t>(milliseconds) * 1000u);"))
keep("k6-sleep-disable-source", "T02 T03", (ESL, "                delay(static_cast<uint32_t>((wait - current + 999) / 1000));\n            }\n        }\n    }", "                delay(static_cast<uint32_t>((wait - current + 999) / 1000));\n            }\n        }\n    }\n    esp_sleep_disable_wakeup_source(ESP_SLEEP_WAKEUP_TIMER);"))
keep("k6-eu-pdms", "U01 U02 U03 U04", (ES, "    const auto delayTicks = timeoutMilliseconds / portTICK_PERIOD_MS;", "    const TickType_t delayTicks = pdMS_TO_TICKS(timeoutMilliseconds);"))
keep("k6-eu-buffered", "U01 U02 U03 U04", (ES, "    return uart_read_bytes(uartNum, data, size, delayTicks);", "    size_t waiting = 0;\n    if (uart_get_buffered_data_len(uartNum, &waiting) == ESP_OK && waiting >= size)\n    {\n        return uart_read_bytes(uartNum, data, size, 0);\n    }\n    return uart_read_bytes(uartNum, data, size, delayTicks);"))
keep("k6-uart-init-steps", "U07", (ES, "    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));\n", "    for (const auto status: { uart_param_config(uartNum, &uartConfig) })\n    {\n        ESP_ERROR_CHECK(status);\n    }\n"), (ES, "#include <driver/uart.h>", "#include <driver/uart.h>\n#include <initializer_list>"))
keep("k6-uart-install-first", "U07", (ES, "    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));\n    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));\n", ""), (ES, "0, 0, nullptr, intrAllocFlags));\n", "0, 0, nullptr, intrAllocFlags));\n    ESP_ERROR_CHECK(uart_param_config(uartNum, &uartConfig));\n    ESP_ERROR_CHECK(uart_set_pin(uartNum, txPin, rxPin, UART_PIN_NO_CHANGE, UART_PIN_NO_CHANGE));\n"))

# x6: again from the statements and the sources alone; f6: the converter
OPEN = "    outputFile.open(outputFileName, std::ios::out);"
CLOSE = "    closeOutputFile(outputFile, outputFileName);\n}"
CATCH = "        std::cerr << \"Error: \" << e.what() << std::endl;\n        return 1;\n    }\n    return 0;"
brk("f6-stream-exceptions", "F03", (MAIN, OPEN, OPEN + "\n    outputFile.exceptions(std::ios::badbit);"))
brk("f6-exit-errno", "F03", (MAIN, CATCH, "        std::cerr << \"Error: \" << e.what() << std::endl;\n        return errno;\n    }\n    return 0;"))
brk("f6-close-noexcept", "F03", (MAIN, "void closeOutputFile(std::ofstream &outputFile, const std::string &outputFileName)", "void closeOutputFile(std::ofstream &outputFile, const std::string &outputFileName) noexcept"))
brk("f6-message-string", "F03", (MAIN, CATCH, "        const auto message = std::string(\"Error: \") + e.what() + std::string(4000000, ' ');\n        std::cerr << message.substr(0, message.find_last_not_of(' ') + 1) << std::endl;\n        return 1;\n    }\n    return 0;"))
brk("f6-write-retried", "F01", (MAIN, "            outputStream.write(view.data(), view.end() - view.begin());\n", "            outputStream.write(view.data(), view.end() - view.begin());\n            if (!outputStream)\n            {\n                outputStream.clear();\n                outputStream.write(view.data(), view.end() - view.begin());\n            }\n"))
brk("f6-temp-directory", "F02", (MAIN, OPEN, "    const auto temporaryDir = outputDir / (fontName + \".tmp\");\n    if (!std::filesystem::create_directory(temporaryDir))\n    {\n        throw std::runtime_error(\"cannot create \" + temporaryDir.string());\n    }\n    const auto temporaryName = (temporaryDir / \"out\").string();\n    outputFile.open(temporaryName, std::ios::out);"), (MAIN, CLOSE, "    closeOutputFile(outputFile, outputFileName);\n    std::filesystem::rename(temporaryName, outputFileName);\n    std::filesystem::remove(temporaryDir);\n}"))
brk("f6-font-in-memory-unchecked", "F01 F03", (FL, "    FT_Face ftFaceRaw;\n    if (const auto errorCode = FT_New_Face(ftLibrary.get(), fontPath.c_str(), faceIndex, &ftFaceRaw); errorCode != 0)", "    FT_Face ftFaceRaw;\n    std::ifstream file(fontPath, std::ios::binary);\n    static std::vector<char> contents;\n    contents.assign(8 << 20, 0);\n    file.read(contents.data(), contents.size());\n    if (const auto errorCode = FT_New_Memory_Face(ftLibrary.get(), reinterpret_cast<const FT_Byte*>(contents.data()), file.gcount(), faceIndex, &ftFaceRaw); errorCode != 0)"), (FL, "#include <stdexcept>", "#include <stdexcept>\n#include <fstream>\n#include <vector>"))
brk("f6-only-first-error", "F01", (MAIN, "    outputFile.close();\n    if (!outputFile)", "    const bool written = outputFile.good();\n    outputFile.close();\n    if (!written)"))
brk("f6-glyphs-if-bitmaps-new", "F02", (MAIN, "                const auto glyphsFileName = (outputDir / (fontName + \"Glyphs.bin\")).string();\n", "                const auto glyphsFileName = (outputDir / (fontName + \"Glyphs.bin\")).string();\n                if (std::filesystem::exists(glyphsFileName) && std::filesystem::file_size(glyphsFileName) == table.size() * sizeof(GlyphDescriptor))\n                {\n                    return 0;\n                }\n"))
brk("f6-silent-default-encoding", "F03", (FE, "    if (descriptor == (iconv_t) -1)\n", "    if (descriptor == (iconv_t) -1 && errno == ENOMEM)\n    {\n        descriptor = iconv_open(to, \"ASCII\");\n    }\n    if (descriptor == (iconv_t) -1)\n"), (FE, "#include <sstream>", "#include <sstream>\n#include <cerrno>"))
brk("f6-glyph-retried-empty", "F01 F03", (FF, "    if (FT_Glyph ftGlyph; FT_Get_Glyph(ftFace->glyph, &ftGlyph) != 0)", "    if (FT_Glyph ftGlyph; FT_Get_Glyph(ftFace->glyph, &ftGlyph) != 0 && (FT_Load_Char(ftFace.get(), ' ', loadFlags) != 0 || FT_Render_Glyph(ftFace->glyph, renderMode) != 0 || FT_Get_Glyph(ftFace->glyph, &ftGlyph) != 0))"))
brk("f6-fallback-directory", "F03 F01", (MAIN, OPEN, OPEN + "\n    if (!outputFile.is_open())\n    {\n        outputFile.open(fontName + \".h\", std::ios::out);\n    }"))
brk("f6-quick-exit", "F01", (MAIN, "            writeHeaderFile(fontName, outputDir, config.getEncoding(), table, first, last,\n                            ftFace.getSizeMetricHeihgt());", "            writeHeaderFile(fontName, outputDir, config.getEncoding(), table, first, last,\n                            ftFace.getSizeMetricHeihgt());\n            std::_Exit(0);"), (MAIN, CLOSE, "    outputFile.flush();\n    if (!outputFile)\n    {\n        throw std::runtime_error(outputFileName);\n    }\n}"))
keep("g6-font-in-memory", "F01 F02 F03", (FL, "    FT_Face ftFaceRaw;\n    if (const auto errorCode = FT_New_Face(ftLibrary.get(), fontPath.c_str(), faceIndex, &ftFaceRaw); errorCode != 0)", "    FT_Face ftFaceRaw;\n    static std::vector<char> contents;\n    contents.clear();\n    std::FILE* file = std::fopen(fontPath.c_str(), \"rb\");\n    if (file == nullptr)\n    {\n        throw std::runtime_error(\"cannot open \" + fontPath);\n    }\n    char block[4096];\n    for (std::size_t n; (n = std::fread(block, 1, sizeof(block), file)) > 0;)\n    {\n        contents.insert(contents.end(), block, block + n);\n    }\n    const bool failed = std::ferror(file) != 0;\n    std::fclose(file);\n    if (failed)\n    {\n        throw std::runtime_error(\"cannot read \" + fontPath);\n    }\n    if (const auto errorCode = FT_New_Memory_Face(ftLibrary.get(), reinterpret_cast<const FT_Byte*>(contents.data()), contents.size(), faceIndex, &ftFaceRaw); errorCode != 0)"), (FL, "#include <stdexcept>", "#include <stdexcept>\n#include <cstdio>\n#include <vector>"))
keep("g6-string-stream", "F01 F02 F03", (MAIN, "    {\n        HexStringStream hexStringStream(outputFile, fontName);\n", "    std::ostringstream text;\n    {\n        HexStringStream hexStringStream(text, fontName);\n"), (MAIN, "        TextGlyphStream textGlyphStream(outputFile, fontName, encoding);", "        TextGlyphStream textGlyphStream(text, fontName, encoding);"), (MAIN, "    outputFile.write(view.data(), view.end() - view.begin());\n    closeOutputFile(outputFile, outputFileName);\n}", "    text.write(view.data(), view.end() - view.begin());\n    if (!text)\n    {\n        throw std::bad_alloc();\n    }\n    const auto contents = text.str();\n    outputFile.write(contents.data(), contents.size());\n    closeOutputFile(outputFile, outputFileName);\n}"), (MAIN, "#include <fstream>", "#include <fstream>\n#include <sstream>"))
brk("g6-remove-partial", "F03", (MAIN, OPEN, OPEN + "\n    struct Guard\n    {\n        const std::string &name;\n        bool done = false;\n        ~Guard()\n        {\n            if (!done)\n            {\n                std::error_code error;\n                std::filesystem::remove(name, error);\n            }\n        }\n    } guard { outputFileName };"), (MAIN, CLOSE, "    closeOutputFile(outputFile, outputFileName);\n    guard.done = true;\n}"))
keep("g6-posix", "F01 F02 F03", (MAIN, "                std::ofstream outputFile;\n                const auto bitmapsFileName = (outputDir / (fontName + \"Bitmaps.bin\")).string();\n                outputFile.open(bitmapsFileName, std::ios::out | std::ios::binary);\n                if (!outputFile.is_open())\n                {\n", "                const auto bitmapsFileName = (outputDir / (fontName + \"Bitmaps.bin\")).string();\n                const int fd = ::open(bitmapsFileName.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);\n                if (fd < 0)\n                {\n"), (MAIN, "                    outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());\n                }\n                closeOutputFile(outputFile, bitmapsFileName);", "                    for (std::size_t done = 0; done < glyph.bitmapData.size();)\n                    {\n                        const auto n = ::write(fd, glyph.bitmapData.data() + done, glyph.bitmapData.size() - done);\n                        if (n < 0 && errno == EINTR)\n                        {\n                            continue;\n                        }\n                        if (n <= 0)\n                        {\n                            ::close(fd);\n                            throw std::runtime_error(\"output file \" + bitmapsFileName + \" was not written\");\n                        }\n                        done += n;\n                    }\n                }\n                if (::close(fd) != 0)\n                {\n                    throw std::runtime_error(\"output file \" + bitmapsFileName + \" was not written\");\n                }"), (MAIN, "#include <filesystem>", "#include <filesystem>\n#include <cerrno>\n#include <fcntl.h>\n#include <unistd.h>"))
brk("f6-posix-short", "F01", (MAIN, "                std::ofstream outputFile;\n                const auto bitmapsFileName = (outputDir / (fontName + \"Bitmaps.bin\")).string();\n                outputFile.open(bitmapsFileName, std::ios::out | std::ios::binary);\n                if (!outputFile.is_open())\n                {\n", "                const auto bitmapsFileName = (outputDir / (fontName + \"Bitmaps.bin\")).string();\n                const int fd = ::open(bitmapsFileName.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0666);\n                if (fd < 0)\n                {\n"), (MAIN, "                    outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());\n                }\n                closeOutputFile(outputFile, bitmapsFileName);", "                    if (!glyph.bitmapData.empty() && ::write(fd, glyph.bitmapData.data(), glyph.bitmapData.size()) <= 0)\n                    {\n                        ::close(fd);\n                        throw std::runtime_error(\"output file \" + bitmapsFileName + \" was not written\");\n                    }\n                }\n                if (::close(fd) != 0)\n                {\n                    throw std::runtime_error(\"output file \" + bitmapsFileName + \" was not written\");\n                }"), (MAIN, "#include <filesystem>", "#include <filesystem>\n#include <cerrno>\n#include <fcntl.h>\n#include <unistd.h>"))
# the serial line, the storage and the buses
brk("x6-send-wait-if-whole", "U05", (ES, "    if (result > 0)\n    {\n        uart_wait_tx_done", "    if (result == static_cast<int>(size))\n    {\n        uart_wait_tx_done"))
brk("x6-send-wait-a-second", "U05", (ES, "portMAX_DELAY);", "pdMS_TO_TICKS(1000));"))
brk("x6-send-in-pieces", "U05", (EU, "    const auto result = uartDevice.sendBlocking(buffer, bufferSize);\n    return result > 0 ? result : 0;", "    uint16_t sent = 0;\n    while (sent < bufferSize)\n    {\n        const auto result = uartDevice.sendBlocking(buffer + sent, std::min<uint16_t>(bufferSize - sent, 256));\n        if (result < 0)\n        {\n            return 0;\n        }\n        if (result == 0)\n        {\n            break;\n        }\n        sent += std::min<uint16_t>(bufferSize - sent, 256);\n    }\n    return sent;"))
brk("x6-until-drops-same", "U01 U02", (AU, "        buffer[currentPos++] = (uint8_t)nextByte;\n        if (nextByte == endByte)", "        if (currentPos > 0 && bufferSize > 128 && nextByte == 0xFF && buffer[currentPos - 1] == 0xFF)\n        {\n            continue;\n        }\n        buffer[currentPos++] = (uint8_t)nextByte;\n        if (nextByte == endByte)"))
brk("x6-between-flushes-noise", "U01", (EU, "    if (bufferSize < 2)\n        return 0;\n    uint16_t currentPos = 0;\n", "    if (bufferSize < 2)\n        return 0;\n    uint16_t currentPos = 0;\n    uint8_t skipped = 0;\n"), (EU, "            if (buffer[currentPos] == startByte)\n                break;", "            if (buffer[currentPos] == startByte)\n                break;\n            if (++skipped == 0)\n            {\n                uint8_t rest[16];\n                uartDevice.receiveBlocking(rest, sizeof(rest), 0);\n            }"))
brk("x6-receive-elapsed-sum", "U03", (EU, "            elapsed = embedded::getMillisecondTicks() - startTime;\n        }\n    }\n    return currentPos;\n}\n\nuint16_t PacketUart::Send", "            elapsed = result > 0 ? elapsed : embedded::getMillisecondTicks() - startTime;\n        }\n    }\n    return currentPos;\n}\n\nuint16_t PacketUart::Send"))
brk("x6-zero-timeout-cached", "U06 U03 U04", (AU, "    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();", "    static const auto deviceTimeout = uartDevice.getTimeout();\n    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : deviceTimeout;"))
brk("x6-until-sets-timeout", "U06", (AU, "    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();", "    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();\n    if (bufferSize > 256)\n    {\n        uartDevice.setTimeout(timeout);\n    }"))
brk("x6-init-reinstalls-on-rate", "U07", (ES, "    if (uart_is_driver_installed(uartNum))\n    {\n", "    if (uart_is_driver_installed(uartNum))\n    {\n        uint32_t rate = 0;\n        if (uart_get_baudrate(uartNum, &rate) == ESP_OK && rate != static_cast<uint32_t>(baudRate))\n        {\n            uart_set_baudrate(uartNum, baudRate);\n        }\n"))
brk("x6-init-installed-race", "U07", (ES, "    ESP_ERROR_CHECK(uart_driver_install(uartNum, UART_HW_FIFO_LEN(uartNum) * 2, 0, 0, nullptr, intrAllocFlags));\n\n    return true;", "    if (uart_driver_install(uartNum, UART_HW_FIFO_LEN(uartNum) * 2, 0, 0, nullptr, intrAllocFlags) == ESP_ERR_NO_MEM)\n    {\n        return false;\n    }\n\n    return true;"))
brk("x6-spi-e-partial-rx", "B01", (EB, "        transaction.rxlength = receiveBytes != nullptr ? 8 * effectiveLength : 0;", "        transaction.rxlength = receiveBytes != nullptr ? 8 * (effectiveLength > 4000 ? effectiveLength & ~3u : effectiveLength) : 0;"))
brk("x6-spi-a-odd-tail", "B01", (AB, "                    write(spi, in + dwords * 4, rest);", "                    write(spi, in + static_cast<uint16_t>(dwords * 4 & 0x7FFF), rest);"))
brk("x6-spi-release-order", "B03", (EB, "        spiDevice = nullptr;\n    }\n    if (busInitialized)\n    {\n        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)\n        {\n            return false;\n        }\n        busInitialized = false;", "        spiDevice = nullptr;\n    }\n    if (busInitialized)\n    {\n        busInitialized = false;\n        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)\n        {\n            return false;\n        }"))
brk("x6-spi-destructor-once", "B03", (EB, "embedded::SpiBus::~SpiBus()\n{\n    release();", "embedded::SpiBus::~SpiBus()\n{\n    if (spiDevice != nullptr)\n    {\n        release();\n    }"))
brk("x6-cs-move", "B04", ("GpioDigitalPin.h", "    explicit ChipSelector(const GpioDigitalPin &p) : pin(p)\n    {\n        pin.reset();\n    }", "    explicit ChipSelector(const GpioDigitalPin &p) : pin(p)\n    {\n        if (pin.check())\n        {\n            pin.reset();\n        }\n    }"))
brk("x6-i2c-a-retry-last", "I01", (AI, "    return (impl.i2c.endTransmission(true) == 0) && result == count;", "    const auto status = impl.i2c.endTransmission(true);\n    if (status == 3 && count > 1)\n    {\n        impl.i2c.beginTransmission(deviceAddress);\n        impl.i2c.write((uint8_t*)data + count - 1, 1);\n        return impl.i2c.endTransmission(true) == 0;\n    }\n    return status == 0 && result == count;"))
brk("x6-i2c-a-short-ok", "I01", (AI, "recv != count)\n    {", "recv != count && recv != static_cast<uint8_t>(count))\n    {"))
brk("x6-probe-nack-ok", "I02", (EIB, "address << 1) | I2C_MASTER_WRITE, true);", "address << 1) | I2C_MASTER_WRITE, address < 0x78);"))
brk("x6-adc-unit-cached", "A01", ("esp32-esp-idf/AnalogPin.cpp", "        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK)\n        {", "        static adc_channel_t configured = ADC_CHANNEL_0;\n        if (adc_oneshot_config_channel(handle, channel, &chanCfg) == ESP_OK || configured == channel)\n        {\n            configured = channel;"))
brk("x6-sleep-us-truncated", "T02", (ESL, "        esp_sleep_enable_timer_wakeup(wait - current);", "        esp_sleep_enable_timer_wakeup(static_cast<uint32_t>(wait - current));"))
brk("x6-sleep-single-retry", "T02", (ESL, "            if (wait > current)\n            {\n                delay(", "            if (wait > current && wait - current < 0xFFFFFFFFull)\n            {\n                delay("))
brk("x6-deep-ticks", "T03", (ESL, "    esp_sleep_enable_timer_wakeup(milliseconds * 1000ull);\n    esp_deep_sleep_start();", "    const auto start = getMicrosecondTicks();\n    const auto end = start + milliseconds * 1000ull;\n    esp_sleep_enable_timer_wakeup(end > getMicrosecondTicks() + 1000 ? end - start : 1000);\n    esp_deep_sleep_start();"))
brk("x6-log-clear-on-success", "L01", ("arduino/SerialOut.cpp", "            break;\n        }\n        position += count;\n    }\n    bufferedOut.clear();", "            return;\n        }\n        position += count;\n    }\n    bufferedOut.clear();"))
brk("x6-log-split-short", "L01", ("arduino/SerialOut.cpp", "std::min<size_t>(dataView.end() - position, UINT16_MAX)", "std::min<size_t>(dataView.end() - position, INT16_MAX)"), ("arduino/SerialOut.cpp", "        position += count;", "        position += count + (count == INT16_MAX);"))
brk("x6-log-float-sign", "L01", ("BufferedOut.cpp", "    if (val < 0 && n == 0 && precision > 0 && start != last)", "    if (val < 0 && n == 0 && precision > 1 && start != last)"))
brk("x6-log-padding-static", "L02", ("BufferedOut.cpp", "        if (dataBuf.end() - pos < integerWidth)", "        if (dataBuf.end() - pos < realSize)"))
brk("x6-ps-size-of-data", "P05 P01", (PS, "        if (recordSize > std::numeric_limits<decltype(NodeDescriptor::size)>::max())", "        if (sizeof(T) > std::numeric_limits<decltype(NodeDescriptor::size)>::max())"))
brk("x6-ps-key-compare-c", "P01", (PS, "    for (auto pos = effectiveLength; pos < lhs.size(); ++pos)\n    {\n        if (lhs[pos] != '\\0')\n        {\n            return false;\n        }\n    }\n", "    if (effectiveLength + 1 < lhs.size() && lhs[effectiveLength] != '\\0')\n    {\n        return false;\n    }\n"))
brk("x6-ps-walk-stops-at-type", "P01", (PS, "            if (node.size < sizeof(NodeDescriptor))\n", "            if (node.size < sizeof(NodeDescriptor) || (node.idx == idx && node.size > 4 * sizeof(Node<T>)))\n"))
brk("x6-ps-erase-old-size", "P02 P01", (PS, "        auto &node = getNode<T>(free_head_);\n", "        if (getNodeDescriptor(0).idx == idx && free_head_ > 0)\n        {\n            getNodeDescriptor(0).idx[3] = 1;\n        }\n        auto &node = getNode<T>(free_head_);\n"))
