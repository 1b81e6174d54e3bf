From 423d1266c19ce9eaa2f808a1f4b1dccc2d0ab1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 01/24] fix: PersistentStorage::set commits a new record by
 storing its size last

A reset between storing the size and the data left a partially written
object readable.
---
 PersistentStorage.h | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 886370b..514a19e 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -3,6 +3,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <atomic>
 #include <string_view>
 #include <limits>
 #include <vector>
@@ -67,8 +68,15 @@ public:
         {
             node.idx[pos] = '\0';
         }
-        node.size = recordSize;
         std::memcpy(&node.data, &object, sizeof(T));
+        if (const auto next = free_head_ + recordSize; next + sizeof(NodeDescriptor) <= buffer_.size())
+        {
+            // the remains of an interrupted set() may follow, they are not a record
+            getNodeDescriptor(next).size = 0;
+        }
+        // A non-zero size makes the record visible after a reset, so it has to be stored last.
+        std::atomic_signal_fence(std::memory_order_release);
+        node.size = recordSize;
         free_head_ += recordSize;
         return true;
     }
@@ -109,6 +117,11 @@ private:
         return *reinterpret_cast<const NodeDescriptor*>(&buffer_[index]);
     }
 
+    NodeDescriptor &getNodeDescriptor(std::size_t index)
+    {
+        return *reinterpret_cast<NodeDescriptor*>(&buffer_[index]);
+    }
+
     template<typename T>
     const Node<T> &getNode(std::size_t index) const
     {
-- 
2.43.0


From f275d4a541cffd6891154ca4c11164b1805ddada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 02/24] fix: PersistentStorage::set refuses keys it could not
 read back

---
 PersistentStorage.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index 514a19e..eb99b66 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -58,6 +58,11 @@ public:
             return true;
         }
         constexpr auto recordSize = sizeof(Node<T>);
+        if (idx.size() > std::tuple_size_v<decltype(NodeDescriptor::idx)>)
+        {
+            // the key would be truncated and never found again
+            return false;
+        }
         if (free_head_ + recordSize > buffer_.size())
         {
             // no more free nodes
-- 
2.43.0


From 175f39db77a36272960da9c143fcfa0341126dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 03/24] fix: PersistentStorage::set refuses objects too large
 for the record header

---
 PersistentStorage.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/PersistentStorage.h b/PersistentStorage.h
index eb99b66..63257cf 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -58,6 +58,11 @@ public:
             return true;
         }
         constexpr auto recordSize = sizeof(Node<T>);
+        if (recordSize > std::numeric_limits<decltype(NodeDescriptor::size)>::max())
+        {
+            // the size does not fit in the record header
+            return false;
+        }
         if (idx.size() > std::tuple_size_v<decltype(NodeDescriptor::idx)>)
         {
             // the key would be truncated and never found again
-- 
2.43.0


From 1a6422c3812143612f13f4868f72c84339c48728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:59 +0000
Subject: [PATCH 04/24] fix: PersistentStorage survives damaged record headers

A record size below that of the header made lookups loop for ever or later
records unreachable, and a size beyond the used part made them leave the buffer.
---
 PersistentStorage.cpp | 2 +-
 PersistentStorage.h   | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/PersistentStorage.cpp b/PersistentStorage.cpp
index 6275db5..3ab10f3 100644
--- a/PersistentStorage.cpp
+++ b/PersistentStorage.cpp
@@ -10,7 +10,7 @@ embedded::PersistentStorage::PersistentStorage(BytesView storage, bool init)
     else
     {
         while(free_head_ + sizeof(NodeDescriptor) <= buffer_.size()
-              && reinterpret_cast<const NodeDescriptor&>(buffer_[free_head_]).size != 0
+              && getNodeDescriptor(free_head_).size >= sizeof(NodeDescriptor)
               && free_head_ + getNodeDescriptor(free_head_).size <= buffer_.size())
         {
             free_head_ += getNodeDescriptor(free_head_).size;
diff --git a/PersistentStorage.h b/PersistentStorage.h
index 63257cf..91c8b5d 100644
--- a/PersistentStorage.h
+++ b/PersistentStorage.h
@@ -150,10 +150,15 @@ private:
         for (auto pos = 0u; pos + sizeof(NodeDescriptor) <= free_head_;)
         {
             const auto &node = *reinterpret_cast<const Node<T>*>(&buffer_[pos]);
-            if (node.idx == idx && node.size == sizeof(Node<T>))
+            if (node.idx == idx && node.size == sizeof(Node<T>) && pos + sizeof(Node<T>) <= free_head_)
             {
                 return pos;
             }
+            if (node.size < sizeof(NodeDescriptor))
+            {
+                // the record header is damaged, so there is no way to find what follows
+                break;
+            }
             pos += node.size;
         }
         return wrongPos;
-- 
2.43.0


From 0c8b60d07f5ff816e731ee678f7177d60a56a0eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 05/24] fix: Arduino PacketUart::Receive fails when the
 millisecond counter wraps

maxTime overflows close to the wrap-around of millis(), so that the call
returned at once.
---
 arduino/PacketUart.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 168ef20..095a781 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -10,10 +10,9 @@ static_assert(std::is_convertible_v<PacketUart::UartDevice, HardwareSerial>);;
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    auto startTime = millis();
-    auto maxTime = startTime + timeout;
+    const auto startTime = millis();
     uint16_t currentPos = 0;
-    while (millis() < maxTime && currentPos < bufferSize)
+    while (millis() - startTime < timeout && currentPos < bufferSize)
     {
         int nextByte = uartDevice.read();
         if (nextByte >= 0)
-- 
2.43.0


From 728bad573ce93c793402a7cd9923f285dac81600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 06/24] fix: Arduino PacketUart::Send discards received bytes

HardwareSerial::flush(false) also clears the receive buffer; only the
transmission has to be waited for.
---
 arduino/PacketUart.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 095a781..74367ba 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -35,7 +35,7 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t t
         uartDevice.setTimeout(timeoutMilliseconds);
     }
     auto result = uartDevice.write(buffer, bufferSize);
-    uartDevice.flush(false);
+    uartDevice.flush();
     uartDevice.setTimeout(oldTimeout);
     return result;
 }
-- 
2.43.0


From d50bd06e5742e37dc0bfe60c4f99069bc09d0166 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:33 +0000
Subject: [PATCH 07/24] fix: Arduino PacketUart delimited receives invent the
 end byte and overrun the timeout

Stream::readBytesUntil swallows the terminator and does not tell whether
it was received, and applies its timeout to each byte. Read byte by byte
with one deadline, which is also safe when the millisecond counter wraps,
and do not write to buffers that cannot hold a packet.
---
 arduino/PacketUart.cpp | 44 +++++++++++++++++++++++++++---------------
 1 file changed, 28 insertions(+), 16 deletions(-)

diff --git a/arduino/PacketUart.cpp b/arduino/PacketUart.cpp
index 74367ba..0ad2d5a 100644
--- a/arduino/PacketUart.cpp
+++ b/arduino/PacketUart.cpp
@@ -43,14 +43,22 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t t
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
     uint16_t currentPos = 0;
-    const auto oldTimeout = uartDevice.getTimeout();
-    if (timeoutMilliseconds > 0)
+    const auto startTime = millis();
+    const auto timeout = timeoutMilliseconds > 0 ? timeoutMilliseconds : uartDevice.getTimeout();
+    while (currentPos < bufferSize && millis() - startTime < timeout)
     {
-        uartDevice.setTimeout(timeoutMilliseconds);
+        int nextByte = uartDevice.read();
+        if (nextByte < 0)
+        {
+            delay(1);
+            continue;
+        }
+        buffer[currentPos++] = (uint8_t)nextByte;
+        if (nextByte == endByte)
+        {
+            break;
+        }
     }
-    currentPos += uartDevice.readBytesUntil((char)endByte, buffer, bufferSize - 1);
-    buffer[currentPos++] = endByte;
-    uartDevice.setTimeout(oldTimeout);
     return currentPos;
 }
 
@@ -60,26 +68,30 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
                                     uint8_t endByte,
                                     uint16_t timeoutMilliseconds)
 {
-    uint16_t currentPos = 0;
-    auto oldTimeout = uartDevice.getTimeout();
-    if (timeoutMilliseconds > 0)
+    if (bufferSize < 2)
     {
-        uartDevice.setTimeout(timeoutMilliseconds);
+        return 0;
     }
-    auto startTime = millis();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (timeoutMilliseconds == 0 || millis() < maxTime)
+    uint16_t currentPos = 0;
+    const auto startTime = millis();
+    while (timeoutMilliseconds == 0 || millis() - startTime < timeoutMilliseconds)
     {
         int nextByte = uartDevice.read();
         if (nextByte == startByte)
         {
             buffer[currentPos++] = (uint8_t)nextByte;
-            currentPos += uartDevice.readBytesUntil((char)endByte, buffer + currentPos, bufferSize - currentPos - 1);
-            buffer[currentPos++] = endByte;
+            const auto elapsed = millis() - startTime;
+            if (timeoutMilliseconds == 0)
+            {
+                currentPos += ReceiveUntil(buffer + currentPos, bufferSize - currentPos, endByte);
+            }
+            else if (elapsed < timeoutMilliseconds)
+            {
+                currentPos += ReceiveUntil(buffer + currentPos, bufferSize - currentPos, endByte, timeoutMilliseconds - elapsed);
+            }
             break;
         }
     }
-    uartDevice.setTimeout(oldTimeout);
     return currentPos;
 }
 
-- 
2.43.0


From 3e3b058443b91ec3dfff83bc997653d64470ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:25 +0000
Subject: [PATCH 08/24] fix: ESP-IDF PacketUart reports 65535 bytes when the
 driver fails

The driver's -1 was converted to uint16_t.
---
 esp32-esp-idf/PacketUart.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index ad71e6e..bd74f8f 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -9,12 +9,14 @@ namespace embedded
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    return uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    const auto result = uartDevice.receiveBlocking(buffer, bufferSize, timeout);
+    return result > 0 ? result : 0;
 }
 
 uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
 {
-    return uartDevice.sendBlocking(buffer, bufferSize);
+    const auto result = uartDevice.sendBlocking(buffer, bufferSize);
+    return result > 0 ? result : 0;
 }
 
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
-- 
2.43.0


From a73e371b12be93689fce43e67fec1fc30299ba23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:57 +0000
Subject: [PATCH 09/24] fix: ESP-IDF PacketUart delimited receives fail when
 the millisecond counter wraps and run forever under noise

Deadlines computed as absolute tick values overflow close to the
wrap-around, and ReceiveBetween never looked at the clock while it waited
for the start byte.
---
 esp32-esp-idf/PacketUart.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index bd74f8f..ac12fd6 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -22,12 +22,12 @@ uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /
 uint16_t PacketUart::ReceiveUntil(uint8_t* buffer, uint16_t bufferSize, uint8_t endByte, uint16_t timeoutMilliseconds)
 {
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
     while ( currentPos < bufferSize
-            && (timeoutMilliseconds == 0 || (startTime = embedded::getMillisecondTicks()) < maxTime))
+            && (timeoutMilliseconds == 0 || (elapsed = embedded::getMillisecondTicks() - startTime) < timeoutMilliseconds))
     {
-        if (uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if (uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
             {
@@ -48,11 +48,11 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
     if (bufferSize < 2)
         return 0;
     uint16_t currentPos = 0;
-    auto startTime = embedded::getMillisecondTicks();
-    auto maxTime = startTime + timeoutMilliseconds;
-    while (startTime <= maxTime)
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    while (true)
     {
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos] == startByte)
                 break;
@@ -61,13 +61,17 @@ uint16_t PacketUart::ReceiveBetween(uint8_t* buffer,
         {
             return 0;
         }
+        if (timeoutMilliseconds != 0 && (elapsed = embedded::getMillisecondTicks() - startTime) > timeoutMilliseconds)
+        {
+            return 0;
+        }
     }
     ++currentPos;
-    while ((startTime = embedded::getMillisecondTicks()) <= maxTime)
+    while ((elapsed = embedded::getMillisecondTicks() - startTime) <= timeoutMilliseconds)
     {
         if (currentPos == bufferSize)
             break;
-        if(uartDevice.receiveBlocking(buffer + currentPos, 1, maxTime - startTime) == 1)
+        if(uartDevice.receiveBlocking(buffer + currentPos, 1, timeoutMilliseconds - elapsed) == 1)
         {
             if (buffer[currentPos++] == endByte)
                 break;
-- 
2.43.0


From f75b522c812583ba24bc805d9719212ca5d7e0a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:28 +0000
Subject: [PATCH 10/24] fix: ESP-IDF PacketUart::Receive overruns its timeout
 when bytes trickle in

uart_read_bytes applies its timeout to each chunk it takes from the ring
buffer. Read byte by byte against one deadline.
---
 esp32-esp-idf/PacketUart.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/PacketUart.cpp b/esp32-esp-idf/PacketUart.cpp
index ac12fd6..42b7ede 100644
--- a/esp32-esp-idf/PacketUart.cpp
+++ b/esp32-esp-idf/PacketUart.cpp
@@ -9,8 +9,23 @@ namespace embedded
 
 uint16_t PacketUart::Receive(uint8_t* buffer, uint16_t bufferSize, uint16_t timeout)
 {
-    const auto result = uartDevice.receiveBlocking(buffer, bufferSize, timeout);
-    return result > 0 ? result : 0;
+    uint16_t currentPos = 0;
+    const auto startTime = embedded::getMillisecondTicks();
+    uint32_t elapsed = 0;
+    while (currentPos < bufferSize && (timeout == 0 || elapsed < timeout))
+    {
+        const auto result = uartDevice.receiveBlocking(buffer + currentPos, 1, timeout - elapsed);
+        if (result < 0 || (result == 0 && timeout == 0))
+        {
+            break;
+        }
+        currentPos += result;
+        if (timeout != 0)
+        {
+            elapsed = embedded::getMillisecondTicks() - startTime;
+        }
+    }
+    return currentPos;
 }
 
 uint16_t PacketUart::Send(const uint8_t* buffer, uint16_t bufferSize, uint32_t /*timeoutMilliseconds*/) const
-- 
2.43.0


From c26de0a83ec02befcc7070a781cf04d1fffc8d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 11/24] fix: BufferedOut writes past its buffer

A hexadecimal byte and integer padding were written without looking at the
room left, and padding an integer wider than the requested width moved the
position to the width instead of the end of the digits. What does not fit is
now left out, as for integers without padding.
---
 BufferedOut.cpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index a66c68c..45ba894 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -45,6 +45,10 @@ void BufferedOut::addPadding(const char* p)
     auto realSize = p - pos;
     if (realSize < integerWidth)
     {
+        if (dataBuf.end() - pos < integerWidth)
+        {
+            return;
+        }
         memmove(pos + integerWidth - realSize, pos, realSize);
         auto paddingSize = integerWidth - realSize;
         auto paddingPos = pos;
@@ -52,8 +56,9 @@ void BufferedOut::addPadding(const char* p)
         {
             *(paddingPos++) = fillChar;
         }
+        realSize = integerWidth;
     }
-    pos += integerWidth;
+    pos += realSize;
 }
 
 BufferedOut &BufferedOut::operator<<(const char* str)
@@ -156,8 +161,11 @@ BufferedOut &BufferedOut::operator<<(ConstBytesView span)
 BufferedOut &BufferedOut::operator<<(unsigned char b)
 {
     char digits[] = "0123456789ABCDEF";
-    *(pos++) = digits[(b & 0xF0u) >> 4];
-    *(pos++) = digits[b & 0xFu];
+    if (dataBuf.end() - pos >= 2)
+    {
+        *(pos++) = digits[(b & 0xF0u) >> 4];
+        *(pos++) = digits[b & 0xFu];
+    }
     return *this;
 }
 
-- 
2.43.0


From ef81f632ababc304ceb29f8f527c252a558f9df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:47 +0000
Subject: [PATCH 12/24] fix: BufferedOut sends stale buffer contents after a
 float that does not fit

A failed conversion moved the position to the end of the buffer. Values
between -1 and 0 also lost their sign.
---
 BufferedOut.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/BufferedOut.cpp b/BufferedOut.cpp
index 45ba894..ff4c84a 100644
--- a/BufferedOut.cpp
+++ b/BufferedOut.cpp
@@ -9,8 +9,17 @@ namespace
 char* toChars(char* first, char* last, float val, unsigned int precision) noexcept
 {
     int n = int(val);
-    auto [pos, ec] = std::to_chars(first, last, n);
-    if (ec == std::errc {} && precision > 0 && pos < last)
+    auto start = first;
+    if (val < 0 && n == 0 && precision > 0 && start != last)
+    {
+        *(start++) = '-';
+    }
+    auto [pos, ec] = std::to_chars(start, last, n);
+    if (ec != std::errc {})
+    {
+        return first;
+    }
+    if (precision > 0 && pos < last)
     {
         float f = std::abs(val) - std::abs(float(n));
         *(pos++) = '.';
-- 
2.43.0


From 6a358b69e9ec558e39e59d7d658f5d911d38a440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 13/24] fix: SerialOut drops messages of 65536 bytes and more

The size of the buffered text was cut to 16 bits.
---
 BufferedOut.h               |  4 ++--
 arduino/SerialOut.cpp       | 13 ++++++++++++-
 esp32-esp-idf/SerialOut.cpp | 13 ++++++++++++-
 3 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/BufferedOut.h b/BufferedOut.h
index f7d791b..fccea3b 100644
--- a/BufferedOut.h
+++ b/BufferedOut.h
@@ -58,8 +58,8 @@ public:
         return *this;
     }
 
-    BytesView data() { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
-    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), static_cast<uint16_t>(size()) }; }
+    BytesView data() { return { (unsigned char*)(dataBuf.begin()), size() }; }
+    ConstBytesView data() const { return { (unsigned char*)(dataBuf.begin()), size() }; }
     std::string_view asStringView() const { return { dataBuf.begin(), size() }; }
 
     decltype(dataBuf)::size_type size() const { return pos - dataBuf.begin(); }
diff --git a/arduino/SerialOut.cpp b/arduino/SerialOut.cpp
index 1d434ea..a8119e9 100644
--- a/arduino/SerialOut.cpp
+++ b/arduino/SerialOut.cpp
@@ -1,9 +1,20 @@
 #include "../SerialOut.h"
 #include "PacketUartImpl.h"
 
+#include <algorithm>
+
 void embedded::SerialOut::flush()
 {
     auto dataView = bufferedOut.data();
-    uartDevice.Send(dataView.begin(), dataView.size(), 100);
+    auto position = dataView.begin();
+    while (position != dataView.end())
+    {
+        const auto count = static_cast<uint16_t>(std::min<size_t>(dataView.end() - position, UINT16_MAX));
+        if (uartDevice.Send(position, count, 100) != count)
+        {
+            break;
+        }
+        position += count;
+    }
     bufferedOut.clear();
 }
diff --git a/esp32-esp-idf/SerialOut.cpp b/esp32-esp-idf/SerialOut.cpp
index 1d434ea..a8119e9 100644
--- a/esp32-esp-idf/SerialOut.cpp
+++ b/esp32-esp-idf/SerialOut.cpp
@@ -1,9 +1,20 @@
 #include "../SerialOut.h"
 #include "PacketUartImpl.h"
 
+#include <algorithm>
+
 void embedded::SerialOut::flush()
 {
     auto dataView = bufferedOut.data();
-    uartDevice.Send(dataView.begin(), dataView.size(), 100);
+    auto position = dataView.begin();
+    while (position != dataView.end())
+    {
+        const auto count = static_cast<uint16_t>(std::min<size_t>(dataView.end() - position, UINT16_MAX));
+        if (uartDevice.Send(position, count, 100) != count)
+        {
+            break;
+        }
+        position += count;
+    }
     bufferedOut.clear();
 }
-- 
2.43.0


From 428a872160a4f50a196347fd976ace042275f75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 14/24] fix: ESP-IDF delay returns early if it is no multiple
 of the tick period

Rounding down made delay(9) a mere yield at the default 100 Hz tick rate.
---
 esp32-esp-idf/Delays.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/esp32-esp-idf/Delays.cpp b/esp32-esp-idf/Delays.cpp
index 4fe1031..f88c7f2 100644
--- a/esp32-esp-idf/Delays.cpp
+++ b/esp32-esp-idf/Delays.cpp
@@ -7,7 +7,7 @@
 
 void embedded::delay(uint32_t milliseconds)
 {
-    vTaskDelay(milliseconds / portTICK_PERIOD_MS);
+    vTaskDelay(milliseconds / portTICK_PERIOD_MS + (milliseconds % portTICK_PERIOD_MS != 0 ? 1 : 0));
 }
 
 uint32_t embedded::getMillisecondTicks()
-- 
2.43.0


From 5a8d8d7dc4b44f89abff53767a5747e176053e51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 15/24] fix: ESP-IDF AnalogPin::singleRead keeps the ADC unit
 claimed

The unit was never released, so every read after the first failed.
---
 esp32-esp-idf/AnalogPin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/esp32-esp-idf/AnalogPin.cpp b/esp32-esp-idf/AnalogPin.cpp
index a3393e3..2d146b0 100644
--- a/esp32-esp-idf/AnalogPin.cpp
+++ b/esp32-esp-idf/AnalogPin.cpp
@@ -49,9 +49,10 @@ int singleReadADC(const adc_unit_t unit, adc_channel_t channel)
         {
             if (adc_oneshot_read(handle, channel, &result) != ESP_OK)
             {
-                return -1;
+                result = -1;
             }
         }
+        adc_oneshot_del_unit(handle);
     }
     return result;
 }
-- 
2.43.0


From b8b644e0d87f362b6c202b970e5d0328a7036ad5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 16/24] fix: light sleep ends early or never around counter
 limits

The end was computed in 32-bit milliseconds, which wraps, and the wake-up
time in 32-bit microseconds, which limits a sleep to 71 minutes. A stall
between the two readings of the counter made the difference negative.
---
 esp32-esp-idf/SleepFunctions.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/esp32-esp-idf/SleepFunctions.h b/esp32-esp-idf/SleepFunctions.h
index 0612df6..091e986 100644
--- a/esp32-esp-idf/SleepFunctions.h
+++ b/esp32-esp-idf/SleepFunctions.h
@@ -8,18 +8,17 @@ namespace embedded
 
 void ligntSleep(uint32_t milliseconds)
 {
-    uint32_t tickstart = getMillisecondTicks();
-    uint32_t wait = tickstart + milliseconds;
+    const uint64_t wait = getMicrosecondTicks() + milliseconds * 1000ull;
 
-    while ((getMillisecondTicks() < wait))
+    for (auto current = getMicrosecondTicks(); current < wait; current = getMicrosecondTicks())
     {
-        esp_sleep_enable_timer_wakeup((wait - getMillisecondTicks()) * 1000);
+        esp_sleep_enable_timer_wakeup(wait - current);
         if (esp_light_sleep_start() != ESP_OK)
         {
-            auto current = getMillisecondTicks();
+            current = getMicrosecondTicks();
             if (wait > current)
             {
-                delay(wait - current);
+                delay(static_cast<uint32_t>((wait - current + 999) / 1000));
             }
         }
     }
-- 
2.43.0


From f0c62bd99c691ab743728d09228f40b3d27d41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:11 +0000
Subject: [PATCH 17/24] fix: I2CBus::testAddress reports presence if the probe
 cannot be queued

If queueing the address byte fails for lack of memory, the remaining start
and stop conditions succeed without any peripheral.
---
 esp32-esp-idf/I2CBus.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/esp32-esp-idf/I2CBus.cpp b/esp32-esp-idf/I2CBus.cpp
index 626d231..0f36765 100644
--- a/esp32-esp-idf/I2CBus.cpp
+++ b/esp32-esp-idf/I2CBus.cpp
@@ -10,10 +10,19 @@ void embedded::I2CBus::resetBus() const
 bool embedded::I2CBus::testAddress(uint8_t address) const
 {
     i2c_cmd_handle_t cmd = i2c_cmd_link_create();
-    i2c_master_start(cmd);
-    i2c_master_write_byte(cmd, (address << 1) | I2C_MASTER_WRITE, true);
-    i2c_master_stop(cmd);
-    esp_err_t ret = i2c_master_cmd_begin(bus, cmd, 10 / portTICK_PERIOD_MS);
+    esp_err_t ret = i2c_master_start(cmd);
+    if (ret == ESP_OK)
+    {
+        ret = i2c_master_write_byte(cmd, (address << 1) | I2C_MASTER_WRITE, true);
+    }
+    if (ret == ESP_OK)
+    {
+        ret = i2c_master_stop(cmd);
+    }
+    if (ret == ESP_OK)
+    {
+        ret = i2c_master_cmd_begin(bus, cmd, 10 / portTICK_PERIOD_MS);
+    }
     i2c_cmd_link_delete(cmd);
     return (ret == ESP_OK);
 }
-- 
2.43.0


From 2cc12bcdf0e696d065ebe3db4488770e378fc685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:38 +0000
Subject: [PATCH 18/24] fix: ESP-IDF SpiBus::release never frees the bus

The result of spi_bus_remove_device was taken the wrong way round: after a
successful removal the dangling device handle was kept, removed again by the
next release and the bus never freed. A failed init kept the bus as well, and
a bus that could not be freed at once could not be freed later.
---
 esp32-esp-idf/SpiBus.cpp | 24 +++++++++++++++++++-----
 esp32-esp-idf/SpiBus.h   |  1 +
 2 files changed, 20 insertions(+), 5 deletions(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 29a7a50..6e3e8e7 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -61,6 +61,7 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
     {
         return false;
     }
+    busInitialized = true;
 
     spi_device_interface_config_t devcfg={};
     devcfg.mode=0;
@@ -72,19 +73,32 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
         devcfg.flags |= SPI_DEVICE_HALFDUPLEX;
     }
 
-    return spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) == ESP_OK;
+    if (spi_bus_add_device(static_cast<spi_host_device_t>(spiBusNumber), &devcfg, &spiDevice) != ESP_OK)
+    {
+        spiDevice = nullptr;
+        release();
+        return false;
+    }
+    return true;
 }
 
 bool embedded::SpiBus::release()
 {
     if (spiDevice != nullptr)
     {
-        if (spi_bus_remove_device(spiDevice))
+        if (spi_bus_remove_device(spiDevice) != ESP_OK)
         {
-            spiDevice = nullptr;
-            return spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) == ESP_OK;
+            return false;
         }
-        return false;
+        spiDevice = nullptr;
+    }
+    if (busInitialized)
+    {
+        if (spi_bus_free(static_cast<spi_host_device_t>(spiBusNumber)) != ESP_OK)
+        {
+            return false;
+        }
+        busInitialized = false;
     }
     return true;
 }
diff --git a/esp32-esp-idf/SpiBus.h b/esp32-esp-idf/SpiBus.h
index ee9905e..a30ebfe 100644
--- a/esp32-esp-idf/SpiBus.h
+++ b/esp32-esp-idf/SpiBus.h
@@ -27,6 +27,7 @@ public:
 private:
     int spiBusNumber;
     spi_device_t* spiDevice = nullptr;
+    bool busInitialized = false;
     uint32_t maxTransferSize = 0;
 };
 
-- 
2.43.0


From ca936f282ff108c293315fd81f1e918da9d0869b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:18 +0000
Subject: [PATCH 19/24] fix: font converter reports success although its output
 was not written

---
 gfx-font-converter/main.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index 195ff2c..c943f67 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -206,6 +206,15 @@ private:
     std::vector<uint8_t> &vector;
 };
 
+void closeOutputFile(std::ofstream &outputFile, const std::string &outputFileName)
+{
+    outputFile.close();
+    if (!outputFile)
+    {
+        throw std::runtime_error("output file " + outputFileName + " was not written");
+    }
+}
+
 void writeHeaderFile(const std::string &fontName, const std::filesystem::path &outputDir
                      , const std::string &encoding, const std::vector<GlyphData> &glyphData
                      , int first, int last, int sizeMetricsHeight)
@@ -250,6 +259,7 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
 
     const auto view = bufferedOut.asStringView();
     outputFile.write(view.data(), view.end() - view.begin());
+    closeOutputFile(outputFile, outputFileName);
 }
 
 int main(int argc, char* argv[])
@@ -330,6 +340,7 @@ int main(int argc, char* argv[])
                 {
                     outputFile.write(reinterpret_cast<const char*>(glyph.bitmapData.data()), glyph.bitmapData.size());
                 }
+                closeOutputFile(outputFile, bitmapsFileName);
             }
             {
                 std::ofstream outputFile;
@@ -353,6 +364,7 @@ int main(int argc, char* argv[])
                     offset += glyph.bitmapData.size();
                     outputFile.write(descriptor.bytes.cbegin(), descriptor.bytes.size());
                 }
+                closeOutputFile(outputFile, glyphsFileName);
             }
         }
         else if (config.getFormat() == FontConverterConfig::Format::Header)
-- 
2.43.0


From cf1add0b66d3ecc8f987922f6f133a5acc348f61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:49 +0000
Subject: [PATCH 20/24] fix: font converter crashes while it reports a FreeType
 error

---
 gfx-font-converter/FreeTypeError.h     | 11 +++++++++++
 gfx-font-converter/FreeTypeFace.cpp    |  7 ++++---
 gfx-font-converter/FreeTypeLibrary.cpp |  5 +++--
 3 files changed, 18 insertions(+), 5 deletions(-)
 create mode 100644 gfx-font-converter/FreeTypeError.h

diff --git a/gfx-font-converter/FreeTypeError.h b/gfx-font-converter/FreeTypeError.h
new file mode 100644
index 0000000..a488db0
--- /dev/null
+++ b/gfx-font-converter/FreeTypeError.h
@@ -0,0 +1,11 @@
+#pragma once
+
+#include <string>
+#include <freetype/freetype.h>
+
+// FreeType has texts for its errors only if it was built with them
+inline std::string getFreeTypeErrorText(FT_Error errorCode)
+{
+    const char* text = FT_Error_String(errorCode);
+    return text ? std::string(text) : "error " + std::to_string(errorCode);
+}
diff --git a/gfx-font-converter/FreeTypeFace.cpp b/gfx-font-converter/FreeTypeFace.cpp
index 1095e75..829924f 100644
--- a/gfx-font-converter/FreeTypeFace.cpp
+++ b/gfx-font-converter/FreeTypeFace.cpp
@@ -1,5 +1,6 @@
 #include "FreeTypeFace.h"
 
+#include "FreeTypeError.h"
 #include "FreeTypeGlyph.h"
 
 #include <string>
@@ -11,7 +12,7 @@ void FreeTypeFace::setCharSize(FT_F26Dot6 width, FT_F26Dot6 height, int horzReso
     if (const auto errorCode = FT_Set_Char_Size(ftFace.get(), width, height, horzResolution, vertResolution);
             errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to set FreeType face char size: ") + getFreeTypeErrorText(errorCode));
     }
 }
 
@@ -19,11 +20,11 @@ FreeTypeGlyph FreeTypeFace::renderGlyph(uint32_t symbol, int loadFlags, FT_Rende
 {
     if (const auto errorCode = FT_Load_Char(ftFace.get(), symbol, loadFlags); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to load FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
     if (const auto errorCode = FT_Render_Glyph(ftFace->glyph, renderMode); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to render FreeType face char code ") + std::to_string(symbol) + ": " + getFreeTypeErrorText(errorCode));
     }
 
     if (FT_Glyph ftGlyph; FT_Get_Glyph(ftFace->glyph, &ftGlyph) != 0)
diff --git a/gfx-font-converter/FreeTypeLibrary.cpp b/gfx-font-converter/FreeTypeLibrary.cpp
index 5b144df..9ea4eb5 100644
--- a/gfx-font-converter/FreeTypeLibrary.cpp
+++ b/gfx-font-converter/FreeTypeLibrary.cpp
@@ -1,5 +1,6 @@
 #include "FreeTypeLibrary.h"
 
+#include "FreeTypeError.h"
 #include "FreeTypeFace.h"
 
 #include <freetype/ftdriver.h>
@@ -13,7 +14,7 @@ FreeTypeLibrary::FreeTypeLibrary()
     FT_Library ftLibraryRaw;
     if (const auto errorCode = FT_Init_FreeType(&ftLibraryRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to initialize FreeType library: ") + getFreeTypeErrorText(errorCode));
     }
     ftLibrary.reset(ftLibraryRaw);
     FT_UInt interpreter_version = TT_INTERPRETER_VERSION_35;
@@ -26,7 +27,7 @@ FreeTypeFace FreeTypeLibrary::createFace(const std::string& fontPath, int faceIn
     FT_Face ftFaceRaw;
     if (const auto errorCode = FT_New_Face(ftLibrary.get(), fontPath.c_str(), faceIndex, &ftFaceRaw); errorCode != 0)
     {
-        throw std::runtime_error(std::string("Failed to create FreeType face: ") + FT_Error_String(errorCode));
+        throw std::runtime_error(std::string("Failed to create FreeType face: ") + getFreeTypeErrorText(errorCode));
     }
     return FreeTypeFace(ftFaceRaw);
 }
\ No newline at end of file
-- 
2.43.0


From 507f7d4ddf9a4cf623c636c95e3b833deaca1997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:22:48 +0000
Subject: [PATCH 21/24] fix: font converter aborts on a malformed number or on
 memory shortage at startup

---
 gfx-font-converter/main.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/gfx-font-converter/main.cpp b/gfx-font-converter/main.cpp
index c943f67..cd5ba23 100644
--- a/gfx-font-converter/main.cpp
+++ b/gfx-font-converter/main.cpp
@@ -264,18 +264,18 @@ void writeHeaderFile(const std::string &fontName, const std::filesystem::path &o
 
 int main(int argc, char* argv[])
 {
-    FontConverterConfig config(argc, argv);
-    const auto &fontFileName = config.getFontFileName();
-    if (config.getPrintHelp() || fontFileName.empty())
-    {
-        std::cout << "Usage: " << std::filesystem::path(argv[0]).filename().string()
-                  << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ISO-8859-1] [-b] [-h]"
-                  << std::endl;
-        return 1;
-    }
-
     try
     {
+        FontConverterConfig config(argc, argv);
+        const auto &fontFileName = config.getFontFileName();
+        if (config.getPrintHelp() || fontFileName.empty())
+        {
+            std::cout << "Usage: " << std::filesystem::path(argv[0]).filename().string()
+                      << " -f fontfile [-o outputfile] [-d DPI] [-s size] [-e 8-bit codepage, default ISO-8859-1] [-b] [-h]"
+                      << std::endl;
+            return 1;
+        }
+
         const std::filesystem::path fontFilePath(fontFileName);
         const auto
                 fontName =
-- 
2.43.0


From f41dc2e5a0f8b128d08b0471e2cf409f104eb866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:29 +0000
Subject: [PATCH 22/24] fix: the font converter accepted malformed numbers

std::stoi stops at the first character that is not a digit, so -s 7pt or
-d 1x2 were taken for 7 and 1 without a message.
---
 gfx-font-converter/FontConverterConfig.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/gfx-font-converter/FontConverterConfig.cpp b/gfx-font-converter/FontConverterConfig.cpp
index 0b5e7a3..40ed2a5 100644
--- a/gfx-font-converter/FontConverterConfig.cpp
+++ b/gfx-font-converter/FontConverterConfig.cpp
@@ -3,6 +3,21 @@
 #include <getopt.h>
 #include <cctype>
 #include <algorithm>
+#include <stdexcept>
+
+namespace
+{
+int parseNumber(const std::string &text)
+{
+    std::size_t parsedLength = 0;
+    const int result = std::stoi(text, &parsedLength);
+    if (parsedLength != text.size())
+    {
+        throw std::invalid_argument("malformed number " + text);
+    }
+    return result;
+}
+}
 
 FontConverterConfig::FontConverterConfig(int argc, char** argv)
 {
@@ -19,10 +34,10 @@ FontConverterConfig::FontConverterConfig(int argc, char** argv)
                 outputDirectory = optarg;
                 break;
             case 'd':
-                DPI = std::stoi(optarg);
+                DPI = parseNumber(optarg);
                 break;
             case 's':
-                fontSize = std::stoi(optarg);
+                fontSize = parseNumber(optarg);
                 break;
             case 'e':
                 encoding = optarg;
-- 
2.43.0


From b5bda19a526a8c06632afe271a2fec7aa24827d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:51 +0000
Subject: [PATCH 23/24] fix: ESP-IDF SPI full duplex receives and long sends
 are refused by the driver

---
 esp32-esp-idf/SpiBus.cpp | 7 +++++--
 esp32-esp-idf/SpiBus.h   | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/esp32-esp-idf/SpiBus.cpp b/esp32-esp-idf/SpiBus.cpp
index 6e3e8e7..2e11bae 100644
--- a/esp32-esp-idf/SpiBus.cpp
+++ b/esp32-esp-idf/SpiBus.cpp
@@ -16,13 +16,15 @@ bool embedded::SpiBus::transfer(const uint8_t *sendBytes, uint8_t *receiveBytes,
         if (sendBytes != nullptr)
         {
             transaction.tx_buffer = sendBytes;
-            transaction.length = 8 * effectiveLength;
         }
         if (receiveBytes != nullptr)
         {
             transaction.rx_buffer = receiveBytes;
-            transaction.rxlength = 8 * effectiveLength;
         }
+        // In the full duplex mode the bytes are received while length bits are clocked out, with or without data
+        // to send. The driver may have filled rxlength in, so it has to be set for every transaction.
+        transaction.length = sendBytes != nullptr || fullDuplex ? 8 * effectiveLength : 0;
+        transaction.rxlength = receiveBytes != nullptr ? 8 * effectiveLength : 0;
         if (spi_device_polling_transmit(spiDevice, &transaction) != ESP_OK)
         {
             return false;
@@ -68,6 +70,7 @@ bool embedded::SpiBus::init(embedded::GpioPinDefinition &sck,
     devcfg.clock_speed_hz=static_cast<int>(frequency);
     devcfg.spics_io_num=-1;
     devcfg.queue_size=7;
+    fullDuplex = duplexMode == DuplexMode::Full;
     if (duplexMode == DuplexMode::Half)
     {
         devcfg.flags |= SPI_DEVICE_HALFDUPLEX;
diff --git a/esp32-esp-idf/SpiBus.h b/esp32-esp-idf/SpiBus.h
index a30ebfe..34b6e78 100644
--- a/esp32-esp-idf/SpiBus.h
+++ b/esp32-esp-idf/SpiBus.h
@@ -28,6 +28,7 @@ private:
     int spiBusNumber;
     spi_device_t* spiDevice = nullptr;
     bool busInitialized = false;
+    bool fullDuplex = false;
     uint32_t maxTransferSize = 0;
 };
 
-- 
2.43.0


From 64f82fa3d2a9bbac5eac04f142c58a27f2162b66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:42:23 +0000
Subject: [PATCH 24/24] fix: looking up the last glyph of a font read past the
 glyph table

The condition that picks the end of a glyph's bitmap was inverted: the last
glyph took its end from the table entry behind the last one, and every other
glyph's bitmap extended to the end of the font's data.
---
 graphics/EmbeddedFont.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphics/EmbeddedFont.cpp b/graphics/EmbeddedFont.cpp
index 5007c81..c4f9c17 100644
--- a/graphics/EmbeddedFont.cpp
+++ b/graphics/EmbeddedFont.cpp
@@ -23,7 +23,7 @@ EmbeddedFont::CharacterBitmap EmbeddedFont::getBitmap(const char symbol) const
     const auto &glyph = fontDescriptor.glyph[pos];
     const auto bitmapBegin = fontDescriptor.bitmap.begin() + glyph.bitmapOffset;
     ++pos;
-    const auto bitmapEnd = (pos != fontDescriptor.glyph.size()) ?
+    const auto bitmapEnd = (pos == fontDescriptor.glyph.size()) ?
                            fontDescriptor.bitmap.end() :
                            fontDescriptor.bitmap.begin() + fontDescriptor.glyph[pos].bitmapOffset;
     return EmbeddedFont::CharacterBitmap { .bitmap { bitmapBegin, static_cast<uint16_t>(bitmapEnd - bitmapBegin) },
-- 
2.43.0

