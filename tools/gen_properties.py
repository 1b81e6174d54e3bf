#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text stays readable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               observe_at=list(observe), hook_needed=hook)))

# ---------------------------------------------------------------- persistent storage
ST = ["PersistentStorage.h", "PersistentStorage.cpp"]
prop("P01", "Acknowledged objects survive resets",
     "Once storing an object under a key has reported success, reading that key as an object of the same size returns exactly those bytes until a later successful store to it, across any number of device resets and reopenings of the same memory region. This holds at whatever instant a reset interrupts the storing of other keys. A store that reports success can always be read back under the very key it was given.",
     ["histories", "crash_points", "inputs"],
     "every history of stores, reads, resets (between any two memory writes of an operation), and reopenings, for every region size and placement, object size and key",
     "The tests do two stores and one clean reopen with keys of at most four characters and small objects; no reset ever strikes inside an operation.",
     ST, [("record chain walk on reopen", "PersistentStorage::PersistentStorage"), ("lookup by key and record size", "PersistentStorage::getIdx"), ("record append and in-place overwrite", "PersistentStorage::set")],
     [("record chain", "size, key and data of every stored object, back to back in the region", "buffer_"), ("free head", "offset of the first unused byte, rebuilt on reopen", "free_head_")],
     ["PersistentStorage::set return value", "PersistentStorage::get"])
prop("P02", "An interrupted add is all-or-nothing",
     "If a reset strikes at any instant while an object is being stored under a new key, then after reopening the region that key is either absent or holds the complete new object, and every object acknowledged earlier is intact. No object that was never stored in full becomes readable, neither right after the reset nor after any later stores, resets and reopenings.",
     ["crash_points", "histories"],
     "every point between two memory writes of a store under a new key, and every continuation of stores, resets and reopenings afterwards",
     "No test interrupts an operation; the tests see only completed stores.",
     ST, [("size field written last commits the record", "PersistentStorage::set"), ("end of the chain recognised on reopen", "PersistentStorage::PersistentStorage")],
     [("record size field", "non-zero marks a record as present", "NodeDescriptor::size")],
     ["PersistentStorage::get after reopening"])
prop("P03", "An interrupted overwrite leaves the old or the new object",
     "If a reset strikes at any instant while an existing object is being overwritten, then after reopening the region that key is still present and reads as the complete old or the complete new object. Every other object is intact and the key can be stored again.",
     ["crash_points", "histories"],
     "every point between two memory writes of a store to an existing key, for every object size, and every continuation afterwards",
     "No test interrupts an operation.",
     ST, [("in-place overwrite of the data bytes", "PersistentStorage::set")],
     [("record data", "object bytes, replaced in place", "Node::data")], ["PersistentStorage::get after reopening"])
prop("P04", "Damaged storage contents stay contained",
     "Whatever bytes the region holds when it is reopened without initialisation, and whichever stored bytes flip while it is open, every storage operation terminates and touches no memory outside the region. Objects stored ahead of the first damaged record header stay readable, and a flipped data byte changes only the object it belongs to. A store that reports success on a region reopened after the damage reads back.",
     ["fault_sequences", "inputs", "histories"],
     "every region content: random power-up garbage, valid images with flipped, zeroed or stale bytes, images reopened with another region size; damage before opening and between operations",
     "The tests only reopen an image produced moments before by the same code, undamaged.",
     ST, [("bounds of the record walk", "PersistentStorage::PersistentStorage, PersistentStorage::getIdx")],
     [("record size field", "drives the walk over the region", "NodeDescriptor::size")], ["PersistentStorage constructor, set, get; bytes around the region"])
prop("P05", "Storage space is neither lost nor overrun",
     "A store under a new key of up to four characters succeeds exactly when the object plus its six-byte record header fits in the space not taken by stored objects and its size in the header's size field, and a store to an existing key of the same size always succeeds. A store that reports failure changes no stored object and no free space. Resets and reopenings, including ones that interrupt a store, never reduce or increase the space available; initialising a region empties it and makes all of it available.",
     ["histories", "crash_points"],
     "every history of stores and resets, every region size, object size and interrupted store",
     "One test has one store that fails in an empty region one byte too small.",
     ST, [("free space check", "PersistentStorage::set"), ("free head recomputed on reopen", "PersistentStorage::PersistentStorage")],
     [("free head", "offset of the first unused byte", "free_head_")], ["PersistentStorage::set return value"])

# ---------------------------------------------------------------- packet UART
UA = ["PacketUart.h", "arduino/PacketUart.cpp", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/SimpleUartDevice.cpp"]
NOHAL = "The hardware back ends are not compiled by any test."
prop("U01", "UART receive hands over exactly the bytes that arrived",
     "Across any sequence of receive and send calls on a packet UART, the bytes handed to the caller are exactly the bytes the device delivered, in arrival order and each once; only bytes skipped while looking for a packet's start byte are dropped, and sending never discards received bytes, nor does it when one task receives while another sends. The reported count is the number of buffer bytes filled, also when the driver reports an error. No byte outside the caller's buffer is written, for any buffer size.",
     ["schedules", "fault_sequences", "histories"],
     "every arrival schedule of bytes relative to the calls, every buffer size including 0 and 1, driver errors and stalls at any call, on both back ends",
     NOHAL, UA, [("receive loops", "PacketUart::Receive, ReceiveUntil, ReceiveBetween on each back end"), ("send completes without touching the input", "PacketUart::Send")],
     [("position in the buffer", "bytes received so far", "currentPos")], ["PacketUart::Receive*, buffer contents, bytes consumed from the device"])
prop("U02", "Delimited receives frame packets correctly",
     "A receive-until returns the bytes up to and including the first end byte and leaves everything after it for the next call; a receive-between returns a packet that begins with the first start byte seen and runs to the first end byte after it. When the buffer fills or the timeout strikes first, the result holds only bytes really received, so it ends with the end byte only if that byte was received.",
     ["schedules", "fault_sequences", "inputs"],
     "every byte stream and arrival schedule, all start and end bytes (also equal ones and bytes of 0x80 and above), every buffer size, driver errors and stalls at any call, on both back ends",
     NOHAL, UA, [("delimiter search", "PacketUart::ReceiveUntil, PacketUart::ReceiveBetween on each back end")],
     [], ["PacketUart::ReceiveUntil, PacketUart::ReceiveBetween results; next bytes of the device"])
prop("U03", "UART receives never overrun their timeout",
     "With a non-zero timeout, every receive call of a packet UART returns no later than that timeout after the call, up to the granularity of the platform's timers and time in which the caller is not scheduled. This holds whatever the line does (silence, endless noise, a trickle of bytes, driver errors), whatever other tasks do with UARTs of their own, and wherever the millisecond counter stands, including across its wrap-around.",
     ["schedules", "fault_sequences"],
     "every arrival schedule, every timeout above zero, every value of the millisecond counter at the call, driver errors and stalls, on both back ends",
     NOHAL, UA + ["esp32-esp-idf/Delays.cpp"], [("deadline computation", "PacketUart::Receive, ReceiveUntil, ReceiveBetween on each back end")],
     [("deadline", "start of the call plus the timeout", "startTime, maxTime")], ["virtual time spent in each receive call"])
prop("U04", "UART receives do not give up early",
     "A receive call of a packet UART returns less than it was asked for (buffer not full and no end byte) only after its timeout has elapsed, up to the granularity of the platform's timers, or after the device reported an error. Bytes that arrived before the deadline are not left unread by such a return. This holds wherever the millisecond counter stands, including across its wrap-around.",
     ["schedules", "fault_sequences"],
     "every arrival schedule, every timeout above zero, every value of the millisecond counter at the call, on both back ends",
     NOHAL, UA + ["esp32-esp-idf/Delays.cpp"], [("deadline computation", "PacketUart::Receive, ReceiveUntil, ReceiveBetween on each back end")],
     [("deadline", "start of the call plus the timeout", "startTime, maxTime")], ["virtual time spent in each receive call; bytes waiting in the device at return"])
prop("U05", "UART send is truthful and blocking",
     "A send on a packet UART puts the caller's bytes on the line in order and each at most once, and reports exactly how many the device accepted; when the device fails it reports zero, never a larger count. When a send returns, every byte it reported has left the line.",
     ["fault_sequences", "schedules"],
     "every length, every short or failing driver write, every state of the transmitter at the call, on both back ends",
     NOHAL, UA, [("result of the driver write", "PacketUart::Send, SimpleUartDevice::sendBlocking"), ("wait until transmitted", "PacketUart::Send, SimpleUartDevice::sendBlocking")],
     [], ["PacketUart::Send result; bytes on the line"])
prop("U06", "A call's timeout does not leak into the UART device",
     "On the Arduino back end, every send and receive call leaves the serial device's own configured timeout exactly as it found it, however the call ends. A timeout of zero in a receive-until means the device's configured timeout applies.",
     ["histories", "fault_sequences"],
     "every history of calls with varying timeouts, ended by delimiter, full buffer, timeout or device error",
     NOHAL, ["arduino/PacketUart.cpp"], [("save and restore of the stream timeout", "PacketUart::Send, ReceiveUntil, ReceiveBetween")],
     [("stream timeout", "timeout of the Arduino stream", "HardwareSerial::getTimeout")], ["HardwareSerial::getTimeout after each call; duration of zero-timeout calls"])
prop("U07", "UART bring-up reports success only when the driver is up",
     "On the ESP-IDF back end, bringing up a UART reports success only if its driver is installed with the requested rate, framing and pins, or was already installed before the call, in which case it is left untouched; installing happens at most once per boot unless the application removed the driver, and then anew. If any step fails the device restarts instead of going on with a half-configured UART, and once the faults stop the next boots bring it up.",
     ["fault_sequences", "histories"],
     "every failing step of the bring-up, every sequence of repeated bring-ups and restarts, every configuration",
     NOHAL, ["esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/SimpleUartDevice.h"], [("checked driver calls", "SimpleUartDevice::init"), ("already-installed test", "SimpleUartDevice::init")],
     [], ["SimpleUartDevice::init; driver state"])

# ---------------------------------------------------------------- SPI
prop("B01", "SPI transfers move every byte exactly once or report failure",
     "An SPI transfer of any length that reports success has put each transmit byte on the bus exactly once and in order, and has stored the bytes clocked in, in order, in the receive buffer and nowhere else. If the driver fails part-way the transfer reports failure, the bytes moved so far are a prefix of the request, and nothing further is put on the bus. Splitting long transfers to the platform's limits is invisible to the device, and a transfer that the bus's mode allows fails only if the driver does.",
     ["fault_sequences", "inputs"],
     "every length from 0 to 65535 including those around the platform's maximum transaction size, all three transfer directions, a driver failure at any transaction, on both back ends",
     NOHAL, ["SpiDevice.h", "arduino/SpiBus.cpp", "arduino/SpiDevice.cpp", "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp"],
     [("chunking", "SpiBus::transfer (ESP-IDF)"), ("bulk and remainder split", "read, write, readAndWrite (Arduino)")],
     [("remaining length and buffer pointers", "advance by one chunk", "SpiBus::transfer")], ["SpiDevice::sendSync, receiveSync, sendAndReceive; bytes on the bus"])
prop("B02", "Arduino SPI transfers own the bus while they run",
     "On the Arduino back end every byte of an SPI transfer moves inside one bus transaction with that device's own settings, and the transaction is always ended when the transfer returns. Transfers started by several tasks on a shared bus therefore never interleave their bytes, and every task eventually gets the bus.",
     ["schedules"],
     "every interleaving of tasks sharing one bus through differently configured devices, every length and direction",
     NOHAL, ["arduino/SpiBus.cpp", "arduino/SpiBus.h"], [("beginTransaction / endTransaction around the transfer", "SpiBus::transfer")],
     [("bus lock", "held between begin and end of a transaction", "SPIClass")], ["order of bytes and settings on the bus"])
prop("B03", "SPI bus bring-up and release never leak or double-free",
     "On the ESP-IDF back end, a successful init leaves the device attached to the bus; a failed init leaves nothing acquired. A release that reports success has detached the device and freed the bus so that it can be initialised again; a failed release can be retried; and destroying the object releases whatever it still holds. No driver handle is used or released after it has been released.",
     ["fault_sequences", "histories"],
     "every sequence of init, transfer, release and destruction on one or more buses with driver failures at any call",
     NOHAL, ["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiBus.h"], [("error handling of bus and device registration", "SpiBus::init, SpiBus::release, SpiBus::~SpiBus")],
     [("device handle", "non-null while attached", "SpiBus::spiDevice")], ["SpiBus::init, release; driver's bus and device tables"])
prop("B04", "Chip select frames exactly the selected exchange",
     "While a chip selector is in scope its pin is low, and as soon as the scope ends (normally, by early return after a failed transfer, or by an exception) the pin is high again. A peripheral selected this way sees all bytes exchanged within the scope and none exchanged outside it, also when several peripherals share a bus and transfers fail.",
     ["fault_sequences", "histories", "schedules"],
     "every history of selected and unselected exchanges with several peripherals, transfer failures at any point, on both back ends",
     NOHAL, ["GpioDigitalPin.h", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/GpioDigitalPin.cpp"], [("scope guard", "ChipSelector"), ("pin level functions", "GpioDigitalPin::set, reset, check")],
     [], ["pin levels; bytes seen by each peripheral"])

prop("B05", "Pin operations act on exactly their pin and do not hide driver failures",
     "Initialising a digital pin reports success only if the platform accepted the configuration, and the pin then has the requested direction and pull mode; on the ESP-IDF back end an initialisation fails for pin numbers that do not exist and for inputs-only pins as outputs, and a failed one can be repeated successfully once the fault is gone. Setting, resetting and checking a pin drive and report the level of exactly that pin, whatever calls on it or on other pins succeeded or failed before, and no operation changes the mode or level of another pin.",
     ["histories", "fault_sequences"],
     "every history of pin operations on several pins with driver failures at any call and inputs changing at any time, every direction, pull mode and pin number, on both back ends",
     NOHAL, ["GpioDigitalPin.h", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/GpioDigitalPin.cpp"], [("settings translation and driver result", "GpioDigitalPin::init"), ("pin level functions", "GpioDigitalPin::set, reset, check")],
     [], ["GpioDigitalPin::init, set, reset, check; modes and levels of all pins"])

# ---------------------------------------------------------------- I2C
prop("I01", "I2C transfers report success only if the peripheral took part in full",
     "An I2C send reports success exactly when the addressed peripheral acknowledged every byte, in order; a receive reports success exactly when the peripheral supplied every requested byte, and then the buffer holds them in order and nothing outside it was written. A combined send-then-receive never reads after a failed send and reports success only if both halves succeeded. A failed transfer leaves the bus usable for the next one.",
     ["fault_sequences", "histories", "inputs"],
     "every history of transfers to several peripherals with absent addresses, a missing acknowledge at any byte, short reads, bus time-outs and driver errors, on both back ends",
     NOHAL, ["I2CDevice.h", "arduino/I2CDevice.cpp", "esp32-esp-idf/I2CDevice.cpp"], [("result of the driver calls", "I2CDevice::sendSync, receiveSync"), ("short-circuit", "I2CDevice::sendThenReceive")],
     [], ["I2CDevice results; bytes seen by the peripherals"])
prop("I02", "I2C bus services leak nothing and report what the bus did",
     "On the ESP-IDF back end, probing an address reports presence exactly when a peripheral acknowledged it and gives back every driver resource it took, however the probe ends and whatever other tasks probe on another bus. Initialisation reports success only if the bus is configured and its driver installed, and a bus reset addresses every peripheral (general call) with the reset command on either back end without disturbing later transfers.",
     ["fault_sequences", "histories"],
     "every history of probes, resets, inits and transfers with driver failures (including failing allocations) at any call",
     NOHAL, ["esp32-esp-idf/I2CBus.cpp", "esp32-esp-idf/I2CBus.h", "arduino/I2CBus.cpp"], [("command link create and delete", "I2CBus::testAddress"), ("checked configuration", "I2CBus::init"), ("general call reset", "I2CBus::resetBus")],
     [], ["I2CBus::testAddress, init, resetBus; driver resource counts; bytes on the bus"])

# ---------------------------------------------------------------- time and power
prop("T01", "Delays are never cut short",
     "A millisecond delay returns no earlier than the requested time less one scheduler tick, and a microsecond delay no earlier than the requested time; both return within a bounded overshoot of timer granularity and time in which the caller is not scheduled. This holds for every tick rate and at every clock value, including across counter wrap-around, and for several tasks that wait at the same time.",
     ["schedules", "configurations", "inputs"],
     "every duration, tick rate, phase of the call within a tick, stall and clock value, on both back ends",
     NOHAL, ["Delays.h", "esp32-esp-idf/Delays.cpp", "arduino/Delays.cpp"], [("tick conversion", "embedded::delay"), ("busy wait on the microsecond timer", "embedded::delayMicroseconds")],
     [], ["virtual time spent in embedded::delay, embedded::delayMicroseconds"])
prop("T02", "Light sleep lasts as long as asked, no shorter and no longer",
     "Light sleep on the ESP-IDF back end returns no earlier than the requested number of milliseconds and no later than that plus timer granularity and time in which the caller is not scheduled. This holds when the chip wakes early, when it refuses to sleep, when the caller stalls at any point, and across the wrap-around of the millisecond counter.",
     ["schedules", "fault_sequences"],
     "every duration, every sequence of early wake-ups and refused sleeps, every stall between two clock reads, every clock value",
     NOHAL, ["esp32-esp-idf/SleepFunctions.h"], [("remaining time computation", "embedded::ligntSleep")],
     [("wake-up time", "start plus the requested time", "wait")], ["virtual time spent asleep"])
prop("T03", "Deep sleep cycles keep time and state",
     "Deep sleep on the ESP-IDF back end restarts the device exactly after the requested number of milliseconds, for the whole 32-bit range. Objects stored in a persistent region before going to sleep, or before any reset in between, read back after waking, cycle after cycle.",
     ["histories", "crash_points", "fault_sequences"],
     "every history of wake, read, store and sleep cycles with resets at any instant, every sleep duration",
     NOHAL + " No test combines storage with a restart.", ["esp32-esp-idf/SleepFunctions.h", "PersistentStorage.h", "PersistentStorage.cpp"], [("wake-up timer programming", "embedded::deepSleep"), ("reopening the region", "PersistentStorage::PersistentStorage")],
     [], ["time between sleep and restart; storage contents after restart"])
prop("T04", "Tick counters follow the clock and never run backwards",
     "The millisecond tick counter equals elapsed milliseconds modulo 2^32 and the microsecond tick counter equals elapsed microseconds, both to within one unit and on every back end. Read repeatedly, the 64-bit microsecond counter never decreases, for the whole uptime of the device.",
     ["schedules", "histories"],
     "every sequence of reads at every uptime, including beyond the wrap-around of 32-bit platform counters",
     NOHAL, ["Delays.h", "esp32-esp-idf/Delays.cpp", "arduino/Delays.cpp"], [("platform clock reads", "embedded::getMillisecondTicks, embedded::getMicrosecondTicks")],
     [], ["embedded::getMillisecondTicks, embedded::getMicrosecondTicks"])

# ---------------------------------------------------------------- ADC
prop("A01", "Analog reads stay repeatable under driver failures",
     "On the ESP-IDF back end an analog read returns the converted value of the pin's channel when the driver delivers one and -1 otherwise, and it never keeps a converter claimed after it returns. A read therefore works no matter how many reads, on this or any other pin, succeeded or failed before it, and reads by several tasks do not mix up their results.",
     ["histories", "fault_sequences"],
     "every history of reads over all pins with driver failures at any call",
     NOHAL, ["esp32-esp-idf/AnalogPin.cpp", "AnalogPin.h"], [("claim, configure, read, release", "singleReadADC"), ("pin to channel mapping", "digitalPinToAnalogChannel")],
     [], ["AnalogPin::singleRead; units claimed in the driver"])

# ---------------------------------------------------------------- logging
LG = ["SerialOut.h", "BufferedOut.h", "BufferedOut.cpp", "arduino/SerialOut.cpp", "esp32-esp-idf/SerialOut.cpp"]
prop("L01", "Each log message reaches the line once and is isolated from faults",
     "Every message streamed to a serial output and ended is sent to the line exactly once, in order, with precisely the text of its items if it fits the buffer, and each line-ended message is followed by one newline even when the buffer is full. If the device drops or truncates a message, later messages are not affected, and nothing of an earlier message is ever sent again.",
     ["histories", "fault_sequences"],
     "every history of messages and item kinds, every buffer size, device failures and short writes at any send, on both back ends",
     "The tests format single values into a large buffer; the serial output class is not compiled by any test.",
     LG, [("flush", "SerialOut::flush"), ("end and endl", "SerialOut::operator<<"), ("clear after sending", "BufferedOut::clear")],
     [("message buffer", "text collected since the last flush", "BufferedOut")], ["bytes on the line per message"])
prop("L02", "Running out of message buffer never corrupts memory or text",
     "Whatever is streamed into a fixed message buffer and wherever its capacity runs out, no byte outside the buffer is read or written and the recorded size never exceeds the capacity. What is then sent consists only of the streamed items' text in order, each whole or cut at its end, items that fit before the first overflow being whole; stale buffer contents are never sent.",
     ["histories", "inputs"],
     "every sequence of items of all kinds (text, integers with width and fill, floats with precision, bytes, byte spans), every capacity including 0, reuse of the same memory over several messages",
     "The tests never come near the end of the buffer.",
     ["BufferedOut.h", "BufferedOut.cpp", "SerialOut.h"], [("capacity checks", "BufferedOut::operator<<, addPadding, append, toChars")],
     [("write position", "never beyond the end of the buffer", "BufferedOut::pos")], ["memory around the buffer; bytes sent"])

# ---------------------------------------------------------------- font converter
FC = ["gfx-font-converter/main.cpp", "gfx-font-converter/BitStream.h", "gfx-font-converter/FreeTypeFace.cpp", "gfx-font-converter/FreeTypeLibrary.cpp", "gfx-font-converter/EncodingConverter.cpp"]
prop("F01", "The font converter reports success only for complete output",
     "When the font converter exits with status 0, every output file of the chosen format exists in full and holds exactly what a run without faults produces. This holds under disk-full, I/O errors, short and interrupted writes and failing closes at any point of the output.",
     ["fault_sequences", "inputs"],
     "every fault at every file operation of the output, every output format, font and encoding",
     "The converter is built but never run by a test.",
     FC, [("writing of the output files", "writeHeaderFile, main")],
     [("output streams", "header file, or bitmaps and glyphs files", "std::ofstream in writeHeaderFile and main")], ["exit status; contents of the output directory"])
prop("F02", "Re-running the font converter recovers from any interruption",
     "After the font converter is killed at any instant, or fails because of an I/O error, running it again without faults succeeds and leaves exactly the files an undisturbed first run would have left. What an earlier run left in the output directory never shows in the result.",
     ["crash_points", "histories"],
     "every instant of interruption between two file operations, with torn writes, every output format, every earlier content of the output files",
     "The converter is built but never run by a test.",
     FC, [("output files truncated when opened", "writeHeaderFile, main")],
     [], ["contents of the output directory after the second run"])
prop("F03", "The font converter fails cleanly",
     "When the font cannot be opened, read or rendered, the encoding is unknown, a number on the command line is malformed, memory runs out, or output cannot be created or written, the font converter terminates with a non-zero exit status and an error message. It never crashes, hangs, or leaves the failure unreported.",
     ["fault_sequences", "inputs"],
     "every failing system call, FreeType call and allocation, missing, truncated or damaged font files, unknown encodings",
     "The converter is built but never run by a test.",
     FC, [("errors turned into exceptions, caught in main", "FreeTypeLibrary::createFace, FreeTypeFace::renderGlyph, EncodingConverter, main")],
     [], ["exit status, terminating signal, standard error"])

# ---------------------------------------------------------------- everything together
prop("S01", "Parts used together in one device do not disturb each other",
     "When the tasks of one device use the packet UART, serial output, persistent storage, SPI peripherals with chip selects, I2C devices, pins, analog inputs, drawing, delays and sleep at the same time (each bus, UART, output, frame buffer and storage object being used by one task at a time), every part does what it does alone: requests and answers pass unchanged, every acknowledged setting stays, every message reaches its own line once, every exchange reaches only its own peripheral, outputs keep their level, pictures are drawn as asked, and delays and time-outs keep their length apart from time in which the task is not scheduled. This holds from boot to boot with driver failures, resets and loss of power at any instant, and once faults stop the device answers every request again.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "every interleaving of the tasks, every sequence of requests, every instant of a reset, every driver failure and line error, on both back ends",
     "No test uses two parts together, has two tasks, or restarts anything.",
     ["PacketUart.h", "SerialOut.h", "PersistentStorage.h", "SpiDevice.h", "I2CDevice.h", "GpioDigitalPin.h", "AnalogPin.h", "Delays.h", "Debug.h", "esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/SleepFunctions.h", "graphics/Canvas.cpp", "graphics/EmbeddedFont.cpp"],
     [("serial output shared by the whole program", "SerialDebug"), ("bring-up after a reset", "SimpleUartDevice::init, SpiBus::init, I2CBus::init"), ("reopening the region", "PersistentStorage::PersistentStorage")],
     [], ["bytes on the serial lines and buses, levels of the pins, stored objects, virtual time, answers to requests"])

# ---------------------------------------------------------------- pure functions: listed, not claimed
PURE = "pure functions of their input"
prop("N01", "Memory views never reach outside the viewed memory",
     "Sub-views of a memory view (first, last, sub-range, byte views) cover exactly the requested part clipped to the view, and never any memory outside it.",
     ["inputs"], "every view, offset and count", "The tests sample a few offsets.", ["MemoryView.h"], [("clipping", "MemoryView::subspan, first, last")])
prop("N02", "Byte order conversion is its own inverse",
     "Reversing the byte order of a value twice gives the value back, and once gives its bytes in reverse order, for every value and width.",
     ["inputs"], "every 16- and 32-bit value", "The tests sample two values each.", ["EndianConversion.h"], [("byte swaps", "changeEndianess")])
prop("N03", "Drawing never touches pixels outside the frame buffer",
     "Every canvas operation changes only pixels inside the frame buffer, whatever coordinates, sizes, text and rotation it is given.",
     ["inputs"], "every primitive, coordinate, rotation, buffer size and colour depth", "The tests compare a few pictures.", ["graphics/Canvas.cpp", "graphics/Canvas.h", "graphics/SimpleFrameBuffer.h"], [("clipping", "Canvas::setIfVisible")])
prop("N04", "Rotation commutes with drawing",
     "A picture drawn on a rotated canvas is the rotation of the picture drawn on an unrotated canvas of the rotated size.",
     ["inputs"], "every sequence of primitives and rotation", "The tests compare a few pictures.", ["graphics/Canvas.cpp"], [("coordinate transformation", "Canvas::transformCoords")])
prop("N05", "Every character maps to its own glyph",
     "Looking up any character yields its own glyph within the font's data, or the glyph of the first character if the font lacks it; no memory outside the font's tables is read.",
     ["inputs"], "every character and font", "The tests draw a few characters of one font.", ["graphics/EmbeddedFont.cpp"], [("glyph lookup", "EmbeddedFont::getBitmap")])
prop("N06", "Numbers are formatted exactly",
     "In a buffer with room, integers print exactly with at least the requested width, and floats print with the requested number of decimals, truncated.",
     ["inputs"], "every value, width, fill and precision", "The tests format a few values.", ["BufferedOut.cpp"], [("formatting", "BufferedOut::operator<<")])
prop("N07", "Converted fonts show the rendered glyphs",
     "Without faults, the bitmaps, metrics and offsets the font converter writes are those of the rendered glyphs, for every font, size and encoding it accepts.",
     ["inputs"], "every font, size, resolution and encoding", "The converter is never run by a test.", ["gfx-font-converter/main.cpp", "gfx-font-converter/BitStream.h"], [("bit packing", "BitStream")])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
