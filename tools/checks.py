"""Which simulations decide which property."""

ASSUME_CORE = [
    "The compiled code is the library's own source, at -O0 with every memory access reported to the simulator (the storage also at -O2); another compiler may order plain stores differently where the language allows it.",
]
ASSUME_STORAGE = [
    "A reset leaves every store that happened before it and none after; an aligned or unaligned 16-bit store is not torn, copies (memcpy/memset) are torn at any byte.",
    "Record layout as documented: six bytes of header, records in the order they were added.",
]

# property -> dict(parts=[(binary, scenario, weight, confirm binary or None)], ...)
CHECKS = {}


def add(prop, parts, rule, real, stub, assumptions, quick=40, thorough=600, note=""):
    CHECKS[prop] = dict(parts=parts, rule=rule, real=real, stub=stub, assumptions=ASSUME_CORE + assumptions,
                        quick=quick, thorough=thorough, note=note)


ST_REAL = ["PersistentStorage.h", "PersistentStorage.cpp", "MemoryView.h"]
ST_STUB = ["battery backed memory (simulated region with guard zones and crash points)"]
ST_RULE = ("One run draws a region, keys, object sizes and a history of stores, interrupted stores (reset before a drawn memory write), "
           "resets, reopenings and initialisations, and compares every readable object with a reference model after each step. "
           "A run is non-trivial if at least one fault fired; distinct by the hash of its event log.")
for p in ("P01", "P02", "P03", "P05"):
    add(p, [("core", "storage", 0.5, None), ("core2", "storage", 0.5, None)] + ([("core", "storage_tasks", 0.2, None)] if p in ("P01", "P05") else []), ST_RULE, ST_REAL, ST_STUB, ASSUME_STORAGE)
add("P04", [("core", "damage", 0.5, None), ("core2", "damage", 0.5, None)],
    "One run fills a region with objects or garbage, changes bytes at rest or while it is open, then reads, stores, resets and reopens; "
    "records ahead of the first damaged header are compared with the model, every memory access with the region's bounds. "
    "Non-trivial: at least one byte changed; distinct by the hash of the event log.", ST_REAL, ST_STUB, ASSUME_STORAGE)

# ---------------------------------------------------------------- hardware back ends
ASSUME_HAL = [
    "The vendor layer (Arduino core, ESP-IDF drivers, FreeRTOS) is a simulated stand-in with the documented contracts; it is not the vendors' code.",
    "Simulated time moves only with calls into the vendor layer, by drawn amounts, and with stalls injected at those calls; the library's own instructions take no time.",
]
ARD = [("arduino", 1, "arduino64")]
ESP = [("esp10", 1, None), ("esp1", 1, None)]


def hal_parts(scenarios, arduino=True, esp=True):
    """A scenario may be given with its share of the time."""
    res = []
    for s in scenarios:
        s, f = s if isinstance(s, tuple) else (s, 1)
        for b, w, c in (ARD if arduino else []) + (ESP if esp else []):
            res.append((b, s, w * f, c))
    return res


ARD_WIDE = "A violation near the wrap-around of the Arduino counters counts only if the same run violates in a build with 64-bit counters sign-extended as well (unsigned long has 32 bits on the boards, 64 here)."
U_REAL = ["PacketUart.h", "arduino/PacketUart.cpp", "arduino/PacketUartImpl.h", "esp32-esp-idf/PacketUart.cpp", "esp32-esp-idf/PacketUartImpl.h"]
U_STUB = ["Arduino HardwareSerial/Stream and time functions", "ESP-IDF UART driver, esp_timer and FreeRTOS delays (100 Hz and 1 kHz ticks)", "serial line and peer"]
U_RULE = ("One run draws a clock position (also just before each wrap-around), a peer that sends packets, noise, trickles or nothing, stalls and driver faults, and a history of receive and send calls "
          "with drawn buffers, timeouts and delimiters; each call is judged against the bytes the line delivered and when. "
          "Non-trivial: at least one fault or special line condition occurred; distinct by the hash of the event log.")
for p in ("U01", "U02", "U05"):
    add(p, hal_parts(["uart", ("uart_tasks", 0.4), ("uart_duplex", 0.3)]), U_RULE, U_REAL, U_STUB + ["task scheduler"], ASSUME_HAL + [ARD_WIDE])
for p in ("U03", "U04"):
    add(p, hal_parts(["uart", ("uart_tasks", 0.4)]) + hal_parts([("uart_duplex", 0.3)], arduino=False), U_RULE, U_REAL, U_STUB + ["task scheduler"], ASSUME_HAL + [ARD_WIDE])
add("U06", hal_parts(["uart"], esp=False), U_RULE, U_REAL[:3], U_STUB[:1] + U_STUB[2:], ASSUME_HAL + [ARD_WIDE])
add("U07", hal_parts(["uart_bringup"], arduino=False),
    "One run is several boots, each bringing UARTs up with drawn settings while driver calls fail, then boots without faults. Non-trivial: a fault fired; distinct by the hash of the event log.",
    ["esp32-esp-idf/SimpleUartDevice.cpp", "esp32-esp-idf/SimpleUartDevice.h"], ["ESP-IDF UART driver, esp_restart"], ASSUME_HAL)
SPI_REAL = ["SpiDevice.h", "arduino/SpiBus.cpp", "arduino/SpiDevice.cpp", "esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiDevice.cpp", "GpioDigitalPin.h", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/GpioDigitalPin.cpp"]
SPI_STUB = ["Arduino SPIClass and digital pins", "ESP-IDF SPI master and GPIO drivers", "peripherals on the bus"]
add("B01", hal_parts(["spi_transfer", ("spi_tasks", 0.3)]),
    "One run draws lengths around the platforms' transfer limits, buffers, peripherals and driver failures, and compares the bytes on the simulated bus and in the buffers with the request. Non-trivial: a fault fired; distinct by the hash of the event log.",
    SPI_REAL, SPI_STUB, ASSUME_HAL)
add("B02", hal_parts(["spi_tasks"], esp=False),
    "One run starts two to four tasks that transfer on one bus under a seeded scheduler that may switch at every call into the SPI library. Non-trivial: at least one switch within a transfer; distinct by the hash of the event log.",
    SPI_REAL[:3], SPI_STUB[:1] + SPI_STUB[2:] + ["task scheduler"], ASSUME_HAL)
add("B03", hal_parts(["spi_bus_life"], arduino=False),
    "One run is a history of init, release, destroy and create on up to three bus objects while driver calls fail, checked against the driver's own books. Non-trivial: a fault fired; distinct by the hash of the event log.",
    ["esp32-esp-idf/SpiBus.cpp", "esp32-esp-idf/SpiBus.h"], ["ESP-IDF SPI master driver"], ASSUME_HAL)
add("B04", hal_parts(["chip_select"]),
    "One run selects peripherals that share a bus in nested and consecutive scopes, left normally, early or by exception, with failing transfers; each peripheral's view is compared with the calls made. Non-trivial: a fault fired or an exception left a scope; distinct by the hash of the event log.",
    SPI_REAL, SPI_STUB, ASSUME_HAL)
add("B05", hal_parts(["pins", ("pins_tasks", 0.4)]),
    "One run is a history of initialisations, level changes and reads on up to six pins (also ones that do not exist) while driver calls fail and the outside world moves the inputs; modes and levels of all pins are compared with a model after each step. Non-trivial: a fault fired or an input changed; distinct by the hash of the event log.",
    ["GpioDigitalPin.h", "arduino/GpioDigitalPin.cpp", "esp32-esp-idf/GpioDigitalPin.cpp"], ["Arduino digital pins", "ESP-IDF GPIO driver", "signals on the pins"], ASSUME_HAL)
I_REAL = ["I2CDevice.h", "arduino/I2CDevice.cpp", "arduino/I2CBus.cpp", "esp32-esp-idf/I2CDevice.cpp", "esp32-esp-idf/I2CBus.cpp"]
I_STUB = ["Arduino TwoWire", "ESP-IDF I2C master driver", "I2C peripherals"]
add("I01", hal_parts(["i2c_transfer", ("i2c_tasks", 0.3)]),
    "One run is a history of sends, receives and combined transfers to peripherals that disappear, stop acknowledging or supply too little, on drivers that fail; each result is compared with what the peripheral saw. Non-trivial: a fault fired; distinct by the hash of the event log.",
    I_REAL, I_STUB, ASSUME_HAL)
add("I02", hal_parts(["i2c_bus"]) + hal_parts([("i2c_tasks", 0.4)], arduino=False),
    "One run is a history of initialisations, probes, resets and transfers with failing driver calls and allocations; presence, driver state, command links and reset commands are compared with the bus log. Non-trivial: a fault fired; distinct by the hash of the event log.",
    I_REAL, I_STUB, ASSUME_HAL)
T_REAL = ["Delays.h", "arduino/Delays.cpp", "esp32-esp-idf/Delays.cpp"]
T_STUB = ["clock, timers and tick interrupt", "scheduler stalls"]
add("T01", hal_parts(["delays", ("delays_tasks", 0.4)]),
    "One run is a history of delays of drawn lengths at drawn clock positions with stalls. Non-trivial: a stall or a wrap-around occurred; distinct by the hash of the event log.", T_REAL, T_STUB, ASSUME_HAL + [ARD_WIDE])
add("T04", hal_parts(["ticks", ("delays_tasks", 0.3)]),
    "One run reads both counters while the clock moves by drawn steps over its whole range. Non-trivial: a stall or a long jump occurred; distinct by the hash of the event log.", T_REAL, T_STUB, ASSUME_HAL)
add("T02", hal_parts(["light_sleep"], arduino=False),
    "One run is a history of light sleeps with refusals, early wake-ups and stalls at drawn clock positions. Non-trivial: a fault fired; distinct by the hash of the event log.",
    ["esp32-esp-idf/SleepFunctions.h", "esp32-esp-idf/Delays.cpp"], ["ESP-IDF sleep functions", "clock, timers and tick interrupt"], ASSUME_HAL)
add("T03", hal_parts(["deep_sleep"], arduino=False),
    "One run is a sequence of boots that store into retained memory, sleep for drawn times or are reset, and check the memory and the clock when they wake. Non-trivial: a reset or a sleep of more than 2^32 microseconds occurred; distinct by the hash of the event log.",
    ["esp32-esp-idf/SleepFunctions.h", "PersistentStorage.cpp", "PersistentStorage.h"], ["ESP-IDF sleep functions", "retained memory"], ASSUME_HAL)
add("A01", hal_parts(["adc", ("adc_tasks", 0.4)], arduino=False),
    "One run is a history of reads of valid and invalid pins, or several tasks that read pins at the same time, while driver calls fail; each result is compared with what the driver delivered to that read. Non-trivial: a fault fired; distinct by the hash of the event log.",
    ["esp32-esp-idf/AnalogPin.cpp", "AnalogPin.h"], ["ESP-IDF one-shot ADC driver"], ASSUME_HAL)
L_RULE = ("One run streams messages of drawn items through buffers of drawn size (also the exact size) to a UART that drops, truncates or works, and compares the line with the text of the items. "
          "Non-trivial: a fault fired or the buffer ran out; distinct by the hash of the event log.")
for p in ("L01", "L02"):
    add(p, hal_parts(["serial", "buffered", ("serial_tasks", 0.3)]), L_RULE, ["BufferedOut.h", "BufferedOut.cpp", "SerialOut.h", "arduino/SerialOut.cpp", "arduino/SerialDebug.cpp", "esp32-esp-idf/SerialOut.cpp", "esp32-esp-idf/SerialDebug.cpp"] + U_REAL[:2],
        U_STUB, ASSUME_HAL)

# ---------------------------------------------------------------- everything together
add("S01", hal_parts(["device"]),
    "One run is the life of a device with a firmware of three tasks (requests over a packet UART, a sensor, a log) and a screen that shares one bus or uses two, its peer on a noisy line, and a power supply that fails at drawn instants; "
    "all parts are judged at once against the simulated lines, buses, pins and a model of the retained memory, and after the faults stop every kind of request has to be answered. Non-trivial: a fault or a task switch occurred; distinct by the hash of the event log.",
    ["all of arduino/ and of esp32-esp-idf/", "graphics/*.cpp", "PersistentStorage.h", "PersistentStorage.cpp", "BufferedOut.cpp", "PacketUart.h", "SerialOut.h", "Debug.h"],
    ["Arduino core", "ESP-IDF drivers and FreeRTOS", "lines, buses, peripherals, retained memory", "task scheduler", "the firmware and its peer (written for the simulation)"], ASSUME_STORAGE[:1] + ASSUME_HAL + [ARD_WIDE], quick=80)

# ---------------------------------------------------------------- font converter
for p in ("F01", "F02", "F03"):
    add(p, [("font", "font", 1, None)],
        "One run is a history of one to six executions of the converter in one directory, with drawn fonts (generated BDF and TrueType, also missing, damaged and useless ones), encodings, formats and command lines; each execution is a process whose "
        "file operations, allocations and FreeType calls fail or end it as drawn beforehand; exit status, messages and files are compared with a fault-free execution in a fresh directory, and for bitmap fonts with the font. "
        "Non-trivial: a fault fired; distinct by the hash of the event log (each operation on outputs and fonts with its result).",
        ["gfx-font-converter/*.cpp", "BufferedOut.cpp", "libstdc++ file streams", "FreeType 2", "C library iconv"],
        ["file operations on fonts and outputs, memory allocation and FreeType entry points (real, behind a fault-injecting layer)"],
        ["A crash of the converter leaves the bytes whose write had returned; loss of power, with unsynchronised data lost, is not simulated: the converter does not claim to survive it.",
         "Allocations inside FreeType fail as error codes of FreeType's functions, because the installed FreeType itself crashes if some of them return null.",
         "Writes that the system reports as successful are."], quick=80)
