// Access to the simulated ESP-IDF for scenarios.
#pragma once
#include "hal/bus.h"
#include <vector>
#include "sim_esp_vendor.h"

struct spi_device_t
{
    bool alive = false;
    int host = -1;
    uint32_t flags = 0;
    int frequency = 0, mode = 0;
    std::vector<spi_transaction_t*> queued;  // done, and their results not fetched yet
};

namespace hal
{
struct EspUart
{
    bool installed = false, configured = false, pins = false;
    uart_config_t config {};
    int tx = -2, rx = -2, rxBuffer = 0, txBuffer = 0;
    u32 installs = 0;                    // in this boot
    u32 touched = 0;                     // configuration calls in this boot
};
struct EspSpiHost
{
    bool initialised = false;
    spi_bus_config_t config {};
    int devices = 0;
    size_t maxBytes = 4092;
};
struct EspI2c
{
    bool configured = false, installed = false;
    i2c_config_t config {};
    i2c_mode_t mode {};
};
struct Esp
{
    EspUart uart[3];
    EspSpiHost spi[3];
    spi_device_t spiDevices[200];
    u32 spiDevicesUsed = 0;
    EspI2c i2c[2];
    int liveCmdLinks = 0;
    bool adcClaimed[2] = {};
    int adcPower = 0;
    u64 adcReads = 0;
    int lastAdcUnit = -1, lastAdcChannel = -1, lastAdcValue = -1;
    bool lastAdcOk = false;
    struct Delivered { int task, unit, channel, value; };
    std::vector<Delivered> adcDelivered;
    bool adcConflict[8] = {};            // a task was refused a converter another one uses
    // sleep
    bool timerWakeup = false;
    int wakeCause = 0;                   // of the last sleep
    int resetReason = 1;
    u64 timerUs = 0;
    u32 earlyWake = 0, rejects = 0;      // chance in 16 per light sleep
    u64 lightSleeps = 0;
    u64 lastReject = 0;                  // when a refused light sleep last returned
    bool deepSleeping = false;
    u64 deepSleepUs = 0;
    // how the device stopped
    bool restarted = false;
    std::string restartReason;
    // misuse of handles
    std::string misuse;
};
extern Esp esp;
void esp_boot(Boot kind);                // driver state after a reset: nothing installed
int adc_value(int unit, int channel, u64 n);
void misuse(const char* fmt, ...);
constexpr u64 TickUs = SIM_TICK_MS * 1000;
}
