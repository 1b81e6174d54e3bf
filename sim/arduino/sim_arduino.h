// Access to the simulated Arduino core for scenarios.
#pragma once
#include "hal/bus.h"
namespace hal
{
struct ArduinoSpi
{
    bool locked = false;
    int owner = -1;
    u64 transaction = 0;                 // of the owner
    u32 frequency = 0;
    u32 settingsId = 0;
    u64 unlockedUses = 0, foreignUses = 0;
};
extern ArduinoSpi arduinoSpi[3];
struct ArduinoWire
{
    bool locked = false;                 // between beginTransmission and endTransmission
    int owner = -1;
    std::vector<u8> tx, rx;
    size_t rxPos = 0;
    u16 address = 0;
    size_t bufferSize = 128;
};
extern ArduinoWire arduinoWire[2];
extern u64 arduinoTickPhase;             // of the 1 ms tick
}
