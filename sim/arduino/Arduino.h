// Simulated Arduino core (ESP32 flavour).
#pragma once
#include <algorithm>
#include <cmath>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>

#include "esp32-hal.h"
using std::min;
using std::max;

#include "HardwareSerial.h"
