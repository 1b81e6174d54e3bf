#pragma once
#include "sim_esp_vendor.h"
