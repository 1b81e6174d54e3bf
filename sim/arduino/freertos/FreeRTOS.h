#pragma once
#include "Arduino.h"
