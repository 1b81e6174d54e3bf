#include "stub_esp.h"
