// A minimal Arduino core for demonstrations: virtual time, scripted devices.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <deque>
#include <functional>
#include <vector>
#include <cstdio>
#include <cstdlib>
#include <algorithm>

namespace stub
{
inline uint64_t us = 0;
inline int pins[64];
inline std::function<void()> onTime;
inline void pass(uint64_t t) { us += t; if (onTime) onTime(); }
}
inline unsigned long millis() { stub::pass(1); return (uint32_t)(stub::us / 1000); }
inline unsigned long micros() { stub::pass(1); return (uint32_t)stub::us; }
inline void delay(uint32_t ms) { stub::pass(ms * 1000ull); }
inline void delayMicroseconds(uint32_t t) { stub::pass(t); }
inline void yield() { stub::pass(1); }
#define HIGH 1
#define LOW 0
#define INPUT 1
#define OUTPUT 3
#define PULLUP 4
#define PULLDOWN 8
inline void pinMode(uint8_t, uint8_t) {}
inline void digitalWrite(uint8_t p, uint8_t v) { stub::pins[p] = v; }
inline int digitalRead(uint8_t p) { return stub::pins[p]; }
inline uint16_t analogRead(uint8_t) { return 7; }
#include "HardwareSerial.h"
