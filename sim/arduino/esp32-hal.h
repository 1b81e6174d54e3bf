#pragma once
#include <cstdint>
// The counters have 32 bits on the target, where unsigned long has 32 bits too. With
// SIM_WIDE_LONG they are as wide as this machine's unsigned long and wrap there instead.
#ifdef SIM_WIDE_LONG
typedef unsigned long sim_ulong;
#else
typedef uint32_t sim_ulong;
#endif

#define HIGH 0x1
#define LOW 0x0
#define INPUT 0x01
#define OUTPUT 0x03
#define PULLUP 0x04
#define INPUT_PULLUP 0x05
#define PULLDOWN 0x08
#define INPUT_PULLDOWN 0x09
#define OPEN_DRAIN 0x10
#define OUTPUT_OPEN_DRAIN 0x13
#define LSBFIRST 0
#define MSBFIRST 1
#define IRAM_ATTR
#define RTC_DATA_ATTR

typedef uint8_t byte;
typedef bool boolean;

sim_ulong millis();
sim_ulong micros();
void delay(uint32_t ms);
void delayMicroseconds(uint32_t us);
void yield();
void pinMode(uint8_t pin, uint8_t mode);
void digitalWrite(uint8_t pin, uint8_t val);
int digitalRead(uint8_t pin);
uint16_t analogRead(uint8_t pin);
inline void analogReadResolution(uint8_t) {}
inline void analogSetAttenuation(int) {}
inline void analogSetPinAttenuation(uint8_t, int) {}
inline bool adcAttachPin(uint8_t) { return true; }
#define A0 36
#define A3 39
#define SERIAL_8N1 0x800001c
#define digitalPinIsValid(pin) ((pin) >= 0 && (pin) < 40)
#define bitRead(value, bit) (((value) >> (bit)) & 1)
#define bitSet(value, bit) ((value) |= (1UL << (bit)))
#define bitClear(value, bit) ((value) &= ~(1UL << (bit)))
#define lowByte(w) ((uint8_t)((w) & 0xff))
#define highByte(w) ((uint8_t)((w) >> 8))
#define constrain(amt, low, high) ((amt) < (low) ? (low) : ((amt) > (high) ? (high) : (amt)))

// FreeRTOS and the ESP-IDF timer, which the ESP32's Arduino core includes
typedef uint32_t TickType_t;
typedef int BaseType_t;
#define portTICK_PERIOD_MS ((TickType_t)1)
#define configTICK_RATE_HZ 1000
#define pdMS_TO_TICKS(ms) ((TickType_t)(ms))
#define portMAX_DELAY ((TickType_t)0xffffffffUL)
void vTaskDelay(TickType_t ticks);
TickType_t xTaskGetTickCount();
void taskYIELD_impl();
#define taskYIELD() taskYIELD_impl()
int64_t esp_timer_get_time();
typedef struct { uint32_t owner; uint32_t count; } portMUX_TYPE;
#define portMUX_INITIALIZER_UNLOCKED { 0, 0 }
void sim_critical(int enter);
#define portENTER_CRITICAL(m) ((void)(m), sim_critical(1))
#define portEXIT_CRITICAL(m) ((void)(m), sim_critical(0))
#define pdTRUE 1
#define pdFALSE 0
#define pdPASS 1
#define pdFAIL 0
typedef unsigned int UBaseType_t;
#include "hal/semaphores.h"
void sim_scheduler(int suspend);
#define vTaskSuspendAll() sim_scheduler(1)
#define xTaskResumeAll() (sim_scheduler(0), pdTRUE)
#define taskENTER_CRITICAL(m) portENTER_CRITICAL(m)
#define taskEXIT_CRITICAL(m) portEXIT_CRITICAL(m)
#define portYIELD() taskYIELD_impl()
void noInterrupts();
void interrupts();
