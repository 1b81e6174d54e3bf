// FreeRTOS's semaphores. The includer defines TickType_t and BaseType_t.
#pragma once
#include <cstdint>
struct sim_semaphore { uint32_t count, most, first, holders; int owner; };
typedef sim_semaphore* SemaphoreHandle_t;
typedef sim_semaphore StaticSemaphore_t;
extern "C" {
SemaphoreHandle_t sim_semaphore_create(StaticSemaphore_t* memory, uint32_t most, uint32_t first);
BaseType_t sim_semaphore_take(SemaphoreHandle_t s, TickType_t ticks, int recursive);
BaseType_t sim_semaphore_give(SemaphoreHandle_t s, int recursive);
void sim_semaphore_delete(SemaphoreHandle_t s);
}
#define uxSemaphoreGetCount(s) ((UBaseType_t)(s)->count)
#define xSemaphoreCreateCountingStatic(n, i, m) sim_semaphore_create(m, n, i)
#define xSemaphoreCreateMutex() sim_semaphore_create(nullptr, 1, 1)
#define xSemaphoreCreateMutexStatic(m) sim_semaphore_create(m, 1, 1)
#define xSemaphoreCreateRecursiveMutex() sim_semaphore_create(nullptr, 1, 1)
#define xSemaphoreCreateRecursiveMutexStatic(m) sim_semaphore_create(m, 1, 1)
#define xSemaphoreCreateBinary() sim_semaphore_create(nullptr, 1, 0)
#define xSemaphoreCreateBinaryStatic(m) sim_semaphore_create(m, 1, 0)
#define xSemaphoreCreateCounting(n, i) sim_semaphore_create(nullptr, n, i)
#define xSemaphoreTake(s, t) sim_semaphore_take(s, t, 0)
#define xSemaphoreGive(s) sim_semaphore_give(s, 0)
#define xSemaphoreTakeRecursive(s, t) sim_semaphore_take(s, t, 1)
#define xSemaphoreGiveRecursive(s) sim_semaphore_give(s, 1)
#define vSemaphoreDelete(s) sim_semaphore_delete(s)
