// Included once, by the platform, which defines sim_semaphore_deadline.
#include <deque>
namespace hal
{
static std::deque<sim_semaphore> &allSemaphores() { static std::deque<sim_semaphore> d; return d; }
static u32 semaphoresUsed;
static void resetSemaphores()
{
    // those that were made before the first run belong to the library's static variables
    static const u32 early = semaphoresUsed;
    semaphoresUsed = early;
    for (u32 i = 0; i < early; ++i)
    {
        auto &m = allSemaphores()[i];
        m.count = m.first;
        m.owner = -1;
    }
}
}
using namespace hal;
extern "C"
{
SemaphoreHandle_t sim_semaphore_create(StaticSemaphore_t* memory, uint32_t most, uint32_t first)
{
    Stub s;
    if (!memory)
    {
        if (semaphoresUsed == allSemaphores().size()) allSemaphores().emplace_back();
        memory = &allSemaphores()[semaphoresUsed++];
    }
    *memory = { first, most, first, 0, -1 };
    return memory;
}
BaseType_t sim_semaphore_take(SemaphoreHandle_t h, TickType_t ticks, int recursive)
{
    Stub s;
    vendor_call(1);
    const int me = in_task() ? current_task() : -2;
    if (recursive && h->owner == me && h->count == 0) { ++h->holders; return pdTRUE; }
    const std::function<bool()> available = [h] { return h->count > 0; };
    if (!wait_until(ticks == portMAX_DELAY ? UINT64_MAX : sim_semaphore_deadline(ticks), available)) return pdFALSE;
    --h->count;
    h->owner = me;
    h->holders = 1;
    return pdTRUE;
}
BaseType_t sim_semaphore_give(SemaphoreHandle_t h, int recursive)
{
    Stub s;
    vendor_call(1);
    if (recursive && --h->holders) return pdTRUE;
    if (h->count >= h->most) return pdFALSE;
    ++h->count;
    h->owner = -1;
    return pdTRUE;
}
void sim_semaphore_delete(SemaphoreHandle_t) {}
}
