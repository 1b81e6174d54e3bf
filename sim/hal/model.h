// What lies behind the vendor APIs: clock, faults, UART line. Shared by both platforms.
#pragma once
#include "core/sim.h"
#include <deque>
#include <functional>
#include <string>
#include <vector>

namespace hal
{
using namespace sim;

// ---- faults of vendor functions
struct FaultPlan
{
    u32 num = 0, den = 1;                // chance of a fault per opportunity
    bool enabled = true;
    std::function<bool(const char*)> filter; // which functions may fail; all if empty
    u64 fired = 0;
    std::string last;
};
extern FaultPlan faults;
bool fails(const char* function);        // draws; logs and counts a fault
struct NoFaults { bool old; NoFaults() : old(faults.enabled) { faults.enabled = false; } ~NoFaults() { faults.enabled = old; } };

// ---- clock: the device's counters are now() + bootOffset
extern u64 bootOffset;
extern bool wrapRun;                     // the counters wrap in this run
u64 device_us();
void clock_read();                       // costs of looking at the clock in a loop
void poll_cost(bool useful);             // costs of polling something in a loop
void clear_poll();

// ---- one UART port: the line, the driver's buffers
struct Uart
{
    // receive side
    struct Arrival { u64 t; u8 b; };
    std::deque<Arrival> coming;          // what the peer will send
    std::vector<u8> delivered;           // everything that reached the driver's buffer, ever
    std::vector<u64> deliveredAt;
    size_t consumed = 0;                 // how much of it was read (or thrown away)
    size_t discarded = 0;                // how much was thrown away by flushing
    size_t capacity = 1u << 20;          // of the driver's receive buffer
    u64 errors = 0;                      // reads answered with an error
    bool chunkTimeout = false;           // the driver's time-out starts anew with every chunk it hands over
    // transmit side
    struct Sent { u8 b; u64 left; };
    std::vector<Sent> line;              // bytes put on the line and when they have left it
    u64 txIdle = 0;                      // when the last of them has left
    u64 byteTime = 87;                   // us per byte
    u32 held = 0;                        // chance in 16 that flow control holds the line during a send
    u64 accepted = 0;                    // total bytes the driver said it accepted
    std::vector<u64> acceptedPerCall;
    std::vector<std::vector<u8>> offered; // data of each write call
    size_t fifo = 128;

    void poll();
    u64 next() const;
    size_t available() const { return delivered.size() - consumed; }
    u64 lastPop = 0;
    u8 pop() { lastPop = now(); return delivered[consumed++]; }
    void discard();
    // Puts n bytes on the line behind what is there; returns when there is room for the last one in the FIFO.
    void put(const u8* p, size_t n);
    bool idle() const { return now() >= txIdle; }
};
extern Uart uart[3];

void reset_all();                        // a new run
void reset_platform();                   // provided by the platform
} // namespace hal
