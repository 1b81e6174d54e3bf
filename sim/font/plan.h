// What the simulator tells a simulated execution of the font converter, and what it learns from it.
#pragma once
#include <cstdint>

namespace fontsim
{
enum Op : uint8_t
{
    OpenOut, WriteOut, CloseOut, NameOut, OpenFont, StatFont, MapFont, ReadFont, CloseFont, Alloc, Library, OpCount
};
inline const char* const opName[] = { "open-output", "write-output", "close-output", "rename-output", "open-font", "stat-font", "map-font", "read-font", "close-font", "alloc", "library-call" };

enum Act : uint8_t
{
    None, Error, Short, KillBefore, KillMid, KillAfter
};
inline const char* const actName[] = { "none", "error", "short", "kill-before", "kill-mid", "kill-after" };

struct Fault
{
    uint8_t op, act;
    uint8_t fired;
    int32_t err;        // errno of Error
    uint32_t first;     // index of the first operation of this kind that is hit
    uint32_t count;     // how many of them, 0 = all that follow
    uint32_t amount;    // Short, KillMid: per mille of the bytes that get through. Error of a close: per mille of the file that is lost.
};

struct Event { uint8_t op, act; int32_t err; uint32_t index; uint32_t bytes, done; };

struct Plan
{
    // in
    char font[256];
    uint32_t faults;
    Fault fault[8];
    uint64_t space;         // bytes the output device still takes
    uint8_t fill;           // what fresh memory contains
    uint8_t mapFails;       // the font cannot be mapped, only read
    uint64_t clock;         // microseconds since 1970 at the start
    uint64_t random;        // what random numbers come from
    uint32_t pid;
    uint8_t errorTexts;     // FreeType is a build that has texts for its errors
    // out
    uint32_t started, finished;
    uint32_t count[OpCount];
    uint32_t total;         // all operations except allocations
    uint32_t mapFailed, full, runaway;
    uint32_t toolchain;     // libstdc++ itself crashed on a failing allocation
    uint32_t events;
    Event event[512];
};
// What the process that forks the executions is asked for, in the same shared memory.
struct Request
{
    char dir[1024];
    uint32_t argc;
    uint32_t arg[64];       // where in text each argument starts
    char text[6000];
    uint64_t fileLimit;
    uint32_t cpuLimit, stdoutFull;
};
struct Shared { Plan plan; Request request; };
struct Reply { int32_t status; double cpu; };
}
