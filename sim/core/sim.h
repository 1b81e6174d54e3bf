// Deterministic simulation core: one tape of choices decides a run.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <functional>
#include <initializer_list>
#include <string>
#include <vector>

namespace sim
{
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;

// ------------------------------------------------------------------ choices
// The value 0 is always the simplest alternative (no fault, shortest, first).
u32 choose(u32 n);                       // 0 .. n-1
u32 range(u32 lo, u32 hi);               // lo .. hi, lo is the simplest
bool chance(u32 num, u32 den);           // true with num/den; false is the simplest
template<class T, size_t N>
const T &pick(const T (&a)[N]) { return a[choose(N)]; }
template<class T>
T pick(std::initializer_list<T> a) { return a.begin()[choose((u32)a.size())]; }
u64 mix(u64 a, u64 b);                   // hash, draws nothing
struct Span { Span(); ~Span(); };        // marks one removable step on the tape

// ------------------------------------------------------------------ log, statistics
void logf(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void fault(const char* kind);            // a fault of this kind fired
void probe(const char* name);            // a rare condition was reached
void state(u64 h);                       // an abstract state was visited
void hit_schedule(const char* kind);     // a scheduling decision other than the default
std::string hex(const void* p, size_t n, size_t max = 24);

// ------------------------------------------------------------------ oracles
bool focus(const char* prop);            // is this the property being checked?
const char* focus_id();
[[noreturn]] void violate(const char* code, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
// A violation of `prop`: ends the run if it is the focus, else does nothing.
void fail(const char* prop, const char* code, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
// Like fail, but a listed known finding of this key is only counted.
void finding(const char* prop, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
[[noreturn]] void discard(const char* why);  // ends the run without a verdict
void set_wrap_run();                     // the clock wraps in this run (see --confirm)

// ------------------------------------------------------------------ memory of the code under test
struct Block { u8* p; size_t n; };
u8* arena_alloc(size_t n, size_t misalign, u8 fill);   // guarded on both sides
void arena_set_readonly(u8* p);
void arena_watch(u8* p);                 // stores into this block are crash points
void arena_release_all();
void arena_keep_first(size_t blocks);    // releases all but the first ones
bool arena_contains(const void* p);
void stub_touch(const void* p, size_t n, bool write);  // a simulated driver accesses memory
void set_crash_after(u64 store_points);  // crash the current crashable task at that store
u64 store_points_seen();

// Within, nothing is drawn (every choice is the simplest), logged, delayed or limited in time.
struct Calm
{
    u64 steps, limit, guard, t0;
    Calm();
    void next();                         // before each call: the step limit starts anew
    ~Calm();
};

// Now and then the device has a busy past: it has made the same call some hundreds or tens of
// thousands of times before. Whatever counts the calls is about to wrap around.
template<class F>
void routine(const char* what, F call, u32 den = 150)
{
    if (!chance(1, den)) return;
    const u32 n = (chance(1, 12) ? 65536 : 256) - choose(8);
    probe("busy past");
    logf("%s %u times", what, n);
    Calm calm;
    for (u32 i = 0; i < n; ++i)
    {
        calm.next();
        call();
    }
}

// The code under test runs inside Cut; simulated vendor functions run inside Stub.
struct Cut { int old; Cut(); ~Cut(); };
struct Stub { int old; Stub(); ~Stub(); };

// Runs f in a fiber of its own. False if it was cut off by a crash point.
void reset_statics();            // the library's static variables, as at a start of the device
enum class Boot { Power, Soft, Wake };   // after loss of power, another reset, deep sleep
void reset_retained(Boot kind);  // those in memory that outlives some resets
bool run_crashable(const std::function<void()> &f);
[[noreturn]] void crash_here();          // from inside run_crashable: the device resets now
// A device of several tasks. boot() spawns them; a reset in one of them ends them all, puts the
// library's variables back and calls boot() again. Tasks spawned before are the outside world.
void run_device(const std::function<void()> &boot);
void device_reset();                     // by the outside world: the device loses power now
void device_off();                       // by the outside world: and is not switched on again

// ------------------------------------------------------------------ time
u64 now();                               // microseconds
void advance(u64 us);                    // time passes
void set_step_limit(u64 n);              // instrumented accesses allowed in the code under test
void reset_steps();
void set_time_guard(u64 t, const char* prop, const char* code, const char* what); // now() > t is a violation
void clear_time_guard();

// stalls: the caller is not scheduled for a while at some vendor call
void enable_stalls(u32 mean_calls, u64 max_us);
void disable_stalls();
void stall_at(u64 t, u64 us);            // one stall at the first vendor call from t on
void no_stall_at();
u64 stalled_total();
void vendor_call(u64 cost_us);           // every simulated vendor function passes here

// ------------------------------------------------------------------ tasks
int spawn(const char* name, std::function<void()> f);
void run_tasks();                        // until every task has finished
void yield_point(const char* where);     // may switch to another task
void set_instruction_preemption(u32 mean); // mean number of memory accesses of the code under test between switches
void set_preemption(u32 mean);           // mean number of yield points between switches, 0 = never
void wait_for_others();                  // the current task lets the others run
void critical_section(bool enter);       // no switches within
bool in_task();
int current_task();
// Blocks until pred() or the time; true if pred() holds. UINT64_MAX = no limit.
bool wait_until(u64 t, const std::function<bool()> &pred);
void set_event_source(std::function<u64()> next, std::function<void()> poll); // external events

// ------------------------------------------------------------------ scenarios
struct Scenario { const char* name; const char* props; void (*run)(); };
void register_scenario(const Scenario &s);
struct Registrar { Registrar(const char* n, const char* p, void (*r)()) { register_scenario({ n, p, r }); } };
bool thorough();
int main_driver(int argc, char** argv);
} // namespace sim

#define SIM_SCENARIO(name, props) \
    static void name##_run();     \
    static sim::Registrar name##_reg(#name, props, name##_run); \
    static void name##_run()
