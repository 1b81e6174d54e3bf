#include <malloc.h>
#include <cerrno>
#include <pthread.h>
#include "sim.h"
#include "sim_rt.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_set>

extern "C" {
int simrt_cut = 0;
uint64_t simrt_steps = 0, simrt_step_limit = ~0ull;
uintptr_t simrt_arena = 0;
size_t simrt_arena_size = 0;
}

// Static variables of the code under test (see tools/build.py), put back before every run.
extern "C" {
extern char __start_repo_data[] __attribute__((weak)), __stop_repo_data[] __attribute__((weak));
extern char __start_repo_bss[] __attribute__((weak)), __stop_repo_bss[] __attribute__((weak));
// variables kept in memory that outlives some resets: initialised unless the device wakes from deep sleep;
// never initialised, kept over all resets but loss of power; the same, but lost in deep sleep
extern char __start_repo_keep_data[] __attribute__((weak)), __stop_repo_keep_data[] __attribute__((weak));
extern char __start_repo_keep_noinit[] __attribute__((weak)), __stop_repo_keep_noinit[] __attribute__((weak));
extern char __start_repo_keep_ram[] __attribute__((weak)), __stop_repo_keep_ram[] __attribute__((weak));
}

// ---------------------------------------------------------------- context switch
extern "C" void sim_switch(void** save, void* to);
asm(R"(
.text
.globl sim_switch
.type sim_switch,@function
sim_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size sim_switch,.-sim_switch
)");

namespace sim
{
namespace
{
struct Rng
{
    u64 s;
    u64 next()
    {
        u64 z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
};

constexpr size_t StackSize = 512 * 1024;
constexpr size_t GuardSize = 64 * 1024;
constexpr size_t ArenaSize = 2 * 1024 * 1024;

struct Fiber
{
    void* sp = nullptr;
    char* stack = nullptr;
    std::function<void()> fn;
    Fiber* parent = nullptr;
    bool done = false, crashed = false, crashable = false;
    bool task = false, device = false; // scheduled by run_tasks; part of a device that resets as a whole
    int cut = 0;
    const char* name = "";
    // scheduling
    bool blocked = false;
    u64 wake = 0;
    const std::function<bool()>* pred = nullptr;
    bool predResult = false;
    u64 readySince = 0;       // since when it could have run
    u64 waited = 0;           // how long it was ready and did not run, all together
};

struct Known { std::string prop, key, text; };

struct Run
{
    // choices
    bool replay = false;
    std::vector<u32> in;      // tape to replay
    std::vector<u32> tape;    // choices as made
    size_t pos = 0;
    Rng rng { 0 };
    std::vector<std::pair<u32, u32>> spans;
    // log
    u64 hash = 0xcbf29ce484222325ull;
    bool keep = false;
    std::string text;
    u64 events = 0;
    bool nontrivial = false;
    bool wrap = false;
    // verdict
    enum Verdict { Ok, Violation, Discarded } verdict = Ok;
    std::string code, message;
    std::vector<std::string> knownHits;
    // time
    u64 now = 0, guard = UINT64_MAX;
    const char* guardProp = ""; const char* guardCode = ""; const char* guardWhat = "";
    u32 stallMean = 0; u64 stallMax = 0, stalled = 0; u32 stallIn = 0;
    u64 stallAt = UINT64_MAX, stallFor = 0;
    u32 preemptMean = 0, preemptIn = 0;
    u32 instrMean = 0;               // preemption between instructions
    u32 critical = 0;                // critical sections entered: no switches
    std::function<void()> boot;      // starts the tasks of the device (see run_device)
    bool booting = false, resetNow = false;
    u32 calm = 0;                    // see Calm
    u64 stepLimit = ~0ull, preemptStep = ~0ull;
    u64 pollCost = 0;
    std::function<u64()> evNext;
    std::function<void()> evPoll;
    bool polling = false;
};

Run* R = nullptr;
volatile u64 runSerial = 0;     // of the runs, and of the calls in long ones
void* mainSp;
Fiber* cur = nullptr;       // running fiber
Fiber rootFiber;
std::vector<Fiber*> tasks;  // tasks of this run
std::vector<char*> stackPool;
std::vector<Fiber*> allFibers;
std::string focusProp;
bool isThorough = false;
std::vector<Known> knownList;
std::vector<Scenario>* scenarios;

struct Stats
{
    std::map<std::string, u64> faults, probes, schedules, discards, known;
    u64 runs = 0, nontrivialRuns = 0, simTime = 0, steps = 0, events = 0, choices = 0;
    std::unordered_set<u64> hashes, states;
} stats;

// ---- arena
struct ArenaBlock { size_t off, n; bool readonly, watched; };
ArenaBlock blocks[256];
size_t nBlocks;
size_t arenaTop;
std::vector<std::pair<size_t, size_t>> arenaDirty;
u64 storeCount, crashAt;

u32* tapeMirror;            // isolated runs: where the choices go as they are made
u32* tapeMirrorSize;

char* getStack()
{
    if (!stackPool.empty())
    {
        char* s = stackPool.back();
        stackPool.pop_back();
        return s;
    }
    char* p = (char*)mmap(nullptr, StackSize + GuardSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
    mprotect(p, GuardSize, PROT_NONE);
    return p + GuardSize;
}

[[noreturn]] void leaveRun()
{
    simrt_cut = 0;
    void* dummy;
    sim_switch(&dummy, mainSp);
    __builtin_unreachable();
}

void fiberEntry()
{
    Fiber* f = cur;
    try
    {
        f->fn();
    }
    catch (const std::exception &e)
    {
        violate("uncaught-exception", "uncaught exception: %s", e.what());
    }
    catch (...)
    {
        violate("uncaught-exception", "uncaught exception");
    }
    f->done = true;
    simrt_cut = 0;
    if (f == &rootFiber)
    {
        leaveRun();
    }
    Fiber* p = f->parent;
    cur = p;
    simrt_cut = p->cut;
    void* dummy;
    sim_switch(&dummy, p->sp);
    __builtin_unreachable();
}

void prepare(Fiber &f)
{
    if (!f.stack) f.stack = getStack();
    auto top = (uintptr_t)(f.stack + StackSize) & ~uintptr_t(15);
    auto sp = (void**)top;
    *--sp = nullptr;                  // alignment: at entry rsp % 16 == 8
    *--sp = (void*)fiberEntry;
    for (int i = 0; i < 6; ++i) *--sp = nullptr;
    f.sp = sp;
    f.done = f.crashed = f.blocked = false;
    f.cut = 0;
}

void switchTo(Fiber* to)
{
    Fiber* from = cur;
    from->cut = simrt_cut;
    cur = to;
    simrt_cut = to->cut;
    sim_switch(&from->sp, to->sp);
    // resumed: whoever switched here has set cur and simrt_cut
}

Fiber* newFiber(const char* name, std::function<void()> fn, Fiber* parent)
{
    auto f = new Fiber;
    f->name = name;
    f->fn = std::move(fn);
    f->parent = parent;
    prepare(*f);
    allFibers.push_back(f);
    return f;
}

void hashText(const char* s, size_t n)
{
    u64 h = R->hash;
    for (size_t i = 0; i < n; ++i) h = (h ^ (u8)s[i]) * 0x100000001b3ull;
    R->hash = h;
}

void vlog(const char* fmt, va_list ap)
{
    if (R->calm) return;
    char buf[600];
    int k = snprintf(buf, sizeof buf, "%9llu ", (unsigned long long)R->now);
    int n = vsnprintf(buf + k, sizeof buf - k - 2, fmt, ap);
    n = std::min<int>(k + n, sizeof buf - 2);
    buf[n++] = '\n';
    hashText(buf, n);
    ++R->events;
    if (R->keep && R->text.size() < 400000) R->text.append(buf, n);
}

const Known* isKnown(const char* prop, const char* key)
{
    for (auto &k: knownList) if (k.prop == prop && k.key == key) return &k;
    return nullptr;
}
} // namespace

// ---------------------------------------------------------------- choices
static u32 record(u32 v)
{
    if (tapeMirror && R->tape.size() < 200000)
    {
        tapeMirror[R->tape.size()] = v;
        *tapeMirrorSize = (u32)R->tape.size() + 1;
    }
    R->tape.push_back(v);
    return v;
}
u32 choose(u32 n)
{
    if (n <= 1 || R->calm) return 0;
    if (R->tape.size() > 200000) discard("too many choices");
    if (R->replay)
    {
        u32 v = R->pos < R->in.size() ? R->in[R->pos] : 0;
        ++R->pos;
        return record(v < n ? v : v % n);
    }
    return record((u32)(((R->rng.next() >> 32) * (u64)n) >> 32));
}
u32 range(u32 lo, u32 hi) { return hi <= lo ? lo : lo + choose(hi - lo + 1); }
bool chance(u32 num, u32 den)
{
    if (R->calm) return false;
    if (num == 0) return false;
    if (num >= den) return true;
    return choose(den) >= den - num;
}
u64 mix(u64 a, u64 b)
{
    Rng r { a * 0x9E3779B97F4A7C15ull ^ (b + 0x632BE59BD9B4E019ull) };
    r.next();
    return r.next();
}
static std::vector<u32> spanStack;
Span::Span() { spanStack.push_back((u32)R->tape.size()); }
Span::~Span()
{
    if (spanStack.empty()) return;
    R->spans.emplace_back(spanStack.back(), (u32)R->tape.size());
    spanStack.pop_back();
}

// ---------------------------------------------------------------- log
void logf(const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vlog(fmt, ap);
    va_end(ap);
}
std::string hex(const void* p, size_t n, size_t max)
{
    static const char d[] = "0123456789abcdef";
    std::string s;
    auto b = (const u8*)p;
    for (size_t i = 0; i < n && i < max; ++i)
    {
        s += d[b[i] >> 4];
        s += d[b[i] & 15];
    }
    if (n > max)
    {
        u64 h = 0xcbf29ce484222325ull;
        for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 0x100000001b3ull;
        char t[40];
        snprintf(t, sizeof t, "..#%08x", (u32)h);
        s += t;
    }
    return s;
}
void fault(const char* kind)
{
    if (R->calm) return;
    ++stats.faults[kind];
    R->nontrivial = true;
    logf("FAULT %s", kind);
}
void hit_schedule(const char* kind)
{
    ++stats.schedules[kind];
    R->nontrivial = true;
}
void probe(const char* name) { ++stats.probes[name]; }
void state(u64 h) { if (stats.states.size() < 400000) stats.states.insert(h); }

// ---------------------------------------------------------------- verdicts
bool focus(const char* prop) { return focusProp == prop; }
const char* focus_id() { return focusProp.c_str(); }
bool thorough() { return isThorough; }
void set_wrap_run() { R->wrap = true; }

static void vviolate(const char* code, const char* fmt, va_list ap)
{
    char buf[800];
    vsnprintf(buf, sizeof buf, fmt, ap);
    R->calm = 0;
    R->verdict = Run::Violation;
    R->code = code;
    R->message = buf;
    simrt_cut = 0;
    logf("VIOLATION %s %s: %s", focusProp.c_str(), code, buf);
    leaveRun();
}
void violate(const char* code, const char* fmt, ...)
{
    va_list ap;
    va_start(ap, fmt);
    vviolate(code, fmt, ap);
    va_end(ap);
    __builtin_unreachable();
}
void fail(const char* prop, const char* code, const char* fmt, ...)
{
    if (focusProp != prop) return;
    va_list ap;
    va_start(ap, fmt);
    vviolate(code, fmt, ap);
    va_end(ap);
}
void finding(const char* prop, const char* key, const char* fmt, ...)
{
    if (focusProp != prop) return;
    va_list ap;
    va_start(ap, fmt);
    if (isKnown(prop, key))
    {
        ++stats.known[key];
        R->knownHits.push_back(key);
        logf("known finding %s", key);
        va_end(ap);
        return;
    }
    vviolate(key, fmt, ap);
    va_end(ap);
}
void discard(const char* why)
{
    R->verdict = Run::Discarded;
    R->code = why;
    ++stats.discards[why];
    leaveRun();
}

// ---------------------------------------------------------------- arena
u8* arena_alloc(size_t n, size_t misalign, u8 fill)
{
    if (!simrt_arena)
    {
        void* p = mmap(nullptr, ArenaSize, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) { perror("mmap"); _exit(3); }
        simrt_arena = (uintptr_t)p;
        simrt_arena_size = ArenaSize;
    }
    const size_t gap = 4096;
    if (nBlocks == 0) arenaTop = 256 * 1024;
    size_t off = ((arenaTop + gap + 63) & ~size_t(63)) + (misalign & 63);
    if (off + n + 256 * 1024 > ArenaSize || nBlocks == 256) discard("arena exhausted");
    // Guard bytes are filled with a pattern so that damage done by simulated drivers shows.
    u8* p = (u8*)simrt_arena + off;
    memset(p, fill, n);
    blocks[nBlocks++] = { off, n, false, false };
    arenaTop = off + n;
    return p;
}
static ArenaBlock* blockOf(const void* p)
{
    size_t off = (uintptr_t)p - simrt_arena;
    for (size_t i = 0; i < nBlocks; ++i)
        if (off >= blocks[i].off && off <= blocks[i].off + blocks[i].n && (off < blocks[i].off + blocks[i].n || blocks[i].n == 0))
            return &blocks[i];
    return nullptr;
}
void arena_set_readonly(u8* p) { if (auto b = blockOf(p)) b->readonly = true; }
void arena_watch(u8* p) { if (auto b = blockOf(p)) b->watched = true; }
void arena_release_all() { nBlocks = 0; }
void arena_keep_first(size_t n)
{
    if (nBlocks > n) nBlocks = n;
    arenaTop = nBlocks ? blocks[nBlocks - 1].off + blocks[nBlocks - 1].n : 256 * 1024;
}
bool arena_contains(const void* p) { return (uintptr_t)p - simrt_arena < simrt_arena_size; }
void set_crash_after(u64 n)
{
    storeCount = 0;
    crashAt = n;
}
u64 store_points_seen() { return storeCount; }
void stub_touch(const void* p, size_t n, bool write)
{
    if (!n || !arena_contains(p)) return;
    simrt_access((uintptr_t)p - simrt_arena, n, write, 1);
}

Cut::Cut() : old(simrt_cut) { simrt_cut = 1; }
Cut::~Cut() { simrt_cut = old; }
Stub::Stub() : old(simrt_cut) { simrt_cut = 0; }
Stub::~Stub() { simrt_cut = old; }

} // namespace sim

using namespace sim;

namespace sim { static void toScheduler(); }
extern "C" void simrt_hang()
{
    if (R && R->instrMean && !R->calm && simrt_steps <= R->stepLimit)
    {
        R->preemptStep = simrt_steps + 1 + choose(2 * R->instrMean);
        simrt_step_limit = std::min(R->stepLimit, R->preemptStep);
        if (!in_task() || R->critical) return;
        hit_schedule("preempt between two memory accesses");
        toScheduler();
        return;
    }
    simrt_cut = 0;
    violate("hang", "the code under test does not terminate (%llu memory accesses)", (unsigned long long)simrt_step_limit);
}
// Initialisation of function-local statics: a task that finds another one at it waits for it.
namespace sim { static void switchToOthers(); }
extern "C" int __cxa_guard_acquire(uint8_t* g)
{
    if (g[0]) return 0;
    while (g[1])
    {
        if (!R || !in_task()) { simrt_cut = 0; violate("recursive-initialisation", "a static variable is initialised recursively"); }
        switchToOthers();
        if (g[0]) return 0;
    }
    g[1] = 1;
    return 1;
}
// A task that waits for a mutex leaves the processor to the one that holds it.
extern "C" int __real_pthread_mutex_lock(pthread_mutex_t* m);
extern "C" int __wrap_pthread_mutex_lock(pthread_mutex_t* m)
{
    if (!R || !simrt_cut) return __real_pthread_mutex_lock(m);
    Stub s;
    while (int rc = pthread_mutex_trylock(m))
    {
        if (rc != EBUSY) return rc;
        if (!in_task()) violate("deadlock", "the only task waits for a mutex it holds");
        switchToOthers();
    }
    return 0;
}
extern "C" void __cxa_guard_release(uint8_t* g) { g[0] = 1; g[1] = 0; }
extern "C" void __cxa_guard_abort(uint8_t* g) { g[1] = 0; }

extern "C" size_t simrt_access(uintptr_t off, size_t n, int write, int bytewise)
{
    for (size_t i = 0; i < nBlocks; ++i)
    {
        auto &b = blocks[i];
        if (off >= b.off && off + n <= b.off + b.n)
        {
            if (write && b.readonly)
            {
                simrt_cut = 0;
                violate("out-of-bounds", "write of %zu byte(s) at offset %zu of read-only memory of %zu bytes", n, off - b.off, b.n);
            }
            if (write && b.watched && cur && cur->crashable)
            {
                u64 points = bytewise ? n : 1;
                if (crashAt && storeCount + points >= crashAt)
                {
                    size_t k = crashAt - 1 - storeCount;   // stores done before the reset
                    storeCount = crashAt;
                    return bytewise ? k : 0;
                }
                storeCount += points;
            }
            return n;
        }
    }
    simrt_cut = 0;
    // nearest block for the message
    long best = -1;
    const ArenaBlock* nb = nullptr;
    for (size_t i = 0; i < nBlocks; ++i)
    {
        long d = std::labs((long)off - (long)blocks[i].off);
        if (!nb || d < best) { nb = &blocks[i]; best = d; }
    }
    violate("out-of-bounds", "%s of %zu byte(s) at offset %ld of memory of %zu bytes", write ? "write" : "read", n,
            nb ? (long)off - (long)nb->off : 0, nb ? nb->n : 0);
}
extern "C" void simrt_crash() { sim::crash_here(); }

namespace sim
{
void crash_here()
{
    Fiber* f = cur;
    while (f && !f->crashable) f = f->parent;
    if (!f) violate("harness-crash", "crash outside a crashable task");
    f->crashed = true;
    crashAt = 0;
    if (f->device)
    {
        R->resetNow = true;
        cur = &rootFiber;
        simrt_cut = 0;
        void* nowhere;
        sim_switch(&nowhere, rootFiber.sp);
        __builtin_unreachable();
    }
    Fiber* p = f->parent;
    cur = p;
    simrt_cut = p->cut;
    void* dummy;
    sim_switch(&dummy, p->sp);
    __builtin_unreachable();
}

// The library's static variables as they are when a device starts.
void reset_statics()
{
    static std::string data, bss;
    static bool have = false;
    char* d0 = __start_repo_data; char* d1 = __stop_repo_data;
    char* b0 = __start_repo_bss; char* b1 = __stop_repo_bss;
    if (!have)
    {
        have = true;
        if (d0) data.assign(d0, d1);
        if (b0) bss.assign(b0, b1);
        return;
    }
    if (d0) memcpy(d0, data.data(), data.size());
    if (b0) memcpy(b0, bss.data(), bss.size());
}
void reset_retained(Boot kind)
{
    static std::string data;
    static bool have = false;
    char* d0 = __start_repo_keep_data; char* d1 = __stop_repo_keep_data;
    if (!have)
    {
        have = true;
        if (d0) data.assign(d0, d1);
    }
    if (d0 && kind != Boot::Wake) memcpy(d0, data.data(), data.size());
    auto garbage = [](char* from, char* to) {
        if (!from || from == to) return;
        const u32 how = R ? choose(3) : 0;
        const u64 seed = how == 2 ? choose(1000) : 0;
        for (char* p = from; p != to; ++p) *p = how == 0 ? 0 : how == 1 ? (char)0xFF : (char)(mix(seed, (u64)(p - from)) >> 9);
    };
    if (kind == Boot::Power) garbage(__start_repo_keep_noinit, __stop_repo_keep_noinit);
    if (kind != Boot::Soft) garbage(__start_repo_keep_ram, __stop_repo_keep_ram);
}

bool run_crashable(const std::function<void()> &fn)
{
    Fiber* f = newFiber("device", fn, cur);
    f->crashable = true;
    switchTo(f);
    bool ok = !f->crashed;
    if (!ok) reset_statics();
    stackPool.push_back(f->stack);
    allFibers.erase(std::find(allFibers.begin(), allFibers.end(), f));
    delete f;
    return ok;
}

// ---------------------------------------------------------------- time
u64 now() { return R->now; }
static void pollEvents()
{
    if (R->polling || !R->evPoll) return;
    R->polling = true;
    R->evPoll();
    R->polling = false;
}
static constexpr u64 CalmLimit = 4000001;
void set_step_limit(u64 n)
{
    simrt_step_limit = n;
    simrt_steps = 0;
    R->stepLimit = n;
    ++runSerial;
    if (R->instrMean) set_instruction_preemption(R->instrMean);
}
void set_instruction_preemption(u32 mean)
{
    R->instrMean = mean;
    if (!mean) { simrt_step_limit = R->stepLimit; return; }
    R->preemptStep = simrt_steps + 1 + choose(2 * mean);
    simrt_step_limit = std::min(R->stepLimit, R->preemptStep);
}
Calm::Calm() : steps(simrt_steps), limit(simrt_step_limit), guard(R->guard), t0(R->now)
{
    R->guard = UINT64_MAX;
    ++R->calm;
    next();
}
void Calm::next()
{
    if (simrt_step_limit == CalmLimit) stats.steps += simrt_steps;
    ++runSerial;
    simrt_steps = 0;
    simrt_step_limit = CalmLimit;
}
Calm::~Calm()
{
    stats.steps += simrt_steps;
    simrt_steps = steps;
    simrt_step_limit = limit;
    --R->calm;
    if (guard != UINT64_MAX) R->guard = guard + (R->now - t0);
}
void reset_steps()
{
    stats.steps += simrt_steps;
    simrt_steps = 0;
}
void set_time_guard(u64 t, const char* prop, const char* code, const char* what)
{
    R->guard = t;
    R->guardProp = prop;
    R->guardCode = code;
    R->guardWhat = what;
}
void clear_time_guard() { R->guard = UINT64_MAX; }
void advance(u64 us)
{
    R->now += us;
    pollEvents();
    if (R->now > R->guard)
    {
        Stub s;
        auto g = R->guard;
        R->guard = UINT64_MAX;
        fail(R->guardProp, R->guardCode, "%s: still not returned at t=%llu us (limit %llu us)", R->guardWhat,
             (unsigned long long)R->now, (unsigned long long)g);
        discard("time guard of another property");
    }
}
void enable_stalls(u32 mean, u64 maxUs)
{
    R->stallMean = mean;
    R->stallMax = maxUs;
    R->stallIn = 1 + choose(2 * mean);
}
void disable_stalls() { R->stallMean = 0; }
// in a task also the time for which others had the processor
u64 stalled_total() { return R->stalled + (in_task() ? cur->waited : 0); }
void vendor_call(u64 cost)
{
    Stub s;
    if (cost) advance(cost);
    if (R->calm) return;
    if (R->now >= R->stallAt)
    {
        R->stallAt = UINT64_MAX;
        R->stalled += R->stallFor;
        fault("stall at a deadline");
        logf("stall %llu us", (unsigned long long)R->stallFor);
        if (R->guard != UINT64_MAX) R->guard += R->stallFor;
        advance(R->stallFor);
    }
    if (R->stallMean && --R->stallIn == 0)
    {
        R->stallIn = 1 + choose(2 * R->stallMean);
        // durations of all magnitudes
        u32 mag = choose(5);
        u64 lim = R->stallMax >> (3 * (4 - mag) / 2);
        u64 d = 1 + choose((u32)std::min<u64>(std::max<u64>(lim, 1), 0xFFFFFFF0u));
        R->stalled += d;
        fault("stall");
        logf("stall %llu us", (unsigned long long)d);
        // The stall allowance moves the limit too.
        if (R->guard != UINT64_MAX) R->guard += d;
        advance(d);
    }
    yield_point("vendor");
}
void stall_at(u64 t, u64 us)
{
    R->stallAt = t;
    R->stallFor = us;
}
void no_stall_at() { R->stallAt = UINT64_MAX; }
void set_event_source(std::function<u64()> next, std::function<void()> poll)
{
    R->evNext = std::move(next);
    R->evPoll = std::move(poll);
}

// ---------------------------------------------------------------- tasks
bool in_task() { return cur && cur->task; }
int current_task()
{
    for (size_t i = 0; i < tasks.size(); ++i) if (tasks[i] == cur) return (int)i;
    return -1;
}
int spawn(const char* name, std::function<void()> f)
{
    tasks.push_back(newFiber(name, std::move(f), &rootFiber));
    tasks.back()->task = true;
    if (R->booting || (cur && cur->device)) tasks.back()->device = tasks.back()->crashable = true;
    return (int)tasks.size() - 1;
}
void set_preemption(u32 mean)
{
    R->preemptMean = mean;
    R->preemptIn = mean ? 1 + choose(2 * mean) : 0;
}
static void toScheduler()
{
    Fiber* f = cur;
    f->cut = simrt_cut;
    f->readySince = R->now;
    cur = &rootFiber;
    simrt_cut = 0;
    sim_switch(&f->sp, rootFiber.sp);
}
static void switchToOthers() { advance(10); toScheduler(); }
void yield_point(const char*)
{
    if (!in_task() || !R->preemptMean || R->critical || R->calm) return;
    if (--R->preemptIn != 0) return;
    R->preemptIn = 1 + choose(2 * R->preemptMean);
    hit_schedule("preempt");
    toScheduler();
}
void wait_for_others() { switchToOthers(); }
// The tasks of the device are gone, without unwinding; it starts again unless it is off.
static void bootDevice()
{
    R->resetNow = false;
    R->critical = 0;
    crashAt = 0;
    for (size_t i = 0; i < tasks.size();)
    {
        auto t = tasks[i];
        if (!t->device) { ++i; continue; }
        stackPool.push_back(t->stack);
        allFibers.erase(std::find(allFibers.begin(), allFibers.end(), t));
        delete t;
        tasks.erase(tasks.begin() + i);
    }
    reset_statics();
    if (!R->boot) return;
    R->booting = true;
    R->boot();
    R->booting = false;
}
void run_device(const std::function<void()> &boot)
{
    R->boot = boot;
    bootDevice();
    run_tasks();
    R->boot = nullptr;
}
void device_reset()
{
    R->resetNow = true;
    toScheduler();
}
void device_off()
{
    R->boot = nullptr;
    device_reset();
}
void critical_section(bool enter)
{
    if (enter) ++R->critical;
    else if (R->critical) --R->critical;
}
void run_tasks()
{
    int last = -1;
    for (u64 n = 0;; ++n)
    {
        if (n > 200000) violate("livelock", "tasks do not finish");
        pollEvents();
        std::vector<int> ready;
        bool all = true;
        u64 wake = UINT64_MAX;
        for (int i = 0; i < (int)tasks.size(); ++i)
        {
            auto t = tasks[i];
            if (t->done) continue;
            all = false;
            if (t->blocked)
            {
                if (t->pred && *t->pred && (*t->pred)()) { t->predResult = true; ready.push_back(i); }
                else if (t->wake <= R->now) { t->predResult = false; ready.push_back(i); }
                else { wake = std::min(wake, t->wake); t->readySince = R->now; continue; }
                if (!(t->pred && t->predResult) && t->wake <= R->now) t->readySince = std::max(t->readySince, t->wake);
            }
            else ready.push_back(i);
        }
        if (all) break;
        if (ready.empty())
        {
            u64 ev = R->evNext ? R->evNext() : UINT64_MAX;
            u64 t = std::min(wake, ev);
            if (t == UINT64_MAX)
            {
                std::string w;
                for (auto t: tasks) if (!t->done) { w += t->name; w += ' '; }
                violate("deadlock", "tasks blocked for ever: %s", w.c_str());
            }
            advance(t > R->now ? t - R->now : 0);
            continue;
        }
        int k = ready[choose((u32)ready.size())];
        if (k != last) { logf("task %s runs", tasks[k]->name); last = k; }
        auto t = tasks[k];
        t->blocked = false;
        t->waited += R->now - std::min(R->now, t->readySince);
        switchTo(t);
        if (R->resetNow)
        {
            bootDevice();
            last = -1;
        }
    }
    for (auto t: tasks)
    {
        stackPool.push_back(t->stack);
        allFibers.erase(std::find(allFibers.begin(), allFibers.end(), t));
        delete t;
    }
    tasks.clear();
}
bool wait_until(u64 t, const std::function<bool()> &pred)
{
    Stub s;
    if (in_task())
    {
        for (;;)
        {
            if (pred && pred()) return true;
            if (R->now >= t) return false;
            cur->blocked = true;
            cur->wake = t;
            cur->pred = &pred;
            toScheduler();
            if (pred && pred()) return true;   // somebody may have been faster
        }
    }
    for (;;)
    {
        pollEvents();
        if (pred && pred()) return true;
        if (R->now >= t) return false;
        u64 n = t;
        if (R->evNext) n = std::min(n, R->evNext());
        if (n == UINT64_MAX) violate("blocked-forever", "a call waits for something that never happens");
        advance(n > R->now ? n - R->now : 0);
    }
}

// ---------------------------------------------------------------- driver
void register_scenario(const Scenario &s)
{
    if (!scenarios) scenarios = new std::vector<Scenario>;
    scenarios->push_back(s);
}

namespace
{
u64 lastSerialSeen = 0;
int sameSerialTicks = 0;

void onSegv(int sig)
{
    if (!R || !cur) _exit(3);
    simrt_cut = 0;
    const char* n = sig == SIGSEGV ? "SIGSEGV" : sig == SIGBUS ? "SIGBUS" : sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "SIGABRT";
    violate("crash", "the code under test crashed: %s", n);
}
void onCpu(int)
{
    if (!R || !cur) { sameSerialTicks = 0; return; }
    if (runSerial == lastSerialSeen)
    {
        if (++sameSerialTicks >= 6)
        {
            sameSerialTicks = 0;
            simrt_cut = 0;
            violate("hang", "the code under test does not terminate (CPU time)");
        }
    }
    else
    {
        lastSerialSeen = runSerial;
        sameSerialTicks = 0;
    }
}
void installHandlers()
{
    static char alt[65536];
    stack_t ss {};
    ss.ss_sp = alt;
    ss.ss_size = sizeof alt;
    sigaltstack(&ss, nullptr);
    struct sigaction sa {};
    sa.sa_handler = onSegv;
    sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s: { SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT }) sigaction(s, &sa, nullptr);
    sa.sa_handler = onCpu;
    sa.sa_flags = SA_NODEFER | SA_RESTART;
    sigaction(SIGVTALRM, &sa, nullptr);
    itimerval it {};
    it.it_interval.tv_sec = 1;
    it.it_value.tv_sec = 1;
    setitimer(ITIMER_VIRTUAL, &it, nullptr);
}

// Executes one run.
void executeHere(Run &run, const Scenario &sc)
{
    static const char* const slow = getenv("SIM_SLOW");       // report runs of more than so many seconds
    struct Watch
    {
        timespec a;
        Watch() { clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &a); }
        double s() const { timespec b; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &b); return double(b.tv_sec - a.tv_sec) + 1e-9 * double(b.tv_nsec - a.tv_nsec); }
    } watch;
    reset_statics();
    R = nullptr;
    reset_retained(Boot::Power);
    R = &run;
    ++runSerial;
    nBlocks = 0;
    crashAt = 0;
    storeCount = 0;
    simrt_cut = 0;
    simrt_steps = 0;
    simrt_step_limit = ~0ull;
    spanStack.clear();
    for (auto f: allFibers)
    {
        stackPool.push_back(f->stack);
        delete f;
    }
    allFibers.clear();
    tasks.clear();
    rootFiber.name = "root";
    rootFiber.fn = sc.run;
    rootFiber.parent = nullptr;
    prepare(rootFiber);
    cur = &rootFiber;
    sim_switch(&mainSp, rootFiber.sp);
    cur = nullptr;
    simrt_cut = 0;
    if (slow && watch.s() > atof(slow)) fprintf(stderr, "slow run: %.2f s, %zu choices\n", watch.s(), run.tape.size());
    stats.steps += simrt_steps;
    simrt_steps = 0;
    hashText((const char*)&run.verdict, sizeof run.verdict);
    hashText(run.code.data(), run.code.size());
    R = nullptr;
}

// The same in a process of its own, for code that destroys the process it runs in.
bool isolate = false;
struct Shared
{
    u64 hash, now, events;
    int verdict, wrap;
    u32 nTape, nText, nSpans;
    char code[200], message[900];
    u32 tape[200064];
    std::pair<u32, u32> spans[100000];
    char text[400100];
};
void execute(Run &run, const Scenario &sc)
{
    if (!isolate) return executeHere(run, sc);
    static Shared* sh = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    sh->verdict = -1;
    sh->nTape = sh->nText = sh->nSpans = 0;
    fflush(stdout);
    pid_t pid = fork();
    if (pid < 0) { perror("fork"); _exit(3); }
    if (pid == 0)
    {
        itimerval it {};
        it.it_interval.tv_sec = 1;
        it.it_value.tv_sec = 1;
        setitimer(ITIMER_VIRTUAL, &it, nullptr);
        alarm(60);
        tapeMirror = sh->tape;
        tapeMirrorSize = &sh->nTape;
        executeHere(run, sc);
        sh->hash = run.hash;
        sh->now = run.now;
        sh->events = run.events;
        sh->wrap = run.wrap;
        snprintf(sh->code, sizeof sh->code, "%s", run.code.c_str());
        snprintf(sh->message, sizeof sh->message, "%s", run.message.c_str());
        sh->nText = (u32)std::min<size_t>(run.text.size(), sizeof sh->text);
        memcpy(sh->text, run.text.data(), sh->nText);
        sh->nSpans = (u32)std::min<size_t>(run.spans.size(), 100000);
        std::copy(run.spans.begin(), run.spans.begin() + sh->nSpans, sh->spans);
        sh->verdict = run.verdict;
        _exit(0);
    }
    int st = 0;
    waitpid(pid, &st, 0);
    run.tape.assign(sh->tape, sh->tape + sh->nTape);
    if (sh->verdict < 0)
    {
        run.verdict = Run::Violation;
        run.code = "process-died";
        run.message = WIFSIGNALED(st) ? "the code under test destroyed its process (signal " + std::to_string(WTERMSIG(st)) + ")" : "the process ended";
        run.hash = 0;
        return;
    }
    run.hash = sh->hash;
    run.now = sh->now;
    run.events = sh->events;
    run.wrap = sh->wrap;
    run.verdict = (Run::Verdict)sh->verdict;
    run.code = sh->code;
    run.message = sh->message;
    run.text.assign(sh->text, sh->nText);
    run.spans.assign(sh->spans, sh->spans + sh->nSpans);
}

u64 seedOf(u64 seed, const std::string &sc, u64 i)
{
    u64 h = mix(seed, 0x5157);
    for (char c: sc) h = mix(h, (u8)c);
    for (char c: focusProp) h = mix(h, (u8)c);
    return mix(h, i);
}

struct Args
{
    std::map<std::string, std::string> m;
    std::string s(const char* k, const char* d = "") const { auto i = m.find(k); return i == m.end() ? d : i->second; }
    u64 n(const char* k, u64 d) const { auto i = m.find(k); return i == m.end() ? d : strtoull(i->second.c_str(), nullptr, 10); }
};

const Scenario* findScenario(const std::string &n)
{
    if (scenarios) for (auto &s: *scenarios) if (n == s.name) return &s;
    return nullptr;
}

void loadKnown(const std::string &path)
{
    std::ifstream f(path);
    std::string line;
    while (std::getline(f, line))
    {
        if (line.rfind("KNOWN ", 0) != 0) continue;
        auto get = [&](const char* k) {
            auto p = line.find(k);
            if (p == std::string::npos) return std::string();
            p += strlen(k);
            return line.substr(p, line.find(' ', p) - p);
        };
        auto t = line.find("what=");
        knownList.push_back({ get("property="), get("key="), t == std::string::npos ? "" : line.substr(t + 5) });
    }
}

std::string jesc(const std::string &s)
{
    std::string o;
    for (unsigned char c: s)
    {
        if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
        else if (c == '\n') o += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += (char)c;
    }
    return o;
}
std::string jmap(const std::map<std::string, u64> &m)
{
    std::string s = "{";
    for (auto &[k, v]: m) s += (s.size() > 1 ? "," : "") + ("\"" + jesc(k) + "\":" + std::to_string(v));
    return s + "}";
}

struct Minimiser
{
    const Scenario &sc;
    std::string code;
    std::vector<u32> best;
    std::vector<std::pair<u32, u32>> spans;
    u64 tries = 0;
    std::chrono::steady_clock::time_point until;

    bool attempt(const std::vector<u32> &t)
    {
        ++tries;
        Run r;
        r.replay = true;
        r.in = t;
        execute(r, sc);
        if (r.verdict != Run::Violation || r.code != code) return false;
        auto eff = r.tape;
        while (!eff.empty() && eff.back() == 0) eff.pop_back();
        if (eff.size() > best.size()) return false;
        if (eff.size() == best.size() && !(eff < best)) return false;
        best = eff;
        spans = r.spans;
        return true;
    }
    bool out() const { return tries > 6000 || std::chrono::steady_clock::now() > until; }
    void run()
    {
        bool progress = true;
        while (progress && !out())
        {
            progress = false;
            // whole steps, last first, large first
            for (size_t i = spans.size(); i-- > 0 && !out();)
            {
                if (i >= spans.size()) { i = spans.size(); continue; }
                auto [b, e] = spans[i];
                if (b >= best.size() || b >= e) continue;
                auto t = best;
                t.erase(t.begin() + b, t.begin() + std::min<size_t>(e, t.size()));
                if (attempt(t)) progress = true;
            }
            for (size_t len: { 16, 4, 2, 1 })
                for (size_t i = best.size(); i-- > 0 && !out();)
                {
                    if (i >= best.size()) { i = best.size(); continue; }
                    if (i + len > best.size()) continue;
                    auto t = best;
                    t.erase(t.begin() + i, t.begin() + i + len);
                    if (attempt(t)) progress = true;
                }
            for (size_t i = 0; i < best.size() && !out(); ++i)
            {
                if (best[i] == 0) continue;
                auto t = best;
                t[i] = 0;
                if (attempt(t)) { progress = true; continue; }
                for (u32 step = best.size() > i ? best[i] / 2 : 0; step > 0 && i < best.size() && !out(); step /= 2)
                {
                    while (i < best.size() && best[i] >= step && !out())
                    {
                        t = best;
                        t[i] -= step;
                        if (!attempt(t)) break;
                        progress = true;
                    }
                }
            }
        }
    }
};

int cmdReplay(const std::string &path, bool verbose)
{
    std::ifstream f(path);
    if (!f) { fprintf(stderr, "cannot read %s\n", path.c_str()); return 3; }
    std::string line, sc, code;
    u64 hash = 0;
    Run run;
    run.replay = true;
    run.keep = true;
    while (std::getline(f, line))
    {
        auto val = [&](const char* k) { return line.rfind(k, 0) == 0 ? line.substr(strlen(k)) : std::string(); };
        if (auto v = val("property="); !v.empty()) focusProp = v;
        if (auto v = val("scenario="); !v.empty()) sc = v;
        if (auto v = val("code="); !v.empty()) code = v;
        if (auto v = val("thorough="); !v.empty()) isThorough = v == "1";
        if (auto v = val("hash="); !v.empty()) hash = strtoull(v.c_str(), nullptr, 16);
        if (line.rfind("tape=", 0) == 0)
        {
            std::istringstream s(line.substr(5));
            u32 x;
            while (s >> x) run.in.push_back(x);
        }
        if (line == "trace:") break;
    }
    auto s = findScenario(sc);
    if (!s) { fprintf(stderr, "no scenario %s\n", sc.c_str()); return 3; }
    isolate = true;
    execute(run, *s);
    if (verbose) fputs(run.text.c_str(), stdout);
    if (run.verdict == Run::Violation)
    {
        printf("REPLAY %s code=%s hash=%016llx: %s\n", run.code == code && run.hash == hash ? "reproduced" : "DIFFERENT",
               run.code.c_str(), (unsigned long long)run.hash, run.message.c_str());
        return run.code == code && run.hash == hash ? 1 : 3;
    }
    printf("REPLAY no violation\n");
    return 0;
}

int cmdRun(const Args &a)
{
    auto sc = findScenario(a.s("scenario"));
    if (!sc) { fprintf(stderr, "no scenario '%s'\n", a.s("scenario").c_str()); return 3; }
    focusProp = a.s("prop");
    isThorough = a.s("tier") == "thorough";
    const u64 seed = a.n("seed", 1), start = a.n("start", 0), stride = a.n("stride", 1), count = a.n("count", 1000);
    const double limit = (double)a.n("time-limit", 600);
    const std::string out = a.s("out"), replayDir = a.s("replay-dir", "."), confirm = a.s("confirm"), tag = a.s("tag", "sim");
    const u64 hashesFor = a.n("hashes", 0);
    isolate = a.n("isolate", 0);
    auto t0 = std::chrono::steady_clock::now();
    auto elapsed = [&] { return std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count(); };
    std::vector<std::string> samples;
    int rc = 0;
    std::string violationPath, violationText;
    u64 unconfirmed = 0;
    u64 samplesWanted = start == 0 ? 2 : 0;
    for (u64 k = 0; k < count; ++k)
    {
        const u64 i = start + k * stride;
        Run run;
        run.rng.s = seedOf(seed, sc->name, i);
        const u64 runSeed = run.rng.s;
        run.keep = samples.size() < samplesWanted;
        execute(run, *sc);
        ++stats.runs;
        stats.simTime += run.now;
        stats.events += run.events;
        stats.choices += run.tape.size();
        if (run.nontrivial)
        {
            ++stats.nontrivialRuns;
            stats.hashes.insert(run.hash);
        }
        if (hashesFor) printf("H %llu %016llx\n", (unsigned long long)i, (unsigned long long)run.hash);
        if (run.keep && run.nontrivial && run.verdict == Run::Ok && run.text.size() < 6000)
            samples.push_back("run " + std::to_string(i) + "\n" + run.text);
        if (run.verdict == Run::Violation)
        {
            // The same seed again must do exactly the same.
            Run again;
            again.rng.s = runSeed;
            execute(again, *sc);
            if (again.hash != run.hash || again.verdict != run.verdict || again.code != run.code)
            {
                fprintf(stderr, "NONDETERMINISTIC run %llu: %s / %s\n", (unsigned long long)i, run.code.c_str(), again.code.c_str());
                rc = 3;
                break;
            }
            if (run.wrap && !confirm.empty())
            {
                char cmd[1200];
                snprintf(cmd, sizeof cmd, "%s run --scenario %s --prop %s --tier %s --seed %llu --start %llu --count 1 --time-limit 60 --one 1 --known %s >/dev/null 2>&1",
                         confirm.c_str(), sc->name, focusProp.c_str(), isThorough ? "thorough" : "quick", (unsigned long long)seed,
                         (unsigned long long)i, a.s("known").c_str());
                int st = system(cmd);
                if (WEXITSTATUS(st) == 0) { ++unconfirmed; continue; }
                if (WEXITSTATUS(st) != 1) { fprintf(stderr, "confirming run failed: %d\n", st); rc = 3; break; }
            }
            if (a.n("one", 0)) return 1;
            Minimiser m { *sc, run.code, run.tape, run.spans, 0, std::chrono::steady_clock::now() + std::chrono::seconds(a.n("min-time", 20)) };
            m.run();
            Run fin;
            fin.replay = true;
            fin.in = m.best;
            fin.keep = true;
            execute(fin, *sc);
            if (fin.verdict != Run::Violation || fin.code != run.code)
            {
                fprintf(stderr, "NONDETERMINISTIC minimised run %llu\n", (unsigned long long)i);
                rc = 3;
                break;
            }
            char name[600];
            snprintf(name, sizeof name, "%s/%s-%s-%s-%016llx.replay", replayDir.c_str(), focusProp.c_str(), tag.c_str(), run.code.c_str(), (unsigned long long)fin.hash);
            // written aside and renamed: another worker may be writing the same file, or be killed meanwhile
            std::string aside = std::string(name) + "." + std::to_string(getpid());
            std::ofstream o(aside);
            o << "property=" << focusProp << "\nbinary=" << tag << "\nscenario=" << sc->name << "\ncode=" << run.code << "\nmessage=" << fin.message
              << "\nseed=" << seed << "\nrun=" << i << "\nthorough=" << isThorough << "\noriginal_choices=" << run.tape.size() << "\nminimised_choices=" << m.best.size()
              << "\nminimiser_runs=" << m.tries;
            char h[32];
            snprintf(h, sizeof h, "%016llx", (unsigned long long)fin.hash);
            o << "\nhash=" << h << "\ntape=";
            for (auto v: m.best) o << v << ' ';
            o << "\ntrace:\n" << fin.text;
            o.close();
            rename(aside.c_str(), name);
            violationPath = name;
            violationText = run.code + ": " + fin.message;
            rc = 1;
            break;
        }
        if (elapsed() > limit) break;
    }
    if (!out.empty())
    {
        auto dump = [&](const std::unordered_set<u64> &s, const char* ext) {
            std::ofstream b(out + ext + ".part", std::ios::binary);
            for (u64 h: s) b.write((const char*)&h, 8);
            b.close();
            rename((out + ext + ".part").c_str(), (out + ext).c_str());
        };
        dump(stats.hashes, ".hashes");
        dump(stats.states, ".states");
        std::ofstream o(out + ".json.part");
        o << "{\"runs\":" << stats.runs << ",\"nontrivial\":" << stats.nontrivialRuns << ",\"sim_us\":" << stats.simTime << ",\"steps\":" << stats.steps
          << ",\"events\":" << stats.events << ",\"choices\":" << stats.choices << ",\"wall\":" << elapsed()
          << ",\"unconfirmed\":" << unconfirmed
          << ",\"faults\":" << jmap(stats.faults) << ",\"probes\":" << jmap(stats.probes) << ",\"schedules\":" << jmap(stats.schedules)
          << ",\"discards\":" << jmap(stats.discards) << ",\"known\":" << jmap(stats.known) << ",\"violation\":\"" << jesc(violationPath) << "\",\"violation_text\":\"" << jesc(violationText)
          << "\",\"samples\":[";
        for (size_t i = 0; i < samples.size(); ++i) o << (i ? "," : "") << '"' << jesc(samples[i]) << '"';
        o << "]}\n";
        o.close();
        rename((out + ".json.part").c_str(), (out + ".json").c_str());
    }
    if (rc == 1) printf("FOUND %s %s\n", violationPath.c_str(), violationText.c_str());
    return rc;
}
} // namespace

int main_driver(int argc, char** argv)
{
    mallopt(M_PERTURB, 0x5A);       // memory nobody has written to has the same contents in every run
    setvbuf(stdout, nullptr, _IOLBF, 1 << 16);
    installHandlers();
    Args a;
    for (int i = 2; i + 1 < argc; ++i)
        if (strncmp(argv[i], "--", 2) == 0) { a.m[argv[i] + 2] = argv[i + 1]; ++i; }
    std::string cmd = argc > 1 ? argv[1] : "";
    if (!a.s("known").empty()) loadKnown(a.s("known"));
    if (cmd == "run") return cmdRun(a);
    if (cmd == "replay" && argc > 2)
    {
        Args b;
        for (int i = 3; i + 1 < argc; ++i) if (strncmp(argv[i], "--", 2) == 0) b.m[argv[i] + 2] = argv[i + 1];
        if (!b.s("known").empty()) loadKnown(b.s("known"));
        return cmdReplay(argv[2], b.s("verbose") == "1");
    }
    if (cmd == "list")
    {
        if (scenarios) for (auto &s: *scenarios) printf("%s: %s\n", s.name, s.props);
        return 0;
    }
    fprintf(stderr, "usage: %s run|replay|list ...\n", argv[0]);
    return 2;
}
} // namespace sim
