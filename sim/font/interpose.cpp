// The system as the font converter sees it. Every operation on the font file, on output files and on the
// heap passes here, inside the converter itself and inside libstdc++ and FreeType. Without a plan all of it
// goes straight to the C library.
#include "plan.h"
#include <malloc.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <fcntl.h>
#include <string>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <sys/sendfile.h>
#include <sys/time.h>
#include <ctime>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <ucontext.h>
#include <unistd.h>

#include <freetype/freetype.h>
#include <freetype/ftglyph.h>

#include "sim.h"

using namespace fontsim;

namespace
{
Plan* P = nullptr;
int busy = 0;                         // the simulator's own work
int inLibrary = 0;                    // FreeType is running
enum Class : uint8_t { Other, Font, Out };
Class cls[1024];

struct Busy { Busy() { ++busy; } ~Busy() { --busy; } };

template<class F>
F next(F &f, const char* name)
{
    if (!f) { Busy b; f = (F)dlsym(RTLD_NEXT, name); }
    return f;
}

[[noreturn]] void die()
{
    // straight to the kernel: nothing of the process gets to run any more
    syscall(SYS_kill, syscall(SYS_getpid), SIGKILL);
    for (;;) { }
}

Fault* due(Op op, uint32_t index)
{
    for (uint32_t i = 0; i < P->faults; ++i)
    {
        auto &f = P->fault[i];
        if (f.op == op && index >= f.first && (f.count == 0 || index - f.first < f.count)) return &f;
    }
    return nullptr;
}
void note(Op op, uint8_t act, int err, uint32_t index, size_t bytes, size_t done)
{
    if (op == Alloc && act == None) return;
    if (P->events < 512) P->event[P->events++] = { op, act, err, index, (uint32_t)bytes, (uint32_t)done };
}
// Before an operation: what happens to it.
Fault* arrive(Op op, uint32_t &index)
{
    index = P->count[op]++;
    if (op != Alloc && ++P->total > 20000)
    {
        // undisturbed executions need some hundreds
        P->runaway = 1;
        die();
    }
    auto f = due(op, index);
    if (f)
    {
        f->fired = 1;
        if (f->act == KillBefore) { note(op, KillBefore, 0, index, 0, 0); die(); }
    }
    return f;
}
void leave(Op op, Fault* f, uint32_t index)
{
    if (f && f->act == KillAfter) { note(op, KillAfter, 0, index, 0, 0); die(); }
}
bool active() { return P && !busy; }

template<class F>
int library(F real)
{
    if (!active() || inLibrary)
    {
        ++inLibrary;
        const int r = real();
        --inLibrary;
        return r;
    }
    uint32_t i;
    auto f = arrive(Library, i);
    if (f && f->act == Error)
    {
        note(Library, Error, f->err, i, 0, 0);
        return f->err;
    }
    ++inLibrary;
    const int r = real();
    --inLibrary;
    if (r) note(Library, None, r, i, 0, 0);
    leave(Library, f, i);
    return r;
}

Class classOf(int fd) { return fd >= 0 && fd < 1024 ? cls[fd] : Other; }

bool output(int flags) { return (flags & O_ACCMODE) != O_RDONLY || (flags & O_CREAT); }
Class classify(const char* path, int flags)
{
    if (output(flags)) return Out;
    return strcmp(path, P->font) == 0 ? Font : Other;
}

// ---- opening: r is the descriptor or -1
template<class F>
int opening(const char* path, int flags, F real)
{
    const Class c = classify(path, flags);
    if (c == Other) return real();
    const Op op = c == Font ? OpenFont : OpenOut;
    uint32_t i;
    auto f = arrive(op, i);
    int r;
    if (f && f->act == Error)
    {
        r = -1;
        errno = f->err;
    }
    else
    {
        r = real();
        if (r >= 0 && r < 1024) cls[r] = c;
    }
    const int e = errno;
    note(op, f ? f->act : None, r < 0 ? e : 0, i, 0, 0);
    leave(op, f, i);
    errno = e;
    return r;
}

// ---- writing
template<class F>
ssize_t writing(size_t n, F real)
{
    uint32_t i;
    auto f = arrive(WriteOut, i);
    if (f && f->act == Error)
    {
        note(WriteOut, Error, f->err, i, n, 0);
        errno = f->err;
        return -1;
    }
    size_t k = n;
    if (f && (f->act == Short || f->act == KillMid))
    {
        k = (size_t)((uint64_t)n * f->amount / 1000);
        if (f->act == Short && k == 0 && n) k = 1;
    }
    const bool limited = k > P->space;
    if (limited)
    {
        P->full = 1;
        k = (size_t)P->space;
    }
    if (limited && k == 0)
    {
        note(WriteOut, Error, ENOSPC, i, n, 0);
        errno = ENOSPC;
        return -1;
    }
    ssize_t r = k ? real(k) : 0;
    const int e = errno;
    if (r > 0 && P->space != UINT64_MAX) P->space -= (uint64_t)r;
    note(WriteOut, f ? f->act : limited ? Short : None, r < 0 ? e : 0, i, n, r > 0 ? (size_t)r : 0);
    if (f && f->act == KillMid) die();
    leave(WriteOut, f, i);
    errno = e;
    return r;
}

// ---- closing: the error of a delayed write shows here, what was not written by then is lost
void loseTail(int fd, uint32_t perMille)
{
    struct stat st;
    if (fstat(fd, &st) != 0 || !S_ISREG(st.st_mode)) return;
    off_t lost = (off_t)((uint64_t)st.st_size * perMille / 1000);
    if (lost == 0 && st.st_size > 0 && perMille) lost = 1;
    if (ftruncate(fd, st.st_size - lost) != 0) { }
}
template<class F>
int closing(int fd, F real)
{
    const Class c = classOf(fd);
    if (c == Other) return real();
    const Op op = c == Font ? CloseFont : CloseOut;
    uint32_t i;
    auto f = arrive(op, i);
    cls[fd] = Other;
    if (f && f->act == Error)
    {
        Busy b;
        if (c == Out) loseTail(fd, f->amount);
        real();
        note(op, Error, f->err, i, 0, 0);
        errno = f->err;
        return -1;
    }
    int r = real();
    const int e = errno;
    note(op, f ? f->act : None, r ? e : 0, i, 0, 0);
    leave(op, f, i);
    errno = e;
    return r;
}

template<class F>
int naming(F real)
{
    uint32_t i;
    auto f = arrive(NameOut, i);
    if (f && f->act == Error)
    {
        note(NameOut, Error, f->err, i, 0, 0);
        errno = f->err;
        return -1;
    }
    int r = real();
    const int e = errno;
    note(NameOut, f ? f->act : None, r ? e : 0, i, 0, 0);
    leave(NameOut, f, i);
    errno = e;
    return r;
}

// ---- reading the font
template<class F>
ssize_t reading(size_t n, F real)
{
    uint32_t i;
    auto f = arrive(ReadFont, i);
    if (f && f->act == Error)
    {
        note(ReadFont, Error, f->err, i, n, 0);
        if (f->err == 0) return 0;     // the file ends early
        errno = f->err;
        return -1;
    }
    size_t k = n;
    if (f && f->act == Short)
    {
        k = (size_t)((uint64_t)n * f->amount / 1000);
        if (k == 0 && n) k = 1;
    }
    ssize_t r = real(k);
    const int e = errno;
    note(ReadFont, f ? f->act : None, r < 0 ? e : 0, i, n, r > 0 ? (size_t)r : 0);
    leave(ReadFont, f, i);
    errno = e;
    return r;
}
template<class F>
int stating(F real)
{
    uint32_t i;
    auto f = arrive(StatFont, i);
    if (f && f->act == Error)
    {
        note(StatFont, Error, f->err, i, 0, 0);
        errno = f->err;
        return -1;
    }
    int r = real();
    leave(StatFont, f, i);
    return r;
}
bool allocFails()
{
    // FreeType 2.13 dies of some failing allocations by itself, so shortage inside it shows as its error codes (Library)
    if (inLibrary) return false;
    uint32_t i;
    auto f = arrive(Alloc, i);
    if (f && f->act == Error)
    {
        note(Alloc, Error, ENOMEM, i, 0, 0);
        errno = ENOMEM;
        return true;
    }
    return false;
}
}

extern "C" {
void* __libc_malloc(size_t);
void* __libc_calloc(size_t, size_t);
void* __libc_realloc(void*, size_t);
void __libc_free(void*);
void* __libc_memalign(size_t, size_t);

void* malloc(size_t n)
{
    if (active() && allocFails()) return nullptr;
    void* p = __libc_malloc(n);
    if (P && p) memset(p, P->fill, n);
    return p;
}
void* calloc(size_t a, size_t b)
{
    if (active() && allocFails()) return nullptr;
    return __libc_calloc(a, b);
}
void* realloc(void* p, size_t n)
{
    if (active() && n && allocFails()) return nullptr;
    return __libc_realloc(p, n);
}
void free(void* p) { __libc_free(p); }
void* aligned_alloc(size_t a, size_t n)
{
    if (active() && allocFails()) return nullptr;
    return __libc_memalign(a, n);
}
int posix_memalign(void** r, size_t a, size_t n)
{
    if (active() && allocFails()) return ENOMEM;
    *r = __libc_memalign(a, n);
    return *r ? 0 : ENOMEM;
}

#define MODE mode_t m = 0; if (fl & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, fl); m = (mode_t)va_arg(a, int); va_end(a); }
int open(const char* p, int fl, ...)
{
    MODE
    static int (*real)(const char*, int, ...);
    next(real, "open");
    return active() ? opening(p, fl, [&] { return real(p, fl, m); }) : real(p, fl, m);
}
int open64(const char* p, int fl, ...)
{
    MODE
    static int (*real)(const char*, int, ...);
    next(real, "open64");
    return active() ? opening(p, fl, [&] { return real(p, fl, m); }) : real(p, fl, m);
}
int openat(int d, const char* p, int fl, ...)
{
    MODE
    static int (*real)(int, const char*, int, ...);
    next(real, "openat");
    return active() ? opening(p, fl, [&] { return real(d, p, fl, m); }) : real(d, p, fl, m);
}
int creat(const char* p, mode_t m) { return open(p, O_WRONLY | O_CREAT | O_TRUNC, m); }
static int flagsOf(const char* mode)
{
    const bool plus = strchr(mode, '+');
    if (mode[0] == 'r') return plus ? O_RDWR : O_RDONLY;
    return (plus ? O_RDWR : O_WRONLY) | O_CREAT | (mode[0] == 'a' ? O_APPEND : O_TRUNC);
}
// Streams of the C library write with calls of their own; those on fonts and outputs are led here.
static int cookieFd(void* c) { return (int)(intptr_t)c - 1; }
static FILE* cookies[64];
static int cookieFds[64];
static FILE* streamOn(int fd, const char* mode)
{
    cookie_io_functions_t io {};
    io.read = [](void* c, char* b, size_t n) -> ssize_t { return read(cookieFd(c), b, n); };
    io.write = [](void* c, const char* b, size_t n) -> ssize_t {
        const ssize_t r = write(cookieFd(c), b, n);
        return r < 0 ? 0 : r;
    };
    io.seek = [](void* c, off64_t* o, int w) -> int {
        const off64_t r = lseek64(cookieFd(c), *o, w);
        if (r < 0) return -1;
        *o = r;
        return 0;
    };
    io.close = [](void* c) -> int { return close(cookieFd(c)); };
    FILE* f = fopencookie((void*)(intptr_t)(fd + 1), mode, io);
    for (int i = 0; f && i < 64; ++i)
        if (!cookies[i]) { cookies[i] = f; cookieFds[i] = fd; break; }
    return f;
}
static FILE* fopening(const char* p, const char* mode, FILE* (*real)(const char*, const char*))
{
    if (!active() || classify(p, flagsOf(mode)) == Other) return real(p, mode);
    const int fd = open(p, flagsOf(mode), 0666);
    if (fd < 0) return nullptr;
    FILE* f = streamOn(fd, mode);
    if (!f) close(fd);
    return f;
}
FILE* fopen(const char* p, const char* mode)
{
    static FILE* (*real)(const char*, const char*);
    return fopening(p, mode, next(real, "fopen"));
}
FILE* fopen64(const char* p, const char* mode)
{
    static FILE* (*real)(const char*, const char*);
    return fopening(p, mode, next(real, "fopen64"));
}
FILE* fdopen(int fd, const char* mode) noexcept
{
    static FILE* (*real)(int, const char*);
    next(real, "fdopen");
    return active() && classOf(fd) != Other ? streamOn(fd, mode) : real(fd, mode);
}
int fileno(FILE* f) noexcept
{
    static int (*real)(FILE*);
    next(real, "fileno");
    for (int i = 0; i < 64; ++i) if (cookies[i] && cookies[i] == f) return cookieFds[i];
    return real(f);
}
int fclose(FILE* f)
{
    static int (*real)(FILE*);
    next(real, "fclose");
    for (auto &c: cookies) if (c == f) c = nullptr;
    return real(f);
}
ssize_t sendfile(int, int, off_t*, size_t) noexcept { errno = EINVAL; return -1; }   // every copy goes through read and write
ssize_t sendfile64(int, int, off64_t*, size_t) noexcept { errno = EINVAL; return -1; }
ssize_t copy_file_range(int, off64_t*, int, off64_t*, size_t, unsigned) { errno = EINVAL; return -1; }

// ---- the clock, process numbers and randomness are the simulator's
static uint64_t drawn()
{
    P->random += 0x9E3779B97F4A7C15ull;
    uint64_t z = P->random;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static uint64_t clockNow() { return P->clock += 37; }
int clock_gettime(clockid_t id, timespec* t) noexcept
{
    static int (*real)(clockid_t, timespec*);
    next(real, "clock_gettime");
    if (!active()) return real(id, t);
    const uint64_t us = clockNow();
    t->tv_sec = (time_t)(us / 1000000);
    t->tv_nsec = (long)(us % 1000000 * 1000);
    return 0;
}
int gettimeofday(timeval* t, void* z) noexcept
{
    static int (*real)(timeval*, void*);
    next(real, "gettimeofday");
    if (!active()) return real(t, z);
    const uint64_t us = clockNow();
    t->tv_sec = (time_t)(us / 1000000);
    t->tv_usec = (suseconds_t)(us % 1000000);
    return 0;
}
time_t time(time_t* r) noexcept
{
    static time_t (*real)(time_t*);
    next(real, "time");
    if (!active()) return real(r);
    const time_t t = (time_t)(clockNow() / 1000000);
    if (r) *r = t;
    return t;
}
clock_t clock() noexcept
{
    static clock_t (*real)();
    next(real, "clock");
    return active() ? (clock_t)(clockNow() % 1000000000) : real();
}
pid_t getpid() noexcept
{
    static pid_t (*real)();
    next(real, "getpid");
    return active() ? (pid_t)P->pid : real();
}
ssize_t getrandom(void* b, size_t n, unsigned fl)
{
    static ssize_t (*real)(void*, size_t, unsigned);
    next(real, "getrandom");
    if (!active()) return real(b, n, fl);
    for (size_t i = 0; i < n; ++i) ((uint8_t*)b)[i] = (uint8_t)drawn();
    return (ssize_t)n;
}
int getentropy(void* b, size_t n) { return getrandom(b, n, 0) == (ssize_t)n ? 0 : -1; }
unsigned simfontRandomDevice(void*) __asm__("_ZNSt13random_device9_M_getvalEv");
unsigned simfontRandomDevice(void*) { return P ? (unsigned)drawn() : 4; }
static int temporary(char* name, int suffix, int flags)
{
    const size_t n = strlen(name);
    if (n < 6 + (size_t)suffix || memcmp(name + n - 6 - suffix, "XXXXXX", 6) != 0) { errno = EINVAL; return -1; }
    for (int k = 0; k < 100; ++k)
    {
        for (int i = 0; i < 6; ++i) name[n - 6 - suffix + i] = "abcdefghijklmnopqrstuvwxyz0123456789"[drawn() % 36];
        const int fd = open(name, O_RDWR | O_CREAT | O_EXCL | flags, 0600);
        if (fd >= 0 || errno != EEXIST) return fd;
    }
    return -1;
}
int mkstemps(char* name, int suffix)
{
    static int (*real)(char*, int);
    next(real, "mkstemps");
    return active() ? temporary(name, suffix, 0) : real(name, suffix);
}
int mkstemp(char* name)
{
    static int (*real)(char*);
    next(real, "mkstemp");
    return active() ? temporary(name, 0, 0) : real(name);
}
int mkostemp(char* name, int fl)
{
    static int (*real)(char*, int);
    next(real, "mkostemp");
    return active() ? temporary(name, 0, fl) : real(name, fl);
}
int close(int fd)
{
    static int (*real)(int);
    next(real, "close");
    return active() ? closing(fd, [&] { return real(fd); }) : real(fd);
}
ssize_t write(int fd, const void* b, size_t n)
{
    static ssize_t (*real)(int, const void*, size_t);
    next(real, "write");
    if (!active() || classOf(fd) != Out) return real(fd, b, n);
    return writing(n, [&](size_t k) { return real(fd, b, k); });
}
ssize_t writev(int fd, const iovec* v, int c)
{
    static ssize_t (*real)(int, const iovec*, int);
    next(real, "writev");
    if (!active() || classOf(fd) != Out) return real(fd, v, c);
    size_t n = 0;
    for (int i = 0; i < c; ++i) n += v[i].iov_len;
    return writing(n, [&](size_t k) {
        iovec w[16];
        int m = 0;
        for (int i = 0; i < c && m < 16 && k; ++i)
        {
            w[m] = v[i];
            if (w[m].iov_len > k) w[m].iov_len = k;
            k -= w[m++].iov_len;
        }
        return real(fd, w, m);
    });
}
ssize_t pwrite(int fd, const void* b, size_t n, off_t o)
{
    static ssize_t (*real)(int, const void*, size_t, off_t);
    next(real, "pwrite");
    if (!active() || classOf(fd) != Out) return real(fd, b, n, o);
    return writing(n, [&](size_t k) { return real(fd, b, k, o); });
}
ssize_t read(int fd, void* b, size_t n)
{
    static ssize_t (*real)(int, void*, size_t);
    next(real, "read");
    if (!active() || classOf(fd) != Font) return real(fd, b, n);
    return reading(n, [&](size_t k) { return real(fd, b, k); });
}
int fstat(int fd, struct stat* s)
{
    static int (*real)(int, struct stat*);
    next(real, "fstat");
    if (!active() || classOf(fd) != Font) return real(fd, s);
    return stating([&] { return real(fd, s); });
}
int fstat64(int fd, struct stat64* s)
{
    static int (*real)(int, struct stat64*);
    next(real, "fstat64");
    if (!active() || classOf(fd) != Font) return real(fd, s);
    return stating([&] { return real(fd, s); });
}
void* mmap(void* a, size_t n, int prot, int fl, int fd, off_t o) noexcept
{
    static void* (*real)(void*, size_t, int, int, int, off_t);
    next(real, "mmap");
    if (!active() || classOf(fd) != Font) return real(a, n, prot, fl, fd, o);
    uint32_t i;
    auto f = arrive(MapFont, i);
    if (P->mapFails || (f && f->act == Error))
    {
        P->mapFailed = 1;
        note(MapFont, Error, ENODEV, i, n, 0);
        errno = ENODEV;
        return MAP_FAILED;
    }
    void* r = real(a, n, prot, fl, fd, o);
    leave(MapFont, f, i);
    return r;
}
int rename(const char* a, const char* b)
{
    static int (*real)(const char*, const char*);
    next(real, "rename");
    return active() ? naming([&] { return real(a, b); }) : real(a, b);
}
int unlink(const char* a)
{
    static int (*real)(const char*);
    next(real, "unlink");
    return active() ? naming([&] { return real(a); }) : real(a);
}
int remove(const char* a)
{
    static int (*real)(const char*);
    next(real, "remove");
    return active() ? naming([&] { return real(a); }) : real(a);
}
int truncate(const char* a, off_t n)
{
    static int (*real)(const char*, off_t);
    next(real, "truncate");
    return active() ? naming([&] { return real(a, n); }) : real(a, n);
}

// ---- FreeType, as the converter calls it
FT_Error FT_Init_FreeType(FT_Library* l)
{
    static decltype(&FT_Init_FreeType) real;
    next(real, "FT_Init_FreeType");
    return library([&] { return real(l); });
}
FT_Error FT_New_Face(FT_Library l, const char* p, FT_Long i, FT_Face* f)
{
    static decltype(&FT_New_Face) real;
    next(real, "FT_New_Face");
    return library([&] { return real(l, p, i, f); });
}
FT_Error FT_New_Memory_Face(FT_Library l, const FT_Byte* p, FT_Long n, FT_Long i, FT_Face* f)
{
    static decltype(&FT_New_Memory_Face) real;
    next(real, "FT_New_Memory_Face");
    return library([&] { return real(l, p, n, i, f); });
}
FT_Error FT_Set_Char_Size(FT_Face f, FT_F26Dot6 w, FT_F26Dot6 h, FT_UInt x, FT_UInt y)
{
    static decltype(&FT_Set_Char_Size) real;
    next(real, "FT_Set_Char_Size");
    return library([&] { return real(f, w, h, x, y); });
}
FT_Error FT_Load_Char(FT_Face f, FT_ULong c, FT_Int32 fl)
{
    static decltype(&FT_Load_Char) real;
    next(real, "FT_Load_Char");
    return library([&] { return real(f, c, fl); });
}
FT_Error FT_Load_Glyph(FT_Face f, FT_UInt c, FT_Int32 fl)
{
    static decltype(&FT_Load_Glyph) real;
    next(real, "FT_Load_Glyph");
    return library([&] { return real(f, c, fl); });
}
FT_Error FT_Render_Glyph(FT_GlyphSlot g, FT_Render_Mode m)
{
    static decltype(&FT_Render_Glyph) real;
    next(real, "FT_Render_Glyph");
    return library([&] { return real(g, m); });
}
FT_Error FT_Get_Glyph(FT_GlyphSlot g, FT_Glyph* o)
{
    static decltype(&FT_Get_Glyph) real;
    next(real, "FT_Get_Glyph");
    return library([&] { return real(g, o); });
}
FT_Error FT_Glyph_To_Bitmap(FT_Glyph* g, FT_Render_Mode m, const FT_Vector* o, FT_Bool d)
{
    static decltype(&FT_Glyph_To_Bitmap) real;
    next(real, "FT_Glyph_To_Bitmap");
    return library([&] { return real(g, m, o, d); });
}
const char* FT_Error_String(FT_Error e)
{
    static decltype(&FT_Error_String) real;
    next(real, "FT_Error_String");
    return P && P->errorTexts ? "simulated error text" : real(e);
}

int converter_main(int, char**);   // the converter's main, renamed after compiling
}

namespace
{
bool wantTrace;
// The installed libstdc++ mishandles a failing allocation in path::operator/= and destroys a component
// list that was never made. That is no fault of the converter.
void crashed(int, siginfo_t*, void* context)
{
    Busy b;
    if (wantTrace)
    {
        void* a[50];
        backtrace_symbols_fd(a, backtrace(a, 50), 2);
    }
    Dl_info where;
    const auto pc = (void*)((ucontext_t*)context)->uc_mcontext.gregs[REG_RIP];
    bool failed = false;
    for (uint32_t i = 0; P && i < P->faults; ++i) failed = failed || (P->fault[i].op == Alloc && P->fault[i].act == Error && P->fault[i].fired);
    if (failed && dladdr(pc, &where) && where.dli_fname && strstr(where.dli_fname, "libstdc++") && where.dli_sname && strstr(where.dli_sname, "St10filesystem"))
    {
        P->toolchain = 1;
        die();
    }
    signal(SIGSEGV, SIG_DFL);    // the instruction is tried again
}
}

int main(int argc, char** argv)
{
    mallopt(M_PERTURB, 0x5A);
    const char* p = getenv("SIM_FONT_PLAN");
    if (!p) return sim::main_driver(argc, argv);
    int planFd, outFd, errFd, askFd, answerFd;
    if (sscanf(p, "%d %d %d %d %d", &planFd, &outFd, &errFd, &askFd, &answerFd) != 5) return 97;
    auto shared = (Shared*)mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED, planFd, 0);
    if (shared == MAP_FAILED) return 97;
    close(planFd);
    unsetenv("SIM_FONT_PLAN");
    if (getenv("SIM_FONT_BACKTRACE"))
    {
        void* warm[1];
        backtrace(warm, 1);
        wantTrace = true;
    }
    Dl_info warm;
    dladdr((void*)&FT_Error_String, &warm);
    // One execution of the converter for every byte: forked, so that each starts from the same state.
    auto &q = shared->request;
    char x;
    while (read(askFd, &x, 1) == 1)
    {
        const pid_t pid = fork();
        if (pid == 0)
        {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            close(askFd);
            close(answerFd);
            rlimit rl { q.cpuLimit, q.cpuLimit + 2 };
            setrlimit(RLIMIT_CPU, &rl);
            rl = { 0, 0 };
            setrlimit(RLIMIT_CORE, &rl);
            rl = { 4ull << 30, 4ull << 30 };
            setrlimit(RLIMIT_AS, &rl);
            if (q.fileLimit)
            {
                signal(SIGXFSZ, SIG_IGN);
                rl = { q.fileLimit, q.fileLimit };
                setrlimit(RLIMIT_FSIZE, &rl);
            }
            const int full = q.stdoutFull ? open("/dev/full", O_WRONLY) : -1;
            dup2(full >= 0 ? full : outFd, 1);
            dup2(errFd, 2);
            for (int fd: { full, outFd, errFd }) if (fd > 2) close(fd);
            if (chdir(q.dir) != 0) _exit(96);
            char* av[65] {};
            for (uint32_t i = 0; i < q.argc; ++i) av[i] = q.text + q.arg[i];
            struct sigaction sa {};
            sa.sa_sigaction = crashed;
            sa.sa_flags = SA_SIGINFO | SA_RESETHAND;
            sigaction(SIGSEGV, &sa, nullptr);
            shared->plan.started = 1;
            P = &shared->plan;
            const int rc = converter_main((int)q.argc, av);
            P = nullptr;
            shared->plan.finished = 1;
            exit(rc);
        }
        int32_t id = pid;
        if (pid < 0 || write(answerFd, &id, sizeof id) != sizeof id) return 97;
        Reply reply {};
        rusage ru {};
        while (wait4(pid, &reply.status, 0, &ru) < 0 && errno == EINTR) { }
        reply.cpu = (double)ru.ru_utime.tv_sec + (double)ru.ru_stime.tv_sec + 1e-6 * (double)(ru.ru_utime.tv_usec + ru.ru_stime.tv_usec);
        if (write(answerFd, &reply, sizeof reply) != sizeof reply) return 97;
    }
    return 0;
}
