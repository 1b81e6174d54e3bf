// Runtime for clang's -fsanitize=thread instrumentation: instead of looking for
// data races it reports every memory access of the code under test to the
// simulator. Compiled without instrumentation.
#include "sim_rt.h"
#include <atomic>
#include <cstring>

typedef unsigned long uptr;

static inline void acc(void* p, size_t n, int w)
{
    if (!simrt_cut) return;
    if (++simrt_steps > simrt_step_limit) simrt_hang();
    uintptr_t off = (uintptr_t)p - simrt_arena;
    if (__builtin_expect(off < simrt_arena_size, 0))
    {
        if (simrt_access(off, n, w, 0) != n) simrt_crash();
    }
}

extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void*) { if (simrt_cut && ++simrt_steps > simrt_step_limit) simrt_hang(); }
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(N) \
    void __tsan_read##N(void* p) { acc(p, N, 0); } \
    void __tsan_write##N(void* p) { acc(p, N, 1); } \
    void __tsan_unaligned_read##N(void* p) { acc(p, N, 0); } \
    void __tsan_unaligned_write##N(void* p) { acc(p, N, 1); } \
    void __tsan_volatile_read##N(void* p) { acc(p, N, 0); } \
    void __tsan_volatile_write##N(void* p) { acc(p, N, 1); } \
    void __tsan_unaligned_volatile_read##N(void* p) { acc(p, N, 0); } \
    void __tsan_unaligned_volatile_write##N(void* p) { acc(p, N, 1); } \
    void __tsan_read_write##N(void* p) { acc(p, N, 0); acc(p, N, 1); } \
    void __tsan_unaligned_read_write##N(void* p) { acc(p, N, 0); acc(p, N, 1); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, uptr n) { acc(p, n, 0); }
void __tsan_write_range(void* p, uptr n) { acc(p, n, 1); }
void __tsan_vptr_update(void** p, void*) { acc(p, sizeof(void*), 1); }
void __tsan_vptr_read(void** p) { acc(p, sizeof(void*), 0); }

static void* move(void* d, const void* s, uptr n)
{
    if (simrt_cut && n)
    {
        if (++simrt_steps > simrt_step_limit) simrt_hang();
        uintptr_t so = (uintptr_t)s - simrt_arena, dof = (uintptr_t)d - simrt_arena;
        if (so < simrt_arena_size) simrt_access(so, n, 0, 1);
        if (dof < simrt_arena_size)
        {
            size_t k = simrt_access(dof, n, 1, n != 2);     // two bytes are one store, as in an assignment
            if (k != n)
            {
                memmove(d, s, k);
                simrt_crash();
            }
        }
    }
    return memmove(d, s, n);
}
void* __tsan_memcpy(void* d, const void* s, uptr n) { return move(d, s, n); }
void* __tsan_memmove(void* d, const void* s, uptr n) { return move(d, s, n); }
void* __tsan_memset(void* d, int c, uptr n)
{
    if (simrt_cut && n)
    {
        if (++simrt_steps > simrt_step_limit) simrt_hang();
        uintptr_t dof = (uintptr_t)d - simrt_arena;
        if (dof < simrt_arena_size)
        {
            size_t k = simrt_access(dof, n, 1, 1);
            if (k != n)
            {
                memset(d, c, k);
                simrt_crash();
            }
        }
    }
    return memset(d, c, n);
}

#define ATOMIC(B, T) \
    T __tsan_atomic##B##_load(const volatile T* a, int) { acc((void*)a, sizeof(T), 0); return *a; } \
    void __tsan_atomic##B##_store(volatile T* a, T v, int) { acc((void*)a, sizeof(T), 1); *a = v; } \
    T __tsan_atomic##B##_exchange(volatile T* a, T v, int) { acc((void*)a, sizeof(T), 1); T o = *a; *a = v; return o; } \
    T __tsan_atomic##B##_fetch_add(volatile T* a, T v, int) { acc((void*)a, sizeof(T), 1); T o = *a; *a = (T)(o + v); return o; } \
    T __tsan_atomic##B##_fetch_sub(volatile T* a, T v, int) { acc((void*)a, sizeof(T), 1); T o = *a; *a = (T)(o - v); return o; } \
    T __tsan_atomic##B##_fetch_and(volatile T* a, T v, int) { acc((void*)a, sizeof(T), 1); T o = *a; *a = (T)(o & v); return o; } \
    T __tsan_atomic##B##_fetch_or(volatile T* a, T v, int) { acc((void*)a, sizeof(T), 1); T o = *a; *a = (T)(o | v); return o; } \
    T __tsan_atomic##B##_fetch_xor(volatile T* a, T v, int) { acc((void*)a, sizeof(T), 1); T o = *a; *a = (T)(o ^ v); return o; } \
    T __tsan_atomic##B##_fetch_nand(volatile T* a, T v, int) { acc((void*)a, sizeof(T), 1); T o = *a; *a = (T)~(o & v); return o; } \
    int __tsan_atomic##B##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { acc((void*)a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    int __tsan_atomic##B##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { acc((void*)a, sizeof(T), 1); if (*a == *c) { *a = v; return 1; } *c = *a; return 0; } \
    T __tsan_atomic##B##_compare_exchange_val(volatile T* a, T c, T v, int, int) { acc((void*)a, sizeof(T), 1); T o = *a; if (o == c) *a = v; return o; }
ATOMIC(8, uint8_t) ATOMIC(16, uint16_t) ATOMIC(32, uint32_t) ATOMIC(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}

// Library functions the instrumentation does not see (linked with --wrap).
static inline void rd(const void* p, size_t n)
{
    uintptr_t off = (uintptr_t)p - simrt_arena;
    if (simrt_cut && n && off < simrt_arena_size) simrt_access(off, n, 0, 1);
}
static inline void wr(void* p, size_t n)
{
    uintptr_t off = (uintptr_t)p - simrt_arena;
    if (simrt_cut && n && off < simrt_arena_size && simrt_access(off, n, 1, 1) != n) simrt_crash();
}
extern "C" {
int __real_memcmp(const void*, const void*, size_t);
void* __real_memchr(const void*, int, size_t);
size_t __real_strlen(const char*);
size_t __real_strnlen(const char*, size_t);
char* __real_strcpy(char*, const char*);
char* __real_strncpy(char*, const char*, size_t);
int __wrap_memcmp(const void* a, const void* b, size_t n) { rd(a, n); rd(b, n); return __real_memcmp(a, b, n); }
void* __wrap_memchr(const void* a, int c, size_t n)
{
    auto r = __real_memchr(a, c, n);
    rd(a, r ? (size_t)((const char*)r - (const char*)a) + 1 : n);
    return r;
}
size_t __wrap_strlen(const char* a) { size_t n = __real_strlen(a); rd(a, n + 1); return n; }
size_t __wrap_strnlen(const char* a, size_t m) { size_t n = __real_strnlen(a, m); rd(a, n < m ? n + 1 : m); return n; }
char* __wrap_strcpy(char* d, const char* s) { size_t n = __real_strlen(s) + 1; rd(s, n); wr(d, n); return __real_strcpy(d, s); }
char* __wrap_strncpy(char* d, const char* s, size_t m) { size_t n = __real_strnlen(s, m); rd(s, n < m ? n + 1 : m); wr(d, m); return __real_strncpy(d, s, m); }
}
