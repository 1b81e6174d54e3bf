// Shared between sim.cpp and the memory access runtime (tsan_rt.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
extern int simrt_cut;                 // the code under test is running
extern uint64_t simrt_steps, simrt_step_limit;
extern uintptr_t simrt_arena;
extern size_t simrt_arena_size;
void simrt_hang();
// Slow path: an access to the arena. Returns how many bytes may be stored before
// the device resets (n if all of them); for a plain store either 0 or n.
size_t simrt_access(uintptr_t off, size_t n, int write, int bytewise);
void simrt_crash();
}
