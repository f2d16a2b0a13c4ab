// Harness API of the symbolic executor; the same source is compiled natively to replay counterexamples.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
uint64_t sx_sym(uint32_t bits, const char *name);          // fresh unconstrained value
uint64_t sx_choose(uint64_t n, const char *name);          // one of 0..n-1, one path per alternative
void sx_assume(bool c);
void sx_assert_(bool c, const char *msg);
uint64_t sx_fork_value(uint64_t v);                        // one path per feasible value
void sx_observe(const char *tag, uint64_t v);              // compared between the encoding and the native run
void sx_cover(const char *label);
uint64_t sx_heap_live();                                   // live heap blocks allocated since the entry point
void sx_note(const char *);
void sx_debug(const char *, uint64_t);
int sx_native();
int sx_spawn(void (*fn)(void*), void *arg);
void sx_join_all();
void sx_join(int);
int sx_self();
void sx_yield();
}
#define sx_check(c, msg) sx_assert_((c), (msg))
template<typename T> inline T sx_make(const char *name) {
    if constexpr (sizeof(T) == 1) return (T)(uint8_t)sx_sym(8, name);
    else if constexpr (sizeof(T) == 2) return (T)(uint16_t)sx_sym(16, name);
    else if constexpr (sizeof(T) == 4) return (T)(uint32_t)sx_sym(32, name);
    else return (T)sx_sym(64, name);
}
inline bool sx_bool(const char *name) { return sx_sym(1, name) & 1; }
inline uint64_t sx_range(uint64_t lo, uint64_t hi, const char *name, unsigned bits = 64) { uint64_t v = sx_sym(bits, name); sx_assume((v >= lo) & (v <= hi)); return v; }
#define SX_MAIN(name) extern "C" void sx_main_##name()
