/* Contract vocabulary of the harnesses.
 *
 * A harness function  extern "C" void VC_<name>()  calls the real functions of
 * /repo on arbitrary (nondeterministic) inputs: vc_assume() states the
 * precondition, vc_assert() the postcondition.  The same text is used twice:
 *   - compiled to LLVM IR (no VC_NATIVE): the VC generator proves every
 *     vc_assert() for all inputs;
 *   - compiled natively (VC_NATIVE, with g++): replays solver counterexamples
 *     and searches for failing inputs on the real machine code. */
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstring>

#ifndef VC_NATIVE
extern "C" {
void vc_assume(bool);
void vc_assert(bool, const char *);
void vc_cover(const char *);
uint64_t nd_u64(const char *);
uint32_t nd_u32(const char *);
uint16_t nd_u16(const char *);
uint8_t nd_u8(const char *);
bool nd_bool(const char *);
double nd_f64(const char *);
float nd_f32(const char *);
/* arbitrary buffer of exactly n bytes, arbitrary contents */
void *nd_buf(size_t n, unsigned align_log2, const char *);
unsigned vc_caught(void);
unsigned vc_exc(const char *);
void vc_opaque(const void *);
/* names a value for the candidate invariants of the spec */
void vc_mark(const char *, uint64_t);
/* identity; lets the prover split cases on the value */
uint64_t vc_name(uint64_t);
/* havocs n bytes at p: forget what is known about them */
void vc_havoc(void *p, size_t n);
void vc_on_exception(const char *names, bool allowed);
bool vc_inside(const void *p, const void *object, size_t size);
}
static inline uint64_t nd_range(uint64_t lo, uint64_t hi, const char *name) {
  uint64_t x = nd_u64(name);
  vc_assume(x >= lo && x <= hi);
  return x;
}
#define VC_TRY(excvar, ...)                                                    \
  do {                                                                         \
    excvar = 0;                                                                \
    try {                                                                      \
      __VA_ARGS__;                                                             \
    } catch (...) {                                                            \
      excvar = vc_caught();                                                    \
    }                                                                          \
  } while (0)
#define VC_NATIVE_ONLY(...)
#define VC(name) extern "C" __attribute__((used, noinline)) void VC_##name()
#define VC_SYMBOLIC_ONLY(...) __VA_ARGS__
/* bounded native check (never counted as proved) */
#define VCB(name) static __attribute__((unused)) void VCB_##name()
#else
#include "vc_native.h"
#define VC_NATIVE_ONLY(...) __VA_ARGS__
#define VC_SYMBOLIC_ONLY(...)
#endif
