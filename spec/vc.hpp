// Intrinsics understood by the deductive verifier (engine/builtins_vc.py).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
uint64_t vc_u64(const char *);
uint32_t vc_u32(const char *);
uint16_t vc_u16(const char *);
uint8_t vc_u8(const char *);
bool vc_bool(const char *);
double vc_f64(const char *);
// fresh buffer of exactly n arbitrary bytes
uint8_t *vc_bytes(const char *, uint64_t n);
void vc_assume(bool);
// proof obligation
void vc_assert(bool, const char *label);
void vc_assert_mem_eq(const void *, const void *, uint64_t n, const char *label);
// the point must be reachable (vacuity check)
void vc_reach(const char *label);
// bytewise forward copy of n bytes from base+s to base+d
void vc_fwdcopy(uint8_t *base, uint64_t d, uint64_t s, uint64_t n);
// ghost step run at every back edge of the next loop cut at an invariant
void vc_lockstep(bool (*step)(void *), void *ghost);
void vc_lockstep_end();
// stated invariant of the next loop: check asserts it, havoc builds every state it accepts
void vc_invariant(void (*check)(void *), void (*havoc)(void *), void *);
void vc_invariant_end();
// the next loops are run iteration by iteration, at most n of them (more: refused); 0 ends it
void vc_unroll(uint64_t n);
// candidate invariant: first *n bytes at p equal the first *n bytes at q
void vc_array_pair(const void *p, const void *q, const uint64_t *n);
void vc_terminates(bool);
void vc_measure(const uint64_t *);
void vc_bound(uint64_t);
// instantiate quantified facts at this value
void vc_inst(uint64_t);
bool vc_same_ptr(const void *, const void *);
bool vc_valid(const void *, uint64_t);
uint64_t vc_uf1(const char *, uint64_t);
uint64_t vc_uf2(const char *, uint64_t, uint64_t);
uint64_t vc_uf3(const char *, uint64_t, uint64_t, uint64_t);
double vc_f64_of_i32(uint32_t);
// |k - s * scale| <= tol over the reals
bool vc_near(int64_t k, double s, double scale, double tol);
// an arbitrary double that is an integer
double vc_f64_int(const char *);
[[noreturn]] void vc_throw();
void vc_unsupported(const char *);
}
