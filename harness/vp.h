// Intrinsics of the abstract interpreter (engine/absint.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
long __vp_var(const char *name, long lo, long hi);    // any value of [lo, hi], an input
long __vp_hidden(long lo, long hi);                   // the same, not reported as an input
int __vp_choose(const char *name, int n);             // each of 0..n-1
void __vp_assert(bool c, const char *what);           // obligation
void __vp_assert_eq(long a, long b, const char *what);
void __vp_assume(bool c);
void __vp_kill();
int __vp_cell(const void *p);                         // size of the value stored at this place
void *__vp_buf(const char *name, long size);          // memory block of exactly that size, uninitialised
void __vp_freeze(const void *p, int on);              // the block must not be written
void __vp_kill_obj(const void *p);                    // the block must not be used any more
void __vp_no_alloc(int on);                           // from here on allocating memory is a violation
void __vp_fail_alloc(int how);                        // from here on: 0 memory suffices; 1 at any allocation it is used up; 2 any one allocation fails
int __vp_alloc_failed();                              // an allocation failed
long __vp_live();                                     // blocks allocated and not released
long __vp_steps();                                    // instructions interpreted so far on this path
void __vp_cover(const char *label);
void __vp_attr_set(long key, int slot, long val);     // attribute of an element, found again by the same abstract value
int __vp_attr_has(long key, int slot);
long __vp_attr_get(long key, int slot);
void __vp_pair_set(long a, long b, int slot, long val);
int __vp_pair_has(long a, long b, int slot);
long __vp_pair_get(long a, long b, int slot);
void __vp_emit(const char *tag, const long *vals, int n);
void __vp_print(const char *tag, long v);
}
#define CHECK extern "C" void
// a signed range
static inline long vp_signed(const char *name, long lo, long hi) {
  if (hi < 0) return lo + __vp_var(name, 0, hi - lo);
  if (lo >= 0) return __vp_var(name, lo, hi);
  if (__vp_choose("sign", 2)) return __vp_var(name, 0, hi);
  return lo + __vp_var(name, 0, -1 - lo);
}
