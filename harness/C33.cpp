// C33: a codepoint is the integer it holds
#include "common.h"
#include <u5e/codepoint.hpp>
using namespace u5e;
static int any() { return (int)vp_signed("a", -2147483647L - 1, 2147483647L); }
static int anyb() { return (int)vp_signed("b", -2147483647L - 1, 2147483647L); }
CHECK check_value() {
  int v = any(), w = anyb();
  codepoint c(v); __vp_assert_eq(c.value, v, "value after construction"); int back = c; __vp_assert_eq(back, v, "value converted back");
  codepoint d(c); __vp_assert_eq(d.value, v, "value after copying");
  codepoint e; __vp_assert_eq(e.value, 0, "default value"); codepoint z{}; __vp_assert_eq((int)z, 0, "default value");
  codepoint &r = (e = w); __vp_assert(&r == &e, "assignment returns the codepoint"); __vp_assert_eq(e.value, w, "value after assigning an integer");
  codepoint &r2 = (e = c); __vp_assert(&r2 == &e, "assignment returns the codepoint"); __vp_assert_eq(e.value, v, "value after assigning a codepoint");
  codepoint f = v; __vp_assert_eq(f.value, v, "value after converting"); f = f; __vp_assert_eq(f.value, v, "value after self-assignment");
  e = w; __vp_assert_eq(c.value, v, "value of the source"); __vp_assert_eq(d.value, v, "value of the copy");
  const codepoint k(w); __vp_assert_eq(static_cast<int>(k), w, "value of a constant codepoint");
  __vp_assert_eq(static_cast<long>(k), w, "value widened");
  __vp_cover("value");
}
template <typename A, typename B> static void rel(A a, B b, int v, int w) {
  __vp_assert((a == b) == (v == w), "=="); __vp_assert((a != b) == (v != w), "!=");
  __vp_assert((a < b) == (v < w), "<"); __vp_assert((a <= b) == (v <= w), "<=");
  __vp_assert((a > b) == (v > w), ">"); __vp_assert((a >= b) == (v >= w), ">=");
}
CHECK check_codepoints() { int v = any(), w = anyb(); rel<const codepoint &, const codepoint &>(codepoint(v), codepoint(w), v, w); __vp_cover("codepoints"); }
CHECK check_left() { int v = any(), w = anyb(); rel<const codepoint &, int>(codepoint(v), w, v, w); }
CHECK check_right() { int v = any(), w = anyb(); rel<int, const codepoint &>(v, codepoint(w), v, w); }
CHECK check_temporary() { int v = any(); __vp_assert(codepoint(v) == v && v == codepoint(v) && codepoint(v) == codepoint(v), "== of equal values"); }
