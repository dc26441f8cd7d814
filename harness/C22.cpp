// C22: filter
#include "texts.h"
#include <vector>
#include <u5e/filter.hpp>
using namespace u5e;
#ifdef LONG
static long got_[1100], ret_[1100]; static int at_;
struct many_out { int tag; };
static int many(const codepoint c, many_out &) { __vp_assert(at_ < 1100, "the operation is not called too often"); got_[at_] = c.value; return (int)ret_[at_++]; }
template <typename It> static void long_filter(const char *what, It from, It to, const long *cp, int n) {
  // results: unknown, of either sign, their partial sums inside int
  int shape = __vp_choose("results", 5); long sum = 0; at_ = 0; many_out o;
  for (int i = 0; i < n; i++) {
    ret_[i] = shape == 0 ? 1 : shape == 1 ? __vp_hidden(0, 2000000) : shape == 2 ? -1 - __vp_hidden(0, 2000000) : shape == 3 ? (i == 0 ? 2147483647 : i == 1 ? -2147483647 : i == 2 ? -2147483647 - 1 : i == 3 ? 2147483647 : 0) : i % 2 ? -1000000000 + __vp_hidden(0, 1000) : 1000000000;
    sum += ret_[i];
  }
  if (shape == 2 && n > 1000) __vp_kill();
  int r = u5e::filter(from, to, o, many);
  __vp_assert_eq(at_, n, "calls of the operation on a long range");
  for (int i = 0; i < n && i < at_; i++) __vp_assert_eq(got_[i], cp[i], "codepoint handed to the operation, in order");
  __vp_assert_eq(r, sum, "result is the sum of the results of a long range");
  __vp_cover(what);
}
CHECK check_long() {
  int n = longs[__vp_choose("length", LONGS)], pat = __vp_choose("pattern", 2) ? 4 : 0; long cp[1100];
  for (int i = 0; i < n; i++) cp[i] = patterned_cp(pat, i, n);
  int which = __vp_choose("UTF-8 view, UTF-8 string, UTF-32 view, pointer", 4);
  if (which < 2) {
    char *p; unsigned char e[4400]; int m = 0; for (int i = 0; i < n; i++) m += ref_enc(cp[i], e + m);
    p = (char *)__vp_buf("text", m); for (int i = 0; i < m; i++) p[i] = (char)e[i]; __vp_freeze(p, 1);
    if (which == 0) { utf8_string_view v(std::experimental::string_view(p, m)); long_filter("long UTF-8 view", v.codepoint_cbegin(), v.codepoint_cend(), cp, n); }
    else { utf8_string v(std::string(p, m)); long_filter("long UTF-8 string", v.codepoint_cbegin(), v.codepoint_cend(), cp, n); }
  } else {
    int *x = (int *)__vp_buf("text", 4 * n); for (int i = 0; i < n; i++) x[i] = (int)cp[i]; __vp_freeze(x, 1);
    utf32ne_string_view v(std::experimental::basic_string_view<int>(x, n));
    if (which == 2) long_filter("long UTF-32 view", v.codepoint_cbegin(), v.codepoint_cend(), cp, n); else { utf32ne_string s(std::basic_string<int>(x, n)); long_filter("long UTF-32 string", s.codepoint_cbegin(), s.codepoint_cend(), cp, n); }
  }
}
#else
#ifndef N
#define N 4
#endif
struct sink { int seen[N + 1]; int n = 0; };
static int rets[N + 1]; static sink *expected;
static int op(const codepoint c, sink &o) { __vp_assert(&o == expected, "the operation gets the output given"); __vp_assert(o.n < N, "the operation is not called too often"); o.seen[o.n] = c.value; return rets[o.n++]; }
static int calls;
static int never(const codepoint, sink &) { calls++; return 1; }
struct functor { int *log; int operator()(int c, sink &o) { o.seen[o.n] = c; return rets[o.n++]; } };
template <typename It, typename F> static void go(It from, It to, const long *cp, int n, F f) {
  sink s; expected = &s; long sum = 0;
  for (int i = 0; i < n; i++) { rets[i] = (int)__vp_var("result of a call", 0, 100000); sum += rets[i]; }
  int got = u5e::filter(from, to, s, f);
  __vp_assert_eq(s.n, n, "calls of the operation");
  for (int i = 0; i < n; i++) __vp_assert_eq(s.seen[i], cp[i], "codepoint handed to the operation, in order");
  __vp_assert_eq(got, sum, "result is the sum of the results");
  if (n == 0) __vp_cover("empty range"); else __vp_cover("range");
}
CHECK check_utf32() {
  int n = __vp_choose("codepoints", N + 1); long cp[N + 1]; int *x = (int *)__vp_buf("text", 4 * n); for (int i = 0; i < n; i++) { cp[i] = any_cp(i); x[i] = (int)cp[i]; } __vp_freeze(x, 1);
  utf32ne_string_view v(std::experimental::basic_string_view<int>(x, n)); functor f{0};
  if (__vp_choose("function, functor", 2)) go(v.codepoint_cbegin(), v.codepoint_cend(), cp, n, f); else go(v.codepoint_cbegin(), v.codepoint_cend(), cp, n, op);
  utf32ne_string s(std::basic_string<int>(x, n)); go(s.codepoint_begin(), s.codepoint_end(), cp, n, op);
}
CHECK check_utf8() {
  text8<char> t; int n = __vp_choose("codepoints", 3); for (int i = 0; i < n; i++) t.cp[i] = any_cp(i); t.make(n); __vp_freeze(t.p, 1);
  utf8_string_view v(std::experimental::string_view(t.p, t.len));
  go(v.codepoint_cbegin(), v.codepoint_cend(), t.cp, n, op);
}
CHECK check_mutable() { // an operation that receives the mutable iterator's element
  text8<char> t; int n = __vp_choose("codepoints", 3); for (int i = 0; i < n; i++) t.cp[i] = any_cp(i); t.make(n); __vp_freeze(t.p, 1);
  go(utf8_iterator<char *>(t.p), utf8_iterator<char *>(t.p + t.len), t.cp, n, op);
}
CHECK check_empty() {
  int x[1] = {65}; sink s; utf32ne_string_view v(std::experimental::basic_string_view<int>(x, 1));
  calls = 0; int r = u5e::filter(v.codepoint_cend(), v.codepoint_cend(), s, never);
  __vp_assert(r == 0 && calls == 0, "an empty range calls nothing and gives zero");
}
// an output that grows: each call sees what the calls before appended
static int grow(const codepoint c, utf32ne_string &o) { int k = 1 + (int)o.native_string.size() % 2; for (int i = 0; i < k; i++) o.native_string.push_back(c); return k; }
CHECK check_growing() {
  int n = __vp_choose("codepoints", N + 1); int *x = (int *)__vp_buf("text", 4 * n); for (int i = 0; i < n; i++) x[i] = (int)any_cp(i); __vp_freeze(x, 1);
  utf32ne_string_view v(std::experimental::basic_string_view<int>(x, n)); utf32ne_string out; out.native_string.push_back(7);
  int r = u5e::filter(v.codepoint_cbegin(), v.codepoint_cend(), out, grow);
  size_t at = 1; int want = 0; for (int i = 0; i < n; i++) { int k = 1 + at % 2; for (int j = 0; j < k; j++) __vp_assert_eq(out.native_string[at++], x[i], "appended by the operation"); want += k; }
  __vp_assert_eq(out.native_string.size(), at, "size of the output"); __vp_assert_eq(out.native_string[0], 7, "prior content"); __vp_assert_eq(r, want, "sum of the results");
}
#endif
