// C06: walking forward over exactly sized texts, by codepoint and by grapheme
#include "common.h"
#ifndef N
#define N 2
#endif
#include "texts.h"
using namespace u5e;
#ifdef WALK_CP
template <typename It, typename Ch> static void walk8() {
  text8<Ch> t; int n = __vp_choose("codepoints", N + 1);
  for (int i = 0; i < n; i++) t.cp[i] = any_cp(i);
  t.make(n); __vp_freeze(t.p, 1);
  int steps = 0, post = __vp_choose("postfix", 2);
  It it(t.p), end(t.p + t.len);
  while (it != end) {
    __vp_assert(steps < n, "the walk ends after as many steps as codepoints");
    u5e::codepoint c = *it; __vp_assert_eq(c.value, t.cp[steps], "codepoint visited");
    if (post) it++; else ++it;
    steps++;
  }
  __vp_assert_eq(steps, n, "steps of the walk");
  __vp_cover("utf8 walk");
}
CHECK check_const() { walk8<utf8_const_iterator<const char *>, char>(); }
CHECK check_const_u() { walk8<utf8_const_iterator<const unsigned char *>, unsigned char>(); }
CHECK check_mutable() { walk8<utf8_iterator<char *>, char>(); }
CHECK check_view() {
  text8<char> t; int n = __vp_choose("codepoints", N + 1);
  for (int i = 0; i < n; i++) t.cp[i] = any_cp(i);
  t.make(n); __vp_freeze(t.p, 1);
  utf8_string_view v(std::experimental::string_view(t.p, t.len));
  int steps = 0;
  for (utf8_string_view::const_iterator it = v.codepoint_cbegin(); it != v.codepoint_cend(); ++it) steps++;
  __vp_assert_eq(steps, n, "steps of the walk over a view");
  utf8_string s(std::string(t.p, t.len)); steps = 0;
  for (utf8_string::iterator it = s.codepoint_begin(); it != s.codepoint_end(); it++) steps++;
  __vp_assert_eq(steps, n, "steps of the walk over a string");
}
CHECK check_utf32() {
  int n = __vp_choose("codepoints", N + 1);
  int *x = (int *)__vp_buf("text", 4 * n); for (int i = 0; i < n; i++) x[i] = (int)any_cp(i);
  __vp_freeze(x, 1);
  utf32ne_string_view v(std::experimental::basic_string_view<int>(x, n));
  int steps = 0;
  for (utf32ne_string_view::const_iterator it = v.codepoint_cbegin(); it != v.codepoint_cend(); ++it) { __vp_assert(steps < n, "the walk ends"); u5e::codepoint c = *it; __vp_assert_eq(c.value, x[steps], "codepoint visited"); steps++; }
  __vp_assert_eq(steps, n, "steps of the walk");
}
#else
// every walk one is likely to write over graphemes
template <typename T> static void gwalk(T &t, int form) {
  typename T::view v = t.v();
  int steps = 0, want = t.graphemes();
  auto e = v.grapheme_end();
  if (form == 0) for (auto it = v.grapheme_begin(); it != v.grapheme_end(); ++it) { __vp_assert(steps < want, "the grapheme walk ends"); steps++; }
  else if (form == 1) for (auto it = v.grapheme_begin(); it != v.codepoint_cend(); it++) { __vp_assert(steps < want, "the grapheme walk ends"); steps++; }
  else for (auto it = v.grapheme_begin(); !(it == e); ++it) { __vp_assert(steps < want, "the grapheme walk ends"); steps++;
    int k = 0; auto g = *it; for (auto c = g.codepoint_begin(); c != g.codepoint_end(); ++c) { *c; k++; } __vp_assert(k > 0, "a grapheme is not empty"); }
  __vp_assert_eq(steps, want, "number of graphemes walked");
  __vp_cover("grapheme walk");
}
#if defined(LONG) || defined(ABSTRACT)
#define SIZE exactly
#else
#define SIZE any
#endif
CHECK check_utf8() { u8text t; t.SIZE(N); gwalk(t, __vp_choose("form", 3)); }
CHECK check_utf32() { u32text t; t.SIZE(N); gwalk(t, __vp_choose("form", 3)); }
#endif
