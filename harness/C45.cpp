// C45: whatever the bounds check accepts, or enforcement repaired, can be processed
#include "common.h"
#include <u5e/utf8_bounds.hpp>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/filter.hpp>
#ifndef N
#define N 5
#endif
using namespace u5e;
typedef utf8_string_view V;
// octets: every one (by codepoint), or some of each kind (by grapheme and form)
#ifdef KINDS
static const unsigned char kinds[] = {'a', 0xCC, 0x81, 0xF0, '\r', '\n', 0xE2, 0x9F, 0xFF, 0xC2, 0xAD, 0x87, 0xA6, 0xEA, 0xB0, 0x80};
#endif
static int n; static char *p;
static bool enforced;
static int task;
static V any(int tasks) {
  enforced = __vp_choose("accepted or enforced", 2);
#ifdef KINDS
  int first = __vp_choose("first", KINDS * N * tasks); task = first % tasks; first /= tasks; n = 1 + first / KINDS; first %= KINDS;
#else
  n = __vp_choose("first", (N + 1) * tasks); task = n % tasks; n /= tasks;
#endif
  p = (char *)__vp_buf("text", n);
  for (int i = 0; i < n; i++)
#ifdef KINDS
    p[i] = (char)kinds[i ? __vp_choose("octet", KINDS) : first];
#else
    p[i] = (char)__vp_var("octet", 0, 255);
#endif
  if (enforced) { if (utf8_bounds<char *>::enforce(p, p + n)) __vp_kill(); } // what needed no repair is accepted
  else if (!utf8_bounds<const char *>::check(p, p + n)) __vp_kill();
  __vp_freeze(p, 1);
  return V(std::experimental::string_view(p, n));
}
static const char *const ends = "the walk over an accepted text ends";
CHECK check_codepoints() {
  V v = any(4); int k = 0, way = task;
  auto b = v.codepoint_cbegin(), e = v.codepoint_cend();
  if (way == 0) { for (auto i = b; i != e; ++i, k++) { __vp_assert(k < n, ends); *i; } __vp_cover("forwards"); }
  else if (way == 1) { for (auto i = b; i != e; i++, k++) { __vp_assert(k < n, ends); i == b; *i; } __vp_cover("forwards, postfix"); }
  else if (way == 2) { for (auto i = e; i != b; k++) { __vp_assert(k < n, ends); --i; *i; } __vp_cover("backwards"); }
  else { utf8_iterator<char *> i(p), to(p + n); for (; i != to; ++i, k++) { __vp_assert(k < n, ends); int c = (codepoint(*i)).value; __vp_assert(c == c, ends); } __vp_cover("mutable"); }
}
CHECK check_position() { // any octet of it
  V v = any(4); if (!n) __vp_kill(); int at = __vp_choose("position", n), how = task; V::const_iterator i(v.native_cbegin() + at), e = v.codepoint_cend();
  if (how == 0) { ++i; __vp_assert(i.raw_iterator_ > p + at && i.raw_iterator_ <= p + n, "a step forwards goes on, and stays in the text"); __vp_cover("step forwards"); }
  else if (how == 1) { *i; __vp_assert(i.raw_iterator_ >= p && i.raw_iterator_ <= p + at, "reading stays in the text"); __vp_cover("read"); }
  else if (how == 2) { bool same = i == e, other = e == i; __vp_assert(!same && !other, "a position of the text is not its end"); __vp_cover("compare"); }
  else { int k = at; while (k > 0 && ((unsigned char)p[k] & 0xC0) == 0x80) k--; if (k == 0) __vp_kill(); --i; __vp_assert(i.raw_iterator_ >= p && i.raw_iterator_ < p + at, "a step backwards goes back, and stays in the text"); __vp_cover("step backwards"); }
}
#ifdef KINDS
CHECK check_graphemes() {
  V v = any(1); int k = 0;
  for (auto i = v.grapheme_begin(), e = v.grapheme_end(); i != e; ++i, k++) { __vp_assert(k < n, ends); auto g = *i; int m = 0; for (auto c = g.codepoint_begin(); c != g.codepoint_end(); ++c, m++) { __vp_assert(m < n, ends); *c; } }
  __vp_cover("graphemes");
}
CHECK check_forms() {
  V v = any(4); utf32ne_string o;
  typedef int (*F)(basic_grapheme<V>, utf32ne_string &); static const F f[] = {normalization_form_d<V, utf32ne_string>, normalization_form_c<V, utf32ne_string>, normalization_form_kd<V, utf32ne_string>, normalization_form_kc<V, utf32ne_string>};
  int k = filter(v.grapheme_begin(), v.grapheme_end(), o, f[task]);
  __vp_assert_eq(k, o.native_string.size(), "the count of codepoints appended");
  __vp_cover("forms");
}
CHECK check_append() {
  V v = any(1); utf8_string o; o.append<std::experimental::string_view>(v.codepoint_cbegin(), v.codepoint_cend());
  __vp_assert_eq(o.native_string.size(), n, "size of the whole text appended"); for (int i = 0; i < n; i++) __vp_assert_eq(o.native_string[i], p[i], "the whole text appended");
  int k = 0, m = 0; filter(v.codepoint_cbegin(), v.codepoint_cend(), m, [](codepoint, int &x) { x++; __vp_assert(x <= N, ends); return 1; });
  __vp_cover("append");
}
#endif
