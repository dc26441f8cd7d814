// C40: any int as a codepoint
#include "common.h"
#include "domain.h"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_kd.hpp>
using namespace u5e;
// the range the value is taken from: the classic six-octet scheme, and what does not fit in it
static const long ranges_[][2] = {{0, 0x7F}, {0x80, 0x7FF}, {0x800, 0xFFFF}, {0x10000, 0x1FFFFF}, {0x200000, 0x3FFFFFF}, {0x4000000, 0x7FFFFFFF}, {-0x80000000L, -1}};
static int anyval(int i, int *size) { int k = __vp_choose(i ? "second range" : "range", 7); *size = k == 6 ? 0 : k + 1; return (int)vp_signed(cpname[i], ranges_[k][0], ranges_[k][1]); }
CHECK check_store() {
  int size, v = anyval(0, &size);
  unsigned char *p = (unsigned char *)__vp_buf("octets", 8); for (int i = 0; i < 8; i++) p[i] = (unsigned char)__vp_hidden(0, 0x7F);
  unsigned char old[8]; for (int i = 0; i < 8; i++) old[i] = p[i];
  utf8_iterator<char *> it((char *)p), at((char *)p);
  *it = codepoint(v);
  int l = utf8_util::codepoint_size(p[0]);
  __vp_assert(l >= 1 && l <= 6, "an integer is stored in at most six octets");
  if (size) __vp_assert_eq(l, size, "octets of the value");
  for (int i = 1; i < l; i++) __vp_assert(p[i] >= 0x80 && p[i] < 0xC0, "continuation octet");
  for (int i = l; i < 8; i++) __vp_assert_eq(p[i], old[i], "octet after the value");
  if (size) { codepoint c = *at; __vp_assert_eq(c.value, v, "value read back"); }
  ++it; __vp_assert_eq(it.raw_iterator_ - (char *)p, l, "the next increment moves just past it");
  ++at; __vp_assert_eq(at.raw_iterator_ - (char *)p, l, "increment from the first octet");
  __vp_cover("stored");
}
CHECK check_append() {
  int s0, s1, v0 = anyval(0, &s0), v1 = anyval(1, &s1); int x[2] = {v0, v1};
  utf8_string out(std::string("=")); utf32ne_string in(std::basic_string<int>(x, 2));
  out.append_from_utf32ne<utf32ne_string>(in.codepoint_cbegin(), in.codepoint_cend());
  std::string &n = out.native_string;
  __vp_assert(n.size() >= 3 && n.size() <= 13, "two integers are appended in at most six octets each");
  if (n.size() < 3 || n.size() > 13) return;
  __vp_assert_eq(n[0], 61, "prior content");
  int l = utf8_util::codepoint_size(n[1]); __vp_assert(l <= 6 && 1 + l < (int)n.size(), "octets of the first value"); if (1 + l >= (int)n.size()) return;
  int m = utf8_util::codepoint_size(n[1 + l]); __vp_assert_eq(1 + l + m, n.size(), "octets of the second value");
  utf8_string::const_iterator a(out.native_cbegin() + 1), e = out.codepoint_cend();
  int k = 0; while (a != e && k < 3) { codepoint c = *a; if (k == 0 && s0) __vp_assert_eq(c.value, v0, "value read back"); if (k == 1 && s1) __vp_assert_eq(c.value, v1, "value read back"); a++; k++; }
  __vp_assert_eq(k, 2, "values in the text");
  __vp_cover("appended");
}
CHECK check_graphemes() {
  int s, *x = (int *)__vp_buf("text", 12); x[0] = (int)any_int("first"); x[1] = __vp_choose("second", 3) == 0 ? 0x301 : 0x61; x[2] = (int)vp_signed("third", -0x80000000L, -1); __vp_freeze(x, 1);
  utf32ne_string_view v(std::experimental::basic_string_view<int>(x, 3)); int k = 0, n = 0;
  for (auto i = v.grapheme_begin(), e = v.grapheme_end(); i != e && n < 4; i++, n++) { auto g = *i; __vp_assert(g.codepoint_begin() - x == k, "a grapheme begins where the one before ended"); __vp_assert(g.codepoint_end() - x > k, "not empty"); k = g.codepoint_end() - x; }
  __vp_assert_eq(k, 3, "the graphemes cover the text");
  __vp_cover("graphemes");
}
CHECK check_normal() {
  int *x = (int *)__vp_buf("text", 4); x[0] = (int)any_int("codepoint"); __vp_freeze(x, 1);
  basic_grapheme<utf32ne_string_view> g(x, x + 1); utf8_string o; utf32ne_string p;
  int which = __vp_choose("form C, form KD", 2);
  int n = which ? normalization_form_kd<utf32ne_string_view, utf32ne_string>(g, p) : normalization_form_c<utf32ne_string_view, utf32ne_string>(g, p);
  int m = which ? normalization_form_kd<utf32ne_string_view, utf8_string>(g, o) : normalization_form_c<utf32ne_string_view, utf8_string>(g, o);
  __vp_assert_eq(n, m, "count in either encoding"); __vp_assert_eq(n, p.native_string.size(), "count");
  int k = 0; size_t at = 0; while (at < o.native_string.size() && k < 30) { int l = utf8_util::codepoint_size(o.native_string[at]); __vp_assert(l <= 6 && at + l <= o.native_string.size(), "the octets appended are complete"); at += l; k++; }
  __vp_assert_eq(k, n, "codepoints appended in UTF-8");
  __vp_cover("normalized");
}
