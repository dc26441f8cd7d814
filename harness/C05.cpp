// C05: equality of UTF-8 iterators
#include "common.h"
#include <u5e/utf8_iterator.hpp>
#include <u5e/utf8_string.hpp>
using namespace u5e;
template <typename It, typename Ch> static void eq(int n) {
  text8<Ch> t; for (int i = 0; i < n; i++) t.cp[i] = any_cp(i); t.make(n); __vp_freeze(t.p, 1);
  int i = __vp_choose("left octet", t.len + 1), j = __vp_choose("right octet", t.len + 1);
  bool want = i == t.len ? j == t.len : (j != t.len && t.of(i) == t.of(j));
  const It a(t.p + i), b(t.p + j);
  bool e = a == b, ne = a != b;
  __vp_assert(e == want, "== holds exactly for positions in the same codepoint");
  __vp_assert(ne == !want, "!= is the negation of ==");
  __vp_assert_eq(a.raw_iterator_ - t.p, i, "left operand after the comparison");
  __vp_assert_eq(b.raw_iterator_ - t.p, j, "right operand after the comparison");
  if (e) __vp_cover("equal"); else __vp_cover("different");
}
CHECK check_const() { eq<utf8_const_iterator<const char *>, char>(2); }
CHECK check_const_u() { eq<utf8_const_iterator<const unsigned char *>, unsigned char>(2); }
CHECK check_mutable() { eq<utf8_iterator<char *>, char>(2); }
#ifdef THOROUGH
CHECK check_const3() { eq<utf8_const_iterator<const char *>, char>(3); }
CHECK check_mutable3() { eq<utf8_iterator<char *>, char>(3); }
#endif
// far apart: in a block of U+0000, two unknown codepoints at distances around what counters hold
#include <cstdlib>
template <typename It, typename Ch> static void far() {
  static const long ds[] = {127, 128, 255, 256, 257, 512, 32768, 65535, 65536, 0x7FFFFFFFL, 0x80000000L, 0xFFFFFFFFL, 0x100000000L};
  long d = ds[__vp_choose("distance", 13)]; Ch *p = (Ch *)std::calloc(d + 8, 1);
  long a = any_cp(0), b = any_cp(1); unsigned char x[4], y[4]; int la = ref_enc(a, x), lb = ref_enc(b, y);
  for (int i = 0; i < la; i++) p[i] = (Ch)x[i]; for (int i = 0; i < lb; i++) p[d + i] = (Ch)y[i]; __vp_freeze(p, 1);
  int i = __vp_choose("left octet", 4), j = __vp_choose("right octet", 4); if (i >= la || j >= lb) __vp_kill();
  const It l(p + i), r(p + d + j), e(p + d + 8);
  __vp_assert(!(l == r) && l != r && !(r == l) && r != l, "positions of codepoints far apart are different");
  __vp_assert(!(l == e) && !(e == l) && l != e && e != l, "a position and an end far from it are different");
  __vp_assert(r == It(p + d) && !(r != It(p + d)), "positions in a codepoint far into the text are equal");
  __vp_cover("far apart");
}
CHECK check_far() { far<utf8_const_iterator<const char *>, char>(); }
CHECK check_far_mutable() { far<utf8_iterator<char *>, char>(); }
CHECK check_string() {
  text8<char> t; t.cp[0] = any_cp(0); t.cp[1] = any_cp(1); t.make(2);
  utf8_string s(std::string(t.p, t.len));
  int i = __vp_choose("left octet", t.len + 1), j = __vp_choose("right octet", t.len + 1);
  bool want = i == t.len ? j == t.len : (j != t.len && t.of(i) == t.of(j));
  __vp_assert((utf8_string::const_iterator(s.native_cbegin() + i) == utf8_string::const_iterator(s.native_cbegin() + j)) == want, "== in a string");
  __vp_assert((utf8_string::iterator(s.native_begin() + i) == utf8_string::iterator(s.native_begin() + j)) == want, "== in a string, mutable");
}
