// C04: stepping forward and back, from any octet, over exactly sized texts
#include "common.h"
#include <u5e/utf8_iterator.hpp>
#include <u5e/utf8_string.hpp>
using namespace u5e;
template <typename It, typename Ch> static void steps() {
  text8<Ch> t; t.cp[0] = any_cp(0); t.cp[1] = any_cp(1); t.make(2);
  __vp_freeze(t.p, 1);
  int at = __vp_choose("octet", t.len), k = t.of(at);
  int how = __vp_choose("operation: ++x x++ --x x--", 4);
  It it(t.p + at);
  if (how == 0) { It &r = ++it; __vp_assert(&r == &it, "prefix increment returns the iterator"); __vp_assert_eq(it.raw_iterator_ - t.p, t.off[k + 1], "position after ++"); __vp_cover("prefix ++"); }
  else if (how == 1) { It o = it++; __vp_assert_eq(it.raw_iterator_ - t.p, t.off[k + 1], "position after postfix ++"); long was = o.raw_iterator_ - t.p; __vp_assert(was >= t.off[k] && was < t.off[k + 1], "postfix ++ returns the codepoint before the move"); u5e::codepoint c = *o; __vp_assert_eq(c.value, t.cp[k], "value under the result of postfix ++"); __vp_cover("postfix ++"); }
  else {
    if (k == 0) __vp_kill(); // nothing before
    if (how == 2) { It &r = --it; __vp_assert(&r == &it, "prefix decrement returns the iterator"); __vp_assert_eq(it.raw_iterator_ - t.p, t.off[k - 1], "position after --"); __vp_cover("prefix --"); }
    else { It o = it--; __vp_assert_eq(it.raw_iterator_ - t.p, t.off[k - 1], "position after postfix --"); long was = o.raw_iterator_ - t.p; __vp_assert(was >= t.off[k] && was < t.off[k + 1], "postfix -- returns the codepoint before the move"); u5e::codepoint c = *o; __vp_assert_eq(c.value, t.cp[k], "value under the result of postfix --"); __vp_cover("postfix --"); }
  }
}
CHECK check_const() { steps<utf8_const_iterator<const char *>, char>(); }
CHECK check_const_u() { steps<utf8_const_iterator<const unsigned char *>, unsigned char>(); }
CHECK check_mutable() { steps<utf8_iterator<char *>, char>(); }
// inside a longer text, stepping never looks beyond its neighbours and chains
template <typename It> static void chain() {
  text8<char> t; for (int i = 0; i < 3; i++) t.cp[i] = any_cp(i); t.make(3); __vp_freeze(t.p, 1);
  It it(t.p); ++it; ++it; __vp_assert_eq(it.raw_iterator_ - t.p, t.off[2], "two steps forward");
  --it; --it; __vp_assert_eq(it.raw_iterator_ - t.p, 0, "two steps back");
  it++; it++; it++; __vp_assert_eq(it.raw_iterator_ - t.p, t.len, "three postfix steps forward");
  __vp_cover("chain");
}
CHECK check_chain_const() { chain<utf8_const_iterator<const char *>>(); }
CHECK check_chain_mutable() { chain<utf8_iterator<char *>>(); }
CHECK check_string() {
  text8<char> t; t.cp[0] = any_cp(0); t.cp[1] = any_cp(1); t.make(2);
  utf8_string s(std::string(t.p, t.len));
  utf8_string::const_iterator c(s.codepoint_cbegin()); ++c; __vp_assert_eq(c.raw_iterator_ - s.native_cbegin(), t.off[1], "step in a string"); c++; __vp_assert_eq(c.raw_iterator_ - s.native_cbegin(), t.len, "step in a string");
  c--; __vp_assert_eq(c.raw_iterator_ - s.native_cbegin(), t.off[1], "step back in a string"); --c; __vp_assert_eq(c.raw_iterator_ - s.native_cbegin(), 0, "step back in a string");
  utf8_string::iterator m(s.codepoint_begin()); m++; ++m; __vp_assert_eq(m.raw_iterator_ - s.native_begin(), t.len, "steps in a string"); --m; m--; __vp_assert_eq(m.raw_iterator_ - s.native_begin(), 0, "steps back in a string");
}
