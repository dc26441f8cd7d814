// C01: reading through a UTF-8 iterator from any octet of a codepoint
#include "common.h"
#include <u5e/utf8_iterator.hpp>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
template <typename It, typename Ch> static void read_ptr() {
  text8<Ch> t; t.cp[0] = any_cp(0); t.make(1);
  __vp_freeze(t.p, 1);
  int at = __vp_choose("octet", t.len);
  It it(t.p + at);
  u5e::codepoint c = *it;
  __vp_assert_eq(c.value, t.cp[0], "value read");
  u5e::codepoint again = *it; // reading does not depend on having been read
  __vp_assert_eq(again.value, t.cp[0], "value read a second time");
}
CHECK check_const_ptr() { read_ptr<u5e::utf8_const_iterator<const char *>, char>(); }
CHECK check_const_uptr() { read_ptr<u5e::utf8_const_iterator<const unsigned char *>, unsigned char>(); }
CHECK check_const_sptr() { read_ptr<u5e::utf8_const_iterator<const signed char *>, signed char>(); }
CHECK check_mutable_ptr() { read_ptr<u5e::utf8_iterator<char *>, char>(); }
// between neighbours: nothing of them leaks into the value
template <typename It> static void read_mid() {
  text8<char> t; for (int i = 0; i < 3; i++) t.cp[i] = any_cp(i); t.make(3);
  __vp_freeze(t.p, 1);
  int k = __vp_choose("octet", t.off[2] - t.off[1]);
  It it(t.p + t.off[1] + k);
  u5e::codepoint c = *it;
  __vp_assert_eq(c.value, t.cp[1], "value read between neighbours");
}
CHECK check_const_mid() { read_mid<u5e::utf8_const_iterator<const char *>>(); }
CHECK check_mutable_mid() { read_mid<u5e::utf8_iterator<char *>>(); }
CHECK check_string() {
  text8<char> t; t.cp[0] = any_cp(0); t.cp[1] = any_cp(1); t.make(2);
  u5e::utf8_string s(std::string(t.p, t.len));
  int at = __vp_choose("octet", t.len); long want = t.cp[t.of(at)];
  u5e::utf8_string::const_iterator ci(s.native_cbegin() + at);
  __vp_assert_eq((*ci).value, want, "value read from a string");
  u5e::utf8_string::iterator mi(s.native_begin() + at);
  __vp_assert_eq((*mi).value, want, "value read from a string through a mutable iterator");
  u5e::utf8_string_view v(std::experimental::string_view(t.p, t.len));
  u5e::utf8_string_view::const_iterator vi(v.native_cbegin() + at);
  __vp_assert_eq((*vi).value, want, "value read from a view");
  __vp_cover("string");
}
