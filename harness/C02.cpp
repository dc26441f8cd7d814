// C02: writing through a UTF-8 iterator
#include "common.h"
#include <u5e/utf8_iterator.hpp>
#include <u5e/utf8_string.hpp>
template <typename Ch> static void write_at(bool as_int) {
  // a codepoint before, the codepoint that is replaced, room for the new one
  long before = __vp_var("before", 0, 0x10FFFF), old = __vp_var("old", 0, 0x10FFFF), v = __vp_var("new", 0, 0x10FFFF);
  unsigned char pre[4], was[4], now[4]; int np = ref_len(before) , no = ref_len(old), nn = ref_len(v);
  ref_enc(before, pre); ref_enc(old, was); ref_enc(v, now);
  int room = no > nn ? no : nn;
  Ch *b = (Ch *)__vp_buf("buffer", np + room);
  Ch rest[4];
  for (int i = 0; i < np; i++) b[i] = (Ch)pre[i];
  for (int i = 0; i < no; i++) b[np + i] = (Ch)was[i];
  for (int i = no; i < room; i++) { rest[i] = (Ch)__vp_hidden(0, 255); b[np + i] = rest[i]; }
  u5e::utf8_iterator<Ch *> it(b + np);
  if (as_int) *it = (int)v; else *it = u5e::codepoint((int)v);
  for (int i = 0; i < np; i++) __vp_assert_eq((unsigned char)b[i], pre[i], "octet before the position");
  for (int i = 0; i < nn; i++) __vp_assert_eq((unsigned char)b[np + i], now[i], "octet of the written codepoint");
  for (int i = nn; i < no; i++) __vp_assert_eq((unsigned char)b[np + i], was[i], "octet after the written codepoint");
  for (int i = no > nn ? no : nn; i < room; i++) __vp_assert_eq((unsigned char)b[np + i], (unsigned char)rest[i], "octet after the written codepoint");
  u5e::utf8_iterator<Ch *> copy(it);
  u5e::codepoint c = *copy;
  __vp_assert_eq(c.value, v, "value read back where the iterator stands");
  ++it;
  __vp_assert_eq(it.raw_iterator_ - b, np + nn, "position after the increment");
}
CHECK check_char() { write_at<char>(false); }
CHECK check_int() { write_at<char>(true); }
CHECK check_uchar() { write_at<unsigned char>(false); }
// a fresh, zeroed buffer of exactly the right size, codepoint after codepoint
CHECK check_append() {
  long v = __vp_var("first", 0, 0x10FFFF), w = __vp_var("second", 0, 0x10FFFF);
  unsigned char e[8]; int n1 = ref_enc(v, e), n = n1 + ref_enc(w, e + n1);
  char *b = (char *)__vp_buf("buffer", n);
  for (int i = 0; i < n; i++) b[i] = 0;
  u5e::utf8_iterator<char *> it(b);
  *it = u5e::codepoint((int)v); ++it;
  *it = u5e::codepoint((int)w); ++it;
  for (int i = 0; i < n; i++) __vp_assert_eq((unsigned char)b[i], e[i], "octet appended");
  __vp_assert_eq(it.raw_iterator_ - b, n, "position after appending");
  __vp_cover("append");
}
CHECK check_string() {
  long v = __vp_var("new", 0, 0x10FFFF);
  u5e::utf8_string s(std::string("ab\0\0\0z", 6));
  u5e::utf8_string::iterator it(s.native_begin() + 1);
  *it = u5e::codepoint((int)v);
  unsigned char e[4]; int n = ref_enc(v, e); const char *was = "ab\0\0\0z";
  __vp_assert_eq(s.native_string.size(), 6, "size of the string");
  for (int i = 0; i < 6; i++) __vp_assert_eq((unsigned char)s.native_string[i], i >= 1 && i < 1 + n ? e[i - 1] : was[i], "octet of the string");
}
