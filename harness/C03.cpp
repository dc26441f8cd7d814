// C03: appending UTF-32 to UTF-8 and to UTF-32
#include "common.h"
#include <u5e/utf8_string.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
#ifndef N
#define N 2
#endif
#ifdef LONG
#include <vector>
template <typename F> static void converted(const char *what, F f, const unsigned char *e, int m) {
  utf8_string out(std::string("=")); f(out);
  __vp_assert_eq(out.native_string.size(), 1 + m, "size of the converted long text"); if (out.native_string.size() != 1 + (size_t)m) return;
  __vp_assert_eq((unsigned char)out.native_string[0], 61, "prior content");
  for (int i = 0; i < m; i++) __vp_assert_eq((unsigned char)out.native_string[1 + i], e[i], "converted octet of a long text");
  f(out); // and once more
  __vp_assert_eq(out.native_string.size(), 1 + 2 * m, "size after converting again"); if (out.native_string.size() != 1 + 2 * (size_t)m) return;
  for (int i = 0; i < 2 * m; i++) __vp_assert_eq((unsigned char)out.native_string[1 + i], e[i % m], "octet after converting again");
  __vp_cover(what);
}
CHECK check_long() {
  int n = longs[__vp_choose("length", LONGS)], pat = __vp_choose("pattern", PATTERNED);
  int *x = (int *)__vp_buf("source", 4 * n); unsigned char e[4 * 1030]; int m = 0;
  for (int i = 0; i < n; i++) { long v = patterned_cp(pat, i, n); x[i] = (int)v; m += ref_enc(v, e + m); }
  __vp_freeze(x, 1);
  switch (__vp_choose("view, string, vector, UTF-32", 4)) {
  case 0: { utf32ne_string_view in(std::experimental::basic_string_view<int>(x, n)); converted("long view", [&](utf8_string &o) { o.append_from_utf32ne<utf32ne_string_view>(in.codepoint_cbegin(), in.codepoint_cend()); }, e, m); break; }
  case 1: { utf32ne_string in(std::basic_string<int>(x, n)); converted("long string", [&](utf8_string &o) { o.append_from_utf32ne<utf32ne_string>(in.codepoint_cbegin(), in.codepoint_cend()); }, e, m); break; }
  case 2: { std::vector<int> in(x, x + n); converted("long range", [&](utf8_string &o) { utf8::append_from_utf32ne(in.begin(), in.end(), o.native_string); }, e, m); break; }
  default: {
    utf32ne_string_view in(std::experimental::basic_string_view<int>(x, n)); utf32ne_string o(std::basic_string<int>(3, 61));
    o.append_from_utf32ne<utf32ne_string_view>(in.codepoint_cbegin(), in.codepoint_cend()); o.append_from_utf32ne<utf32ne_string_view>(in.codepoint_cbegin(), in.codepoint_cend());
    __vp_assert_eq(o.native_string.size(), 3 + 2 * n, "size of the copied long text"); if (o.native_string.size() != 3 + 2 * (size_t)n) return;
    for (int i = 0; i < 3; i++) __vp_assert_eq(o.native_string[i], 61, "prior content");
    for (int i = 0; i < 2 * n; i++) __vp_assert_eq(o.native_string[3 + i], x[i % n], "copied codepoint of a long text");
    __vp_cover("long UTF-32"); }
  }
}
#else
static const int plens[] = {0, 1, 12, 13, 14, 15, 16};
CHECK check_to_utf8() {
  int n = __vp_choose("codepoints", N + 1);
  int pl = plens[__vp_choose("prior length", 7)];
  int x[N + 1]; unsigned char e[4 * N + 4]; int m = 0;
  std::basic_string<int> src;
  for (int i = 0; i < n; i++) { long v = any_cp(i); x[i] = (int)v; src.push_back((int)v); m += ref_enc(v, e + m); }
  std::string prior; for (int i = 0; i < pl; i++) prior.push_back((char)__vp_hidden(0, 255));
  utf8_string out(prior);
  utf32ne_string in(src);
  utf8_string &r = out.append_from_utf32ne<utf32ne_string>(in.codepoint_cbegin(), in.codepoint_cend());
  __vp_assert(&r == &out, "append returns the text");
  __vp_assert_eq(out.native_string.size(), pl + m, "size of the converted text");
  for (int i = 0; i < pl; i++) __vp_assert_eq((unsigned char)out.native_string[i], (unsigned char)prior[i], "prior content");
  for (int i = 0; i < m; i++) __vp_assert_eq((unsigned char)out.native_string[pl + i], e[i], "converted octet");
  __vp_assert_eq(in.native_string.size(), n, "size of the source");
  for (int i = 0; i < n; i++) __vp_assert_eq(in.native_string[i], x[i], "codepoint of the source");
  __vp_cover("to utf8");
}
CHECK check_from_view() {
  int n = __vp_choose("codepoints", N + 1);
  int *x = (int *)__vp_buf("source", 4 * n); unsigned char e[4 * N + 4]; int m = 0;
  for (int i = 0; i < n; i++) { long v = any_cp(i); x[i] = (int)v; m += ref_enc(v, e + m); }
  __vp_freeze(x, 1);
  utf8_string out(std::string("=")); utf32ne_string out32(std::basic_string<int>(1, 61));
  utf32ne_string_view in(std::experimental::basic_string_view<int>(x, n));
  out.append_from_utf32ne<utf32ne_string_view>(in.codepoint_cbegin(), in.codepoint_cend());
  out32.append_from_utf32ne<utf32ne_string_view>(in.codepoint_cbegin(), in.codepoint_cend());
  __vp_assert_eq(out.native_string.size(), 1 + m, "size of the converted text");
  __vp_assert_eq((unsigned char)out.native_string[0], 61, "prior content");
  for (int i = 0; i < m; i++) __vp_assert_eq((unsigned char)out.native_string[1 + i], e[i], "converted octet");
  __vp_assert_eq(out32.native_string.size(), 1 + n, "size of the copied text");
  __vp_assert_eq(out32.native_string[0], 61, "prior content");
  for (int i = 0; i < n; i++) __vp_assert_eq(out32.native_string[1 + i], x[i], "copied codepoint");
  std::string native("-"); utf8::append_from_utf32ne((const int *)x, (const int *)x + n, native);
  __vp_assert_eq(native.size(), 1 + m, "size of the converted native string");
  for (int i = 0; i < m; i++) __vp_assert_eq((unsigned char)native[1 + i], e[i], "converted octet");
  __vp_cover("views");
}
#endif
