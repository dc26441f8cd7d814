// C11: appending a codepoint range
#include "texts.h"
using namespace u5e;
#ifdef LONG
static const int plens_long[] = {0, 1, 15, 16, 31, 200};
template <typename Out, typename F, typename U> static void appended(const char *what, Out &out, F f, const U *from, const U *to) {
  typedef typename std::remove_reference<decltype(out.native_string[0])>::type unit;
  int pl = plens_long[__vp_choose("prior length", 6)]; unit prior[200];
  for (int i = 0; i < pl; i++) { prior[i] = (unit)__vp_hidden(0, 127); out.native_string.push_back(prior[i]); }
  size_t m = to - from;
  __vp_assert(&f(out) == &out, "append returns the text");
  __vp_assert_eq(out.native_string.size(), pl + m, "size after appending a long range"); if (out.native_string.size() != pl + m) return;
  for (int i = 0; i < pl; i++) __vp_assert_eq(out.native_string[i], prior[i], "prior content");
  for (size_t i = 0; i < m; i++) __vp_assert_eq(out.native_string[pl + i], from[i], "appended unit of a long range");
  f(out);
  __vp_assert_eq(out.native_string.size(), pl + 2 * m, "size after appending again"); if (out.native_string.size() != pl + 2 * m) return;
  for (size_t i = 0; i < m; i++) __vp_assert_eq(out.native_string[pl + m + i], from[i], "unit appended again");
  __vp_cover(what);
}
CHECK check_long() {
  int n = longs[__vp_choose("length", LONGS)], pat = __vp_choose("pattern", PATTERNED); long cp[1100];
  for (int i = 0; i < n; i++) cp[i] = patterned_cp(pat, i, n);
  int a = __vp_choose("first codepoint", 3), b = n - __vp_choose("codepoints left out", 3), which = __vp_choose("UTF-8 view, string, UTF-32 view, string", 4);
  if (which < 2) {
    unsigned char e[4400]; int off[1101], m = 0; for (int i = 0; i < n; i++) { off[i] = m; m += ref_enc(cp[i], e + m); } off[n] = m;
    char *p = (char *)__vp_buf("text", m); for (int i = 0; i < m; i++) p[i] = (char)e[i]; __vp_freeze(p, 1);
    utf8_string out;
    if (which == 0) { utf8_string_view v(std::experimental::string_view(p, m)); typedef utf8_string_view::const_iterator it; appended("long UTF-8 view", out, [&](utf8_string &o) -> utf8_string & { return o.append<std::experimental::string_view>(it(v.native_cbegin() + off[a]), it(v.native_cbegin() + off[b])); }, p + off[a], p + off[b]); }
    else { utf8_string v(std::string(p, m)); typedef utf8_string::const_iterator it; appended("long UTF-8 string", out, [&](utf8_string &o) -> utf8_string & { return o.append(it(v.native_cbegin() + off[a]), it(v.native_cbegin() + off[b])); }, p + off[a], p + off[b]); }
  } else {
    int *x = (int *)__vp_buf("text", 4 * n); for (int i = 0; i < n; i++) x[i] = (int)cp[i]; __vp_freeze(x, 1);
    utf32ne_string out;
    if (which == 2) { utf32ne_string_view v(std::experimental::basic_string_view<int>(x, n)); appended("long UTF-32 view", out, [&](utf32ne_string &o) -> utf32ne_string & { return o.append<std::experimental::basic_string_view<int>>(v.native_cbegin() + a, v.native_cbegin() + b); }, x + a, x + b); }
    else { utf32ne_string v(std::basic_string<int>(x, n)); appended("long UTF-32 string", out, [&](utf32ne_string &o) -> utf32ne_string & { return o.append(v.native_cbegin() + a, v.native_cbegin() + b); }, x + a, x + b); }
  }
}
#else
#ifndef N
#define N 2
#endif
static const int plens[] = {0, 1, 14};
template <typename Dst, typename SrcS, typename It> static void append8(const text8<char> &t, It from, const char *cover) {
  int i = __vp_choose("first octet", t.len + 1), j = __vp_choose("last octet", t.len + 1);
  int a = i == t.len ? t.len : t.off[t.of(i)], b = j == t.len ? t.len : t.off[t.of(j)];
  if (a > b) __vp_kill();
  int pl = plens[__vp_choose("prior length", 3)];
  Dst out; int prior[14]; for (int k = 0; k < pl; k++) { prior[k] = (int)__vp_hidden(0, 127); out.native_string.push_back((char)prior[k]); }
  Dst &r = out.template append<SrcS>(from(i), from(j));
  __vp_assert(&r == &out, "append returns the text");
  __vp_assert_eq(out.native_string.size(), pl + b - a, "size of the text after appending");
  for (int k = 0; k < pl; k++) __vp_assert_eq((unsigned char)out.native_string[k], prior[k], "prior content");
  for (int k = a; k < b; k++) __vp_assert_eq((unsigned char)out.native_string[pl + k - a], (unsigned char)t.p[k], "appended unit");
  __vp_cover(cover);
}
static void some(text8<char> &t) { int n = __vp_choose("codepoints", N + 1); for (int i = 0; i < n; i++) t.cp[i] = any_cp(i); t.make(n); __vp_freeze(t.p, 1); }
CHECK check_view() {
  text8<char> t; some(t);
  utf8_string_view v(std::experimental::string_view(t.p, t.len));
  append8<utf8_string, std::experimental::string_view>(t, [&](int o) { return utf8_string_view::const_iterator(v.native_cbegin() + o); }, "from a view");
}
CHECK check_string() {
  text8<char> t; some(t);
  utf8_string s(std::string(t.p, t.len));
  append8<utf8_string, std::string>(t, [&](int o) { return utf8_string::const_iterator(s.native_cbegin() + o); }, "from a string");
  __vp_assert_eq(s.native_string.size(), t.len, "size of the source");
  for (int k = 0; k < t.len; k++) __vp_assert_eq((unsigned char)s.native_string[k], (unsigned char)t.p[k], "source");
}
CHECK check_plain() { // the form without a storage argument
  text8<char> t; some(t);
  utf8_string s(std::string(t.p, t.len)), out(std::string("#"));
  out.append(s.codepoint_cbegin(), s.codepoint_cend());
  __vp_assert_eq(out.native_string.size(), 1 + t.len, "size after appending a whole text");
  for (int k = 0; k < t.len; k++) __vp_assert_eq((unsigned char)out.native_string[1 + k], (unsigned char)t.p[k], "appended unit");
  s.append(s.codepoint_cbegin(), s.codepoint_cend()); // its own content
  __vp_assert_eq(s.native_string.size(), 2 * t.len, "size after appending a text to itself");
  for (int k = 0; k < 2 * t.len; k++) __vp_assert_eq((unsigned char)s.native_string[k], (unsigned char)t.p[k % t.len], "unit after appending a text to itself");
}
CHECK check_utf32() {
  int n = __vp_choose("codepoints", N + 2); int *x = (int *)__vp_buf("text", 4 * n); for (int i = 0; i < n; i++) x[i] = (int)any_cp(i);
  __vp_freeze(x, 1);
  int i = __vp_choose("first", n + 1), j = __vp_choose("last", n + 1); if (i > j) __vp_kill();
  int pl = __vp_choose("prior length", 5), own = __vp_choose("view, string", 2);
  utf32ne_string out; int prior[4]; for (int k = 0; k < pl; k++) { prior[k] = (int)__vp_hidden(0, 0x10FFFF); out.native_string.push_back(prior[k]); }
  utf32ne_string_view v(std::experimental::basic_string_view<int>(x, n));
  utf32ne_string s(std::basic_string<int>(x, n));
  if (own) out.append(s.native_cbegin() + i, s.native_cbegin() + j); else out.append<std::experimental::basic_string_view<int>>(v.native_cbegin() + i, v.native_cbegin() + j);
  __vp_assert_eq(out.native_string.size(), pl + j - i, "size of the text after appending");
  for (int k = 0; k < pl; k++) __vp_assert_eq(out.native_string[k], prior[k], "prior content");
  for (int k = i; k < j; k++) __vp_assert_eq(out.native_string[pl + k - i], x[k], "appended unit");
  __vp_assert_eq(s.native_string.size(), n, "source"); for (int k = 0; k < n; k++) __vp_assert_eq(s.native_string[k], x[k], "source");
  __vp_cover("utf32");
}
static const int selfs[] = {0, 6, 14, 20};
CHECK check_self() { // a part of its own content
  text8<char> t; some(t); int pl = selfs[__vp_choose("prior length", 4)], i = __vp_choose("first octet", t.len + 1), j = __vp_choose("last octet", t.len + 1);
  int a = i == t.len ? t.len : t.off[t.of(i)], b = j == t.len ? t.len : t.off[t.of(j)]; if (a > b) __vp_kill();
  utf8_string s; int prior[20]; for (int k = 0; k < pl; k++) { prior[k] = (int)__vp_hidden(0, 127); s.native_string.push_back((char)prior[k]); }
  for (int k = 0; k < t.len; k++) s.native_string.push_back(t.p[k]);
  s.append(utf8_string::const_iterator(s.native_cbegin() + pl + i), utf8_string::const_iterator(s.native_cbegin() + pl + j));
  __vp_assert_eq(s.native_string.size(), pl + t.len + b - a, "size after appending a part of the text to itself");
  for (int k = 0; k < pl; k++) __vp_assert_eq((unsigned char)s.native_string[k], prior[k], "prior content");
  for (int k = 0; k < t.len; k++) __vp_assert_eq((unsigned char)s.native_string[pl + k], (unsigned char)t.p[k], "prior content");
  for (int k = a; k < b; k++) __vp_assert_eq((unsigned char)s.native_string[pl + t.len + k - a], (unsigned char)t.p[k], "unit of a part of the text appended to itself");
  __vp_cover("self");
}
CHECK check_self32() {
  int n = __vp_choose("codepoints", 9), i = __vp_choose("first", n + 1), j = __vp_choose("last", n + 1); if (i > j) __vp_kill();
  int x[8]; utf32ne_string s; for (int k = 0; k < n; k++) s.native_string.push_back(x[k] = (int)__vp_hidden(0, 0x10FFFF));
  s.append(s.native_cbegin() + i, s.native_cbegin() + j);
  __vp_assert_eq(s.native_string.size(), n + j - i, "size after appending a part of the text to itself");
  for (int k = 0; k < n; k++) __vp_assert_eq(s.native_string[k], x[k], "prior content");
  for (int k = i; k < j; k++) __vp_assert_eq(s.native_string[n + k - i], x[k], "unit of a part of the text appended to itself");
  __vp_cover("self, UTF-32");
}
#endif
