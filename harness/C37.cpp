// C37: normalization appends, and leaves its input alone
#include "kinds.h"
using namespace u5e;
typedef std::experimental::basic_string_view<int> iview;
typedef std::experimental::string_view cview;
#ifdef LONGPRIOR
static const int plens[] = {17, 30, 31, 32, 64, 65, 127, 130};
enum { PL = 8, MAXP = 130 };
#elif defined(FEW)
static const int plens[] = {0, 3, 15};
enum { PL = 3, MAXP = 16 };
#else
static const int plens[] = {0, 1, 2, 3, 4, 15, 16};
enum { PL = 7, MAXP = 16 };
#endif
template <typename In, typename Out, typename It> static void piece(int form, It b, It e, const char *what) {
  typedef typename std::remove_reference<decltype(std::declval<Out>().native_string[0])>::type unit;
  Out out, fresh;
  int want = normalize(form, basic_grapheme<In>(b, e), fresh);
  int k = plens[__vp_choose("prior length", PL)]; unit prior[MAXP];
  for (int i = 0; i < k; i++) { prior[i] = (unit)__vp_hidden(0, 127); out.native_string.push_back(prior[i]); }
  int got = normalize(form, basic_grapheme<In>(b, e), out);
  __vp_assert_eq(got, want, "the count does not depend on the prior content");
  __vp_assert_eq(out.native_string.size(), k + fresh.native_string.size(), "size of the output");
  for (int i = 0; i < k; i++) __vp_assert_eq(out.native_string[i], prior[i], "prior content");
  for (size_t i = 0; i < fresh.native_string.size(); i++) __vp_assert_eq(out.native_string[k + i], fresh.native_string[i], "appended content");
  long n = 0; for (size_t i = 0; i < fresh.native_string.size(); i++) if (sizeof(unit) == 4 || (fresh.native_string[i] & 0xC0) != 0x80) n++;
  __vp_assert_eq(got, n, "the count is the number of codepoints appended");
  // the next piece
  size_t before = out.native_string.size();
  int more = normalize(form, basic_grapheme<In>(b, e), out);
  __vp_assert_eq(more, want, "the count of the next piece");
  __vp_assert_eq(out.native_string.size(), before + fresh.native_string.size(), "size after the next piece");
  for (int i = 0; i < k; i++) __vp_assert_eq(out.native_string[i], prior[i], "prior content after the next piece");
  for (size_t i = 0; i < fresh.native_string.size(); i++) { __vp_assert_eq(out.native_string[k + i], fresh.native_string[i], "the piece before"); __vp_assert_eq(out.native_string[before + i], fresh.native_string[i], "the next piece"); }
  __vp_cover(what);
}
#ifndef INPUTS
#define INPUTS 4
#endif
CHECK check_kinds() {
  int n = N;
  long cp[N]; for (int i = 0; i < n; i++) cp[i] = any_kind(i, 8);
  int in = INPUTS == 4 ? __vp_choose("input", 4) : INPUTS, out = task / 4, form = task % 4;
  if (in < 2) {
    text8<char, N> t; for (int i = 0; i < n; i++) t.cp[i] = cp[i]; t.make(n); __vp_freeze(t.p, 1);
    if (in == 0) {
      utf8_string_view v(cview(t.p, t.len));
      if (out) piece<utf8_string_view, utf8_string>(form, v.codepoint_cbegin(), v.codepoint_cend(), "UTF-8 view into UTF-8"); else piece<utf8_string_view, utf32ne_string>(form, v.codepoint_cbegin(), v.codepoint_cend(), "UTF-8 view into UTF-32");
    } else {
      utf8_string s(std::string(t.p, t.len));
      if (out) piece<utf8_string, utf8_string>(form, s.codepoint_cbegin(), s.codepoint_cend(), "UTF-8 string into UTF-8"); else piece<utf8_string, utf32ne_string>(form, s.codepoint_cbegin(), s.codepoint_cend(), "UTF-8 string into UTF-32");
      __vp_assert_eq(s.native_string.size(), t.len, "size of the text read"); for (int i = 0; i < t.len; i++) __vp_assert_eq((unsigned char)s.native_string[i], (unsigned char)t.p[i], "text read");
    }
  } else {
    int *p = (int *)__vp_buf("text", 4 * n); for (int i = 0; i < n; i++) p[i] = (int)cp[i]; __vp_freeze(p, 1);
    if (in == 2) {
      utf32ne_string_view v(iview(p, n));
      if (out) piece<utf32ne_string_view, utf8_string>(form, v.codepoint_cbegin(), v.codepoint_cend(), "UTF-32 view into UTF-8"); else piece<utf32ne_string_view, utf32ne_string>(form, v.codepoint_cbegin(), v.codepoint_cend(), "UTF-32 view into UTF-32");
    } else {
      utf32ne_string s(std::basic_string<int>(p, n));
      if (out) piece<utf32ne_string, utf8_string>(form, s.codepoint_cbegin(), s.codepoint_cend(), "UTF-32 string into UTF-8"); else piece<utf32ne_string, utf32ne_string>(form, s.codepoint_cbegin(), s.codepoint_cend(), "UTF-32 string into UTF-32");
      __vp_assert_eq(s.native_string.size(), n, "size of the text read"); for (int i = 0; i < n; i++) __vp_assert_eq(s.native_string[i], p[i], "text read");
    }
  }
}
