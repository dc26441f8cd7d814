// C36: the same codepoints in every encoding and storage, the same graphemes and normalizations
#include "kinds.h"
#include <vector>
using namespace u5e;
struct text { int n; long cp[N]; text8<char, N> t; int *p; };
static void make(text &x) {
  x.n = N; for (int i = 0; i < N; i++) x.t.cp[i] = x.cp[i] = any_kind(i, 9);
  x.t.make(N); __vp_freeze(x.t.p, 1); x.p = (int *)__vp_buf("codepoints", 4 * N); for (int i = 0; i < N; i++) x.p[i] = (int)x.cp[i]; __vp_freeze(x.p, 1);
}
typedef std::experimental::basic_string_view<int> iview;
typedef std::experimental::string_view cview;
// another storage: any class with a const_iterator over codepoints
struct octets { typedef utf8_const_iterator<const char *> const_iterator; };
typedef basic_encodedstring<utf8, std::vector<char>> utf8_vector;
typedef basic_encodedstring<utf32ne, std::vector<int>> utf32_vector;
template <typename G> struct graphemes_of { G from, to; };
// number of codepoints in each grapheme
template <typename It> static int lengths(It from, It to, int *l) {
  int n = 0;
  while (from != to && n < N) { auto g = *from; int k = 0; for (auto i = g.codepoint_begin(); i != g.codepoint_end() && k <= N; i++) k++; l[n++] = k; ++from; }
  return n;
}
struct result { int n, len[N]; utf32ne_string out; utf8_string out8; int r, r8; };
template <typename It> static void results(int form, int which, It from, It to, result &r) {
  if (which == 0) r.n = lengths(from, to, r.len);
  else if (which == 1) r.r = normalize_all(form, from, to, r.out);
  else r.r8 = normalize_all(form, from, to, r.out8);
}
template <typename S> static void of(int form, int which, S &s, result &r) { results(form, which, s.grapheme_begin(), s.grapheme_end(), r); }
static void compare(int which, text &x, result &a, result &b, const char *what) {
  if (which == 0) { __vp_assert_eq(a.n, b.n, what); for (int i = 0; i < a.n && i < b.n; i++) __vp_assert_eq(a.len[i], b.len[i], what); __vp_cover("graphemes"); }
  else if (which == 1) { __vp_assert_eq(a.r, b.r, what); __vp_assert_eq(a.out.native_string.size(), b.out.native_string.size(), what); for (size_t i = 0; i < b.out.native_string.size(); i++) __vp_assert_eq(a.out.native_string[i], b.out.native_string[i], what); __vp_cover("normalizations into UTF-32"); }
  else { __vp_assert_eq(a.r8, b.r, what); same_codepoints(a.out8.native_string, 0, b.out.native_string, 0, what); __vp_cover("normalizations into UTF-8"); }
}
CHECK check_kinds() {
  text x; make(x);
  int form = task ? (task - 1) % 4 : 0, which = task ? 1 + (task - 1) / 4 : 0; // graphemes; each form into UTF-32; into UTF-8
  result want, got;
  utf32ne_string_view ref(iview(x.p, x.n)); of(form, which ? 1 : 0, ref, want);
  switch (__vp_choose("storage", 7)) {
  case 0: { utf8_string_view v(cview(x.t.p, x.t.len)); of(form, which, v, got); compare(which, x, got, want, "utf8_string_view as utf32ne_string_view"); break; }
  case 1: { utf8_string v(std::string(x.t.p, x.t.len)); of(form, which, v, got); compare(which, x, got, want, "utf8_string as utf32ne_string_view"); break; }
  case 2: { utf32ne_string v(std::basic_string<int>(x.p, x.n)); of(form, which, v, got); compare(which, x, got, want, "utf32ne_string as utf32ne_string_view"); break; }
  case 3: { utf32ne_string_view v(iview(x.p, x.n)); of(form, which, v, got); compare(which, x, got, want, "utf32ne_string_view again"); break; }
  case 4: { typedef basic_grapheme_iterator<octets> it; octets::const_iterator b((const char *)x.t.p), e((const char *)x.t.p + x.t.len); results(form, which, it(b, e), it(b, e, e), got); compare(which, x, got, want, "array of octets as utf32ne_string_view"); break; }
  case 5: { utf8_vector v(std::vector<char>(x.t.p, x.t.p + x.t.len)); of(form, which, v, got); compare(which, x, got, want, "vector of octets as utf32ne_string_view"); break; }
  case 6: { utf32_vector v(std::vector<int>(x.p, x.p + x.n)); of(form, which, v, got); compare(which, x, got, want, "vector of codepoints as utf32ne_string_view"); break; }
  }
}
