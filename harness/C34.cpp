// C34: codepoint iterators under the standard algorithms
#include "texts.h"
#include <algorithm>
#include <iterator>
using namespace u5e;
#ifndef N
#define N 2
#endif
template <typename It, typename Mk> static void algos(Mk mk, const long *cp, int n, const int *off, const char *cover) {
  int which = __vp_choose("algorithm", 13);
  It b = mk(0), e = mk(off[n]);
  if (which >= 9 && which <= 11 && n > (which == 9 ? 1 : 2)) return; // every order of the codepoints is a part of its own
  if (which == 0) { __vp_assert_eq(std::distance(b, e), n, "std::distance"); int k = __vp_choose("advance", n + 1); It c(b); std::advance(c, k); __vp_assert(c == mk(off[k]), "std::advance forward"); std::advance(c, -k); __vp_assert(c == b, "std::advance back"); }
  else if (which == 1) { int k = __vp_choose("next", n + 1); It c = std::next(b, k); __vp_assert(c == mk(off[k]), "std::next"); It d = std::prev(e, n - k); __vp_assert(d == mk(off[k]), "std::prev"); __vp_assert_eq(std::distance(c, e), n - k, "std::distance from the middle"); }
  else if (which == 2) { int out[N + 1]; int *o = std::copy(b, e, out); __vp_assert_eq(o - out, n, "std::copy"); for (int i = 0; i < n; i++) __vp_assert_eq(out[i], cp[i], "codepoint copied by std::copy"); }
  else if (which == 3) { if (!n) return; int k = __vp_choose("sought", n); It f = std::find(b, e, codepoint((int)cp[k])); int w = 0; while (cp[w] != cp[k]) w++; __vp_assert(f == mk(off[w]), "std::find"); }
  else if (which == 4) { int k = 0; std::for_each(b, e, [&](codepoint c) { __vp_assert_eq(c.value, cp[k], "codepoint visited by std::for_each"); k++; }); __vp_assert_eq(k, n, "std::for_each"); }
  else if (which == 5) { int out[N + 1]; int *o = std::reverse_copy(b, e, out); __vp_assert_eq(o - out, n, "std::reverse_copy"); for (int i = 0; i < n; i++) __vp_assert_eq(out[i], cp[n - 1 - i], "codepoint copied backwards"); }
  else if (which == 6) { __vp_assert(std::equal(b, e, mk(0)), "std::equal"); if (n) { long hits = 0; for (int i = 0; i < n; i++) hits += cp[i] == cp[0]; __vp_assert_eq(std::count(b, e, codepoint((int)cp[0])), hits, "std::count"); } }
  else if (which == 7) { // what postfix steps give
    It c(b); for (int i = 0; i < n; i++) { It was(c); It got = c++; __vp_assert(got == was && c == mk(off[i + 1]) && got == mk(off[i]), "postfix increment gives the position before it"); }
    c = e; for (int i = n; i-- > 0;) { It got = c--; __vp_assert(got == mk(off[i + 1]) && c == mk(off[i]), "postfix decrement gives the position before it"); }
    c = b; for (int i = 0; i < n; i++) { codepoint v = *c++; __vp_assert_eq(v.value, cp[i], "codepoint of *i++"); } }
  else if (which == 8) { std::basic_string<int> o(b, e); __vp_assert_eq(o.size(), n, "a string made of the codepoints"); for (int i = 0; i < n; i++) __vp_assert_eq(o[i], cp[i], "codepoint of the string made"); }
  else if (which == 9) { int i = __vp_choose("from", n + 1), j = __vp_choose("to", n + 1); if (i > j) __vp_kill(); It f = std::search(b, e, mk(off[i]), mk(off[j])); int w = 0; for (;; w++) { int k = 0; while (k < j - i && cp[w + k] == cp[i + k]) k++; if (k == j - i) break; } __vp_assert(f == mk(off[w]), "std::search"); }
  else if (which == 10) { long m = -1; for (int i = 0; i < n; i++) if (cp[i] > m) m = cp[i]; It f = std::max_element(b, e); if (n) { codepoint v = *f; __vp_assert_eq(v.value, m, "std::max_element"); } else __vp_assert(f == e, "std::max_element of nothing"); }
  else if (which == 11) { int w = 0; while (w + 1 < n && cp[w] != cp[w + 1]) w++; It f = std::adjacent_find(b, e); __vp_assert(f == mk(off[w + 1 < n ? w : n]), "std::adjacent_find"); __vp_assert(!std::lexicographical_compare(b, e, mk(0), mk(off[n])), "std::lexicographical_compare"); }
  else { // hand-written reverse walk
    It c(e); for (int i = n; i-- > 0;) { --c; codepoint v = *c; __vp_assert_eq(v.value, cp[i], "codepoint of a backward walk"); } __vp_assert(c == b, "a backward walk ends at the beginning"); }
  __vp_cover(cover);
}
template <typename It, typename Mk> static void reversed(Mk mk, const long *cp, int n, const int *off, const char *cover) {
  std::reverse_iterator<It> r(mk(off[n])), re(mk(0)); int i = n, post = __vp_choose("postfix", 2);
  while (r != re) { __vp_assert(i > 0, "reverse iteration ends"); codepoint v = *r; __vp_assert_eq(v.value, cp[--i], "codepoint of the reverse iteration"); if (post) r++; else ++r; }
  __vp_assert_eq(i, 0, "reverse iteration visits every codepoint");
  // a constant iterator is assignable
  It a = mk(0); a = mk(off[n]); It c(a); a = c; __vp_assert(a == mk(off[n]), "assignment of iterators"); std::swap(a, c);
  __vp_cover(cover);
}
struct some8 { text8<char> t; int off[MAXN + 1]; some8() { int n = __vp_choose("codepoints", N + 1); for (int i = 0; i < n; i++) t.cp[i] = any_cp(i); t.make(n); __vp_freeze(t.p, 1); } };
#ifdef MANY
// many codepoints: counters must hold them
static const int many[] = {127, 128, 129, 255, 256, 257, 1000};
template <typename It, typename Native> static void count(Native &s, int units, const char *cover) {
  int n = many[__vp_choose("codepoints", 7)]; typename Native::value_type x = (typename Native::value_type)any_cp(0, 1, 0x7F); for (int i = 0; i < n; i++) s.push_back(x);
  typedef typename std::conditional<std::is_same<It, utf8_const_iterator<std::string::const_iterator>>::value || std::is_same<It, std::basic_string<int>::const_iterator>::value, const Native, Native>::type S;
  S &t = s; It b(t.begin()), e(t.end());
  __vp_assert_eq(std::distance(b, e), n, "std::distance over many codepoints");
  if (n <= 1000) { It c(b); std::advance(c, n); __vp_assert(c == e, "std::advance over many codepoints"); __vp_assert_eq(std::count(b, e, codepoint((int)x)), n, "std::count over many codepoints"); }
  __vp_cover(cover);
}
CHECK check_many8() { std::string s; count<utf8_string::const_iterator>(s, 1, "many utf8"); }
CHECK check_many_mutable8() { std::string s; count<utf8_string::iterator>(s, 1, "many mutable utf8"); }
#else
CHECK check_const8() { some8 s; auto mk = [&](int o) { return utf8_const_iterator<const char *>(s.t.p + o); }; if (__vp_choose("reverse", 2)) reversed<utf8_const_iterator<const char *>>(mk, s.t.cp, s.t.n, s.t.off, "reversed utf8"); else algos<utf8_const_iterator<const char *>>(mk, s.t.cp, s.t.n, s.t.off, "utf8"); }
CHECK check_mutable8() { some8 s; auto mk = [&](int o) { return utf8_iterator<char *>(s.t.p + o); }; if (__vp_choose("reverse", 2)) reversed<utf8_iterator<char *>>(mk, s.t.cp, s.t.n, s.t.off, "reversed mutable utf8"); else algos<utf8_iterator<char *>>(mk, s.t.cp, s.t.n, s.t.off, "mutable utf8"); }
CHECK check_string8() { some8 s; utf8_string u(std::string(s.t.p, s.t.len)); auto mk = [&](int o) { return utf8_string::const_iterator(u.native_cbegin() + o); }; if (__vp_choose("reverse", 2)) reversed<utf8_string::const_iterator>(mk, s.t.cp, s.t.n, s.t.off, "reversed string"); else algos<utf8_string::const_iterator>(mk, s.t.cp, s.t.n, s.t.off, "string"); }
CHECK check_32() {
  int n = __vp_choose("codepoints", N + 1); long cp[N + 1]; int off[N + 2]; int *x = (int *)__vp_buf("text", 4 * n); for (int i = 0; i < n; i++) { cp[i] = any_cp(i); x[i] = (int)cp[i]; } for (int i = 0; i <= n; i++) off[i] = i; __vp_freeze(x, 1);
  typedef utf32ne_string_view::const_iterator It; auto mk = [&](int o) { return It(x + o); };
  if (__vp_choose("reverse", 2)) reversed<It>(mk, cp, n, off, "reversed utf32"); else algos<It>(mk, cp, n, off, "utf32");
}
CHECK check_string32() {
  int n = __vp_choose("codepoints", N + 1); long cp[N + 1]; int off[N + 2]; std::basic_string<int> x; for (int i = 0; i < n; i++) { cp[i] = any_cp(i); x.push_back((int)cp[i]); } for (int i = 0; i <= n; i++) off[i] = i;
  utf32ne_string u(x); typedef utf32ne_string::iterator It; auto mk = [&](int o) { return It(u.codepoint_begin() + o); };
  if (__vp_choose("reverse", 2)) reversed<It>(mk, cp, n, off, "reversed utf32 string"); else algos<It>(mk, cp, n, off, "utf32 string");
}
#endif
