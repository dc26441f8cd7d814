// C23-C28: the algorithms over abstract characters. The lookups are replaced by their contracts: any
// combining classes, any decompositions, any composites; the elements are unknown numbers.
#include <vp.h>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/canonical_composition.hpp>
using namespace u5e;
#ifndef N
#define N 3
#endif
enum { CLASS, DECOMP, COMPAT };
// a block of the database that mixes starters, marks, composites and decompositions
static long fresh(const char *name) { return __vp_var(name, 0x1B00, 0x1B7F); }
static const char *const names[] = {"element 0", "element 1", "element 2", "element 3", "element 4", "element 5", "element 6", "element 7"};
static void give_class(long x, bool starter) { if (!__vp_attr_has(x, CLASS)) __vp_attr_set(x, CLASS, starter ? 0 : __vp_var("combining class", 1, 254)); }
static long ccc(long x) { if (!__vp_attr_has(x, CLASS)) give_class(x, __vp_choose("starter", 2) == 0); return __vp_attr_get(x, CLASS); }
static int forced = -1;
static bool compose(long a, long b, long *c) {
  if (!__vp_pair_has(a, b, 0)) {
    int yes = ccc(a) != 0 ? 0 : forced == 2 ? ccc(b) % 2 == 1 : forced >= 0 ? forced : __vp_choose("composite", 2); // composites begin with a starter
    __vp_pair_set(a, b, 0, yes);
    if (yes) { long n = fresh("composite element"); give_class(n, true); __vp_pair_set(a, b, 1, n); }
  }
  if (!__vp_pair_get(a, b, 0)) return false;
  *c = __vp_pair_get(a, b, 1); return true;
}
static int lists[2][N + 1][8]; 
static int const *mapping(long x, int kind) {
#ifdef DECOMPOSITIONS
  if (__vp_attr_has(x, DECOMP)) { int i = (int)__vp_attr_get(x, DECOMP); return lists[kind][i][0] ? lists[kind][i] : 0; }
#endif
  return 0;
}
namespace u5e { namespace props {
int canonical_combining_class::resolve(int x) { return (int)ccc(x); }
bool canonical_composition_mapping::resolve(int a, int b, int *r) { long c; if (!compose(a, b, &c)) return false; *r = (int)c; return true; }
int const * const canonical_decomposition_mapping::resolve(int x) { return mapping(x, 0); }
int const * const compatibility_and_canonical_decomposition_mapping::resolve(int x) { return mapping(x, 1); }
}}
// the algorithms, as the standard has them
static void ref_order(long *x, int n) {
  for (int i = 1; i < n; i++) for (int j = i; j > 0; j--) { long p = ccc(x[j - 1]), q = ccc(x[j]); if (p == 0 || q == 0 || p <= q) break; long t = x[j]; x[j] = x[j - 1]; x[j - 1] = t; }
}
static int ref_compose(long *x, int n) {
  int starter = -1, out = 0; long last = 0;
  for (int i = 0; i < n; i++) {
    long k = ccc(x[i]), c;
    bool adjacent = starter >= 0 && out - 1 == starter;
    if (starter >= 0 && (adjacent || last < k) && compose(x[starter], x[i], &c)) { x[starter] = c; continue; }
    if (k == 0) starter = out;
    last = k; x[out++] = x[i];
  }
  return out;
}
#ifdef ORDER
// through form D, of elements without decomposition
CHECK check_order() {
  int n = __vp_choose("elements", N + 1); int *x = (int *)__vp_buf("grapheme", 4 * n); long e[N + 1];
  for (int i = 0; i < n; i++) { e[i] = fresh(names[i]); x[i] = (int)e[i]; give_class(e[i], __vp_choose("starter", 2) == 0); }
  __vp_freeze(x, 1);
  utf32ne_string out; int r = normalization_form_d<utf32ne_string_view, utf32ne_string>(basic_grapheme<utf32ne_string_view>(x, x + n), out);
  ref_order(e, n);
  __vp_assert_eq(out.native_string.size(), n, "codepoints after ordering"); __vp_assert_eq(r, n, "codepoints reported");
  for (int i = 0; i < n; i++) __vp_assert_eq(out.native_string[i], e[i], "codepoint in canonical order");
  __vp_cover("ordered");
}
#endif
#ifdef ORDER
// long runs, with classes in given patterns: every element still unknown
CHECK check_long() {
  static const int lens[] = {8, 15, 16, 17, 18, 31, 32, 33, 40, 64, 65, 129};
  int n = lens[__vp_choose("length", 12)], pat = __vp_choose("pattern", 5), x[132]; long e[132];
  for (int i = 0; i < n; i++) {
    e[i] = fresh("element"); x[i] = (int)e[i];
    int c = pat == 0 ? 230 : pat == 1 ? 1 + (n - i) % 250 : pat == 2 ? (i % 2 ? 220 : 230) : pat == 3 ? (i % 5 == 4 ? 0 : 240 - i % 3) : (i == n - 1 ? 1 : 9);
    __vp_attr_set(e[i], CLASS, c);
  }
  utf32ne_string out; int r = normalization_form_d<utf32ne_string_view, utf32ne_string>(basic_grapheme<utf32ne_string_view>(x, x + n), out);
  ref_order(e, n);
  __vp_assert_eq(out.native_string.size(), n, "codepoints after ordering"); __vp_assert_eq(r, n, "codepoints reported");
  for (int i = 0; i < n; i++) __vp_assert_eq(out.native_string[i], e[i], "codepoint in canonical order");
  __vp_cover("long run ordered");
}
#endif
#ifdef COMPOSITION
CHECK check_long() {
  static const int lens[] = {9, 16, 17, 33, 40, 64, 65, 129};
  int n = lens[__vp_choose("length", 8)], pat = __vp_choose("pattern", 4); long e[132]; utf32ne_string s;
  for (int i = 0; i < n; i++) {
    e[i] = fresh("element"); s.native_string.push_back((int)e[i]);
    __vp_attr_set(e[i], CLASS, pat == 0 ? 0 : pat == 1 ? (i ? i : 0) : pat == 2 ? (i % 4 == 0 ? 0 : i % 4) : (i ? 230 : 0));
  }
  // which compose: all, none, or those at some places
  int how = __vp_choose("composites", 3); forced = how == 0 ? 1 : how == 1 ? 0 : 2;
  int count = 0; utf32ne_string::iterator end = u5e::canonical_composition(s, &count);
  int m = ref_compose(e, n);
  __vp_assert_eq(end - s.codepoint_begin(), m, "codepoints after composition");
  for (int i = 0; i < m; i++) __vp_assert_eq(s.native_string[i], e[i], "codepoint after composition");
  __vp_assert_eq(count, n - m, "compositions counted");
  __vp_cover("long text composed");
}
CHECK check_compose() {
  int n = __vp_choose("elements", N + 1); long e[N + 1]; utf32ne_string s;
  for (int i = 0; i < n; i++) { e[i] = fresh(names[i]); give_class(e[i], __vp_choose("starter", 2) == 0); s.native_string.push_back((int)e[i]);
    if (i && ccc(e[i]) != 0 && ccc(e[i - 1]) != 0 && ccc(e[i - 1]) > ccc(e[i])) __vp_kill(); }
  int before = __vp_choose("count before", 2) * 5, count = before;
  utf32ne_string::iterator end = u5e::canonical_composition(s, &count);
  int m = ref_compose(e, n);
  __vp_assert_eq(end - s.codepoint_begin(), m, "codepoints after composition");
  for (int i = 0; i < m; i++) __vp_assert_eq(s.native_string[i], e[i], "codepoint after composition");
  __vp_assert_eq(count - before, n - m, "compositions counted");
  if (m < n) __vp_cover("composed"); else __vp_cover("nothing composed");
}
#endif
#ifdef DECOMPOSITIONS
template <typename F> static void whole(F f, bool compat, bool composed) {
  int n = 1 + __vp_choose("elements", N); int *x = (int *)__vp_buf("grapheme", 4 * n); long e[3 * N + 3]; int m = 0, left = MAXM - n;
  // the decompositions the real lookups have: canonical ones are also part of the other table
  for (int i = 0; i < n; i++) {
    long k = fresh(names[i]); x[i] = (int)k; __vp_attr_set(k, DECOMP, i);
    int len[2], which = __vp_choose("decomposition", 3), *p; // none, canonical, compatibility only
    len[0] = len[1] = 0;
    if (which) { int l = 1 + __vp_choose("length", 3); if (l - 1 > left) __vp_kill(); left -= l - 1; len[1] = l; if (which == 1) len[0] = l; }
    for (int t = 1; t >= 0; t--) { p = lists[t][i]; for (int j = 0; j < len[t]; j++) p[j] = t == 0 ? lists[1][i][j] : (int)fresh("element of a decomposition"); p[len[t]] = 0; }
    int t = compat ? 1 : 0;
    if (len[t]) for (int j = 0; j < len[t]; j++) e[m++] = lists[t][i][j]; else e[m++] = k;
  }
  __vp_freeze(x, 1);
  utf32ne_string out; out.native_string.push_back(35);
  int r = f(basic_grapheme<utf32ne_string_view>(x, x + n), out);
  ref_order(e, m); if (composed) m = ref_compose(e, m);
  __vp_assert_eq(out.native_string.size(), m + 1, "codepoints appended"); __vp_assert_eq(r, m, "codepoints reported"); __vp_assert_eq(out.native_string[0], 35, "prior content");
  for (int i = 0; i < m; i++) __vp_assert_eq(out.native_string[i + 1], e[i], "codepoint of the normalized grapheme");
  __vp_cover("normalized");
}
#define WHOLE(F, compat, composed) CHECK check_##F() { whole(normalization_form_##F<utf32ne_string_view, utf32ne_string>, compat, composed); }
#if DECOMPOSITIONS == 1
WHOLE(d, false, false)
#elif DECOMPOSITIONS == 2
WHOLE(c, false, true)
#elif DECOMPOSITIONS == 3
WHOLE(kd, true, false)
#else
WHOLE(kc, true, true)
#endif
#endif
