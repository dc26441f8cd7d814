// C10: a text is a value around its native string
#include "texts.h"
using namespace u5e;
static const int lens[] = {0, 1, 3, 15, 16, 17, 64, 257};
template <typename S, typename C> static S unknown(C *keep, int n, const char *name) { S s; int below = n && n < 64 && __vp_choose("sign of the units", 2); for (int i = 0; i < n; i++) { keep[i] = (C)(__vp_var(name, 0, sizeof(C) == 1 ? 127 : 0x7FFFFFFFL) - (below ? sizeof(C) == 1 ? 128 : 0x80000000L : 0)); s.push_back(keep[i]); } return s; }
template <typename T, typename S> static void same(const T &t, const typename S::value_type *k, int n, const char *what) {
  __vp_assert_eq(t.native_string.size(), n, what);
  for (int i = 0; i < n; i++) __vp_assert_eq(t.native_string[i], k[i], what);
}
template <typename T, typename S> static void owning() {
  typedef typename S::value_type C;
  C a[257], b[257]; int n = lens[__vp_choose("units", 8)], m = lens[__vp_choose("units of the other", 8)];
  S sa = unknown<S>(a, n, "unit"), sb = unknown<S>(b, m, "other unit");
  T x(sa), y(sb);
  same<T, S>(x, a, n, "units after construction");
  __vp_assert(sa == x.native_string, "the native string given is unchanged");
  int how = __vp_choose("copy, assign, self-assign, chain, move", 5);
  T c(x);
  if (how == 0) { }
  else if (how == 1) { T &r = (y = x); __vp_assert(&r == &y, "assignment returns the text"); same<T, S>(y, a, n, "units after assignment"); y.native_string.push_back((C)65); same<T, S>(x, a, n, "units of the source after changing the assigned text"); }
  else if (how == 2) { T &r = x; x = r; same<T, S>(x, a, n, "units after self-assignment"); }
  else if (how == 3) { T z; z = y = x; same<T, S>(z, a, n, "units after chained assignment"); same<T, S>(y, a, n, "units after chained assignment"); }
  else { T z(std::move(c)); same<T, S>(z, a, n, "units after moving"); c = z; }
  same<T, S>(x, a, n, "units of the source");
  same<T, S>(c, a, n, "units of the copy");
  // changing one does not show in the other
  if (n) {
    *c.native_begin() = (C)66; c.native_string.push_back((C)67);
    same<T, S>(x, a, n, "units of the source after changing the copy");
    *x.native_begin() = (C)68;
    __vp_assert_eq(c.native_string[0], 66, "unit of the copy after changing the source");
  }
  // default construction and positions
  T e; __vp_assert_eq(e.native_string.size(), 0, "a default text is empty"); __vp_assert(e.native_begin() == e.native_end() && e.native_cbegin() == e.native_cend(), "positions of an empty text");
  __vp_assert_eq(y.native_end() - y.native_begin(), y.native_string.size(), "native positions delimit the units");
  __vp_assert_eq(y.native_cend() - y.native_cbegin(), y.native_string.size(), "constant native positions delimit the units");
  __vp_assert(y.native_begin() == y.native_string.begin() && y.native_cbegin() == y.native_string.cbegin(), "native positions begin at the first unit");
  __vp_assert(y.codepoint_cbegin() == typename T::const_iterator(y.native_string.cbegin()), "codepoint positions begin at the first unit");
  __vp_assert(y.codepoint_begin() == typename T::iterator(y.native_string.begin()), "codepoint positions begin at the first unit");
  __vp_assert(y.codepoint_cend() == typename T::const_iterator(y.native_string.cend()), "codepoint positions end after the last unit");
  __vp_assert(y.codepoint_end() == typename T::iterator(y.native_string.end()), "codepoint positions end after the last unit");
  __vp_cover("owning");
}
CHECK check_utf8() { owning<utf8_string, std::string>(); }
CHECK check_utf32() { owning<utf32ne_string, std::basic_string<int>>(); }
template <typename T, typename C> static void viewing() {
  typedef std::experimental::basic_string_view<C> V;
  int n = __vp_choose("units", 4), m = __vp_choose("units of the other", 3), below = __vp_choose("sign of the units", 2) ? 128 : 0;
  C *a = (C *)__vp_buf("text", n * sizeof(C)), *b = (C *)__vp_buf("other text", m * sizeof(C));
  for (int i = 0; i < n; i++) a[i] = (C)(__vp_var("unit", 0, 127) - below);
  for (int i = 0; i < m; i++) b[i] = (C)(__vp_var("other unit", 0, 127) - below);
  __vp_freeze(a, 1); __vp_freeze(b, 1);
  T x{V(a, n)}, y{V(b, m)}, c(x), z;
  z = y; y = x;
  __vp_assert(x.native_string.data() == a && x.native_string.size() == n, "view after construction");
  __vp_assert(c.native_string.data() == a && c.native_string.size() == n, "view after copy");
  __vp_assert(y.native_string.data() == a && y.native_string.size() == n, "view after assignment");
  __vp_assert(z.native_string.data() == b && z.native_string.size() == m, "view after assignment");
  __vp_assert(y.native_begin() == a && y.native_end() == a + n && y.native_cbegin() == a && y.native_cend() == a + n, "native positions of a view");
  __vp_assert(y.codepoint_cbegin() == typename T::const_iterator(a) && y.codepoint_cend() == typename T::const_iterator(a + n), "codepoint positions of a view");
  __vp_cover("viewing");
}
CHECK check_view8() { viewing<utf8_string_view, char>(); }
CHECK check_view32() { viewing<utf32ne_string_view, int>(); }
