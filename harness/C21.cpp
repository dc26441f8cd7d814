// C21: comparing grapheme iterators with each other and with positions
#ifndef N
#define N 2
#endif
#include "texts.h"
using namespace u5e;
#ifndef FAR
template <typename T> static void cmp(T &t) {
  typename T::view v = t.v();
  int i = place("left", t.n), j = place("right", t.n), by = __vp_choose("grapheme, position", 2);
  if (i < t.n && t.start_of(i) != i) __vp_kill(); // one of each grapheme, and the end
  basic_grapheme_iterator<typename T::view> a(t.at(0), t.at(t.n), t.at(i));
  if (by == 0) {
    if (j < t.n && t.start_of(j) != j) __vp_kill();
    auto b = v.grapheme_begin(); for (int k = 0; k < j; k = t.end_of(k)) ++b;
    bool want = i == j;
    __vp_assert((a == b) == want, "== of grapheme iterators"); __vp_assert((b == a) == want, "== of grapheme iterators, the other way round");
    __vp_assert((a != b) == !want, "!= of grapheme iterators"); __vp_assert((b != a) == !want, "!= of grapheme iterators, the other way round");
    if (want) __vp_cover("same grapheme"); else __vp_cover("different graphemes");
  } else {
    bool want = i == t.n ? j == t.n : (j < t.n && t.start_of(j) == i);
    __vp_assert((a == t.at(j)) == want, "== of a grapheme iterator and a position"); __vp_assert((a != t.at(j)) == !want, "!= of a grapheme iterator and a position");
    if (want) __vp_cover("position inside"); else __vp_cover("position outside");
  }
}
#else
// far apart: in a text of U+0000, around what counters hold
#include <cstdlib>
template <typename V, typename U> static void far() {
  static const long ds[] = {127, 128, 255, 256, 257, 65535, 65536, 0x40000000L, 0x7FFFFFFFL, 0x80000000L, 0xFFFFFFFFL, 0x100000000L};
  long d = ds[__vp_choose("distance", 12)]; U *p = (U *)std::calloc(d + 2, sizeof(U)); if (__vp_choose("ends with a mark", 2)) p[d] = 'a';
  V v(std::experimental::basic_string_view<U>(p, d + 2)); __vp_freeze(p, 1); typedef typename V::const_iterator C;
  C b(v.codepoint_cbegin()), e(v.codepoint_cend()), w(v.native_cbegin() + d);
  basic_grapheme_iterator<V> i(v.grapheme_begin()), j(b, e, w), z(v.grapheme_end());
  __vp_assert(!(i == j) && i != j && !(j == i) && j != i, "graphemes far apart are different");
  __vp_assert(!(i == z) && !(z == i) && !(j == z) && !(z == j) && i != z && z != j, "a grapheme and an end far from it are different");
  __vp_assert(!(i == w) && i != w && j == w && !(j == b) && j != b && !(z == w) && !(z == b) && !(i == e), "a grapheme and a position far from it are different");
  ++i; ++j; __vp_assert(i != j && j != z, "and after a step"); ++j; __vp_assert(j == z && i != z, "up to the end");
  __vp_cover("far apart");
}
CHECK check_far_utf8() { far<utf8_string_view, char>(); }
CHECK check_far_utf32() { far<utf32ne_string_view, int>(); }
#endif
#ifndef FAR
CHECK check_utf8() { u8text t; t.exactly(N); cmp(t); }
CHECK check_utf32() { u32text t; t.exactly(N); cmp(t); }
#endif
