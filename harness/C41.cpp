// C41: graphemes and grapheme iterators as values
#ifndef N
#define N 2
#endif
#include "texts.h"
#include <vector>
using namespace u5e;
template <typename T, typename G> static void denotes(T &t, G &g, int k, int e, const char *what) {
  __vp_assert_eq(t.pos(g.codepoint_begin()), t.off[k], what); __vp_assert_eq(t.pos(g.codepoint_end()), t.off[e], what);
}
template <typename T, typename G> static void walk(T &t, G &g, int k, int e) {
  for (int round = 0; round < 2; round++) {
    auto i = g.codepoint_begin(), to = g.codepoint_end(); int j = k;
    while (i != to && j <= e) { codepoint c = *i; if (j < e) __vp_assert_eq(c.value, t.cp[j], "codepoint of a grapheme"); j++; if (round) ++i; else i++; }
    __vp_assert_eq(j, e, "number of codepoints of a grapheme");
    denotes(t, g, k, e, "a grapheme after its codepoints were visited");
    while (j > k) { --i; j--; codepoint c = *i; __vp_assert_eq(c.value, t.cp[j], "codepoint of a grapheme, backwards"); if (j == k) __vp_assert(i == g.codepoint_begin(), "back at the beginning of a grapheme"); }
  }
}
template <typename T> static void values(T &t) {
  typename T::view v = t.v(); typedef decltype(v.grapheme_begin()) It; typedef decltype(*std::declval<It &>()) Gr; typedef typename std::decay<Gr>::type G;
  It it = v.grapheme_begin(), start(it), e = v.grapheme_end();
  G first = *it, kept(first); int e0 = t.end_of(0);
  denotes(t, first, 0, e0, "the first grapheme"); walk(t, first, 0, e0);
  ++it; // the others do not follow
  denotes(t, first, 0, e0, "a grapheme after its iterator moved"); denotes(t, kept, 0, e0, "a copy of a grapheme after the iterator moved");
  { G g = *start; denotes(t, g, 0, e0, "a copy of an iterator after the other moved"); }
  __vp_assert(start == v.grapheme_begin(), "a copy of an iterator stays where it was");
  if (e0 == t.n) __vp_assert(it == e, "after the only grapheme");
  else {
    int e1 = t.end_of(e0); G second = *it;
    denotes(t, second, e0, e1, "the second grapheme"); walk(t, second, e0, e1);
    kept = second; denotes(t, kept, e0, e1, "a grapheme assigned"); denotes(t, first, 0, e0, "the one before");
    first = second; denotes(t, first, e0, e1, "a grapheme assigned over another"); denotes(t, second, e0, e1, "the one assigned from");
    It other(start); other = it; __vp_assert(other == it && !(other != it), "an iterator assigned"); __vp_assert(start == v.grapheme_begin(), "the one it was copied from");
    { G g = *other; denotes(t, g, e0, e1, "an iterator assigned denotes the same grapheme"); }
    ++other; { G g = *it; denotes(t, g, e0, e1, "an iterator after its copy moved"); }
    It again = it++; { G g = *again; denotes(t, g, e0, e1, "the iterator from before a step"); }
    it = start; { G g = *it; denotes(t, g, 0, e0, "an iterator assigned an earlier place"); } ++it; { G g = *it; denotes(t, g, e0, e1, "and stepped from there"); }
#ifdef LONG
#define TWO 1
#else
#define TWO (N > 1)
#endif
#if TWO
    __vp_cover("two graphemes");
#endif
  }
  // held by reference, as range based loops and generic code do
  { It i = v.grapheme_begin(); auto &&a = *i; ++i; auto &&b = *i; denotes(t, a, 0, e0, "a grapheme held by reference after the next was asked for"); if (e0 < t.n) denotes(t, b, e0, t.end_of(e0), "the next held by reference"); }
  { It i = v.grapheme_begin(); auto &&a = *i++; denotes(t, a, 0, e0, "the grapheme of a postfix step held by reference"); }
  // graphemes of any parts of the text, assigned over each other
#ifndef LONG
  { int k0 = place("first edge", t.n), k1 = place("second edge", t.n), k2 = place("third edge", t.n); if (k0 <= k1 && k0 <= k2) { G a(t.at(k0), t.at(k1)), b(t.at(k0), t.at(k2)), c(t.at(0), t.at(k0)); a = b; denotes(t, a, k0, k2, "a grapheme assigned over one of the same start"); b = c; denotes(t, b, 0, k0, "a grapheme assigned over another"); c = G(t.at(k0), t.at(k1)); denotes(t, c, k0, k1, "a grapheme assigned from a temporary"); __vp_cover("assigned"); } }
#endif
  // dereferencing does not move
  It r = v.grapheme_begin(); { G a = *r; G b = *r; denotes(t, a, 0, e0, "dereferenced once"); denotes(t, b, 0, e0, "dereferenced twice"); }
  // kept in a container
  std::vector<G> all; int k = 0, n = 0; for (It i = v.grapheme_begin(); !(i == e) && n <= t.n; i++, n++) all.push_back(*i);
  for (size_t i = 0; i < all.size() && k < t.n; i++) { int to = t.end_of(k); denotes(t, all[i], k, to, "a grapheme kept"); k = to; }
  __vp_assert_eq(k, t.n, "graphemes kept");
  __vp_cover("values");
}
CHECK check_utf8() { u8text t; t.exactly(N); values(t); }
CHECK check_utf32() { u32text t; t.exactly(N); values(t); }
CHECK check_mixed() { // a text of one storage, graphemes outliving the text object that gave them
  u8text t; t.exactly(N); typedef decltype(t.v().grapheme_begin()) It;
  It *it; { utf8_string_view v = t.v(); it = new It(v.grapheme_begin()); } int e0 = t.end_of(0);
  auto g = **it; denotes(t, g, 0, e0, "an iterator into a view that is gone"); delete it; walk(t, g, 0, e0);
  __vp_cover("outlives");
}
