// C19: iterating by grapheme partitions the text
#ifndef N
#define N 2
#endif
#include "texts.h"
using namespace u5e;
template <typename T> static void parts(T &t) {
  typename T::view v = t.v();
  int post = __vp_choose("postfix", 2);
  auto it = v.grapheme_begin(), e = v.grapheme_end();
  int k = 0;
  while (k < t.n) {
    __vp_assert(!(it == e), "the iteration is not over before the end of the text");
    auto g = *it;
    int to = t.end_of(k);
    __vp_assert_eq(t.pos(g.codepoint_begin()), t.off[k], "a grapheme begins where the one before ended");
    __vp_assert_eq(t.pos(g.codepoint_end()), t.off[to], "a grapheme ends at the next boundary");
    if (post) { auto o = it++; auto og = *o; __vp_assert(t.pos(og.codepoint_begin()) == t.off[k] && t.pos(og.codepoint_end()) == t.off[to], "postfix increment returns the grapheme before the step"); }
    else { auto r = ++it; __vp_assert(r == it, "prefix increment returns the grapheme after the step"); }
    k = to;
  }
  __vp_assert(it == e, "the iteration ends at the end of the text");
  __vp_cover("partition");
}
CHECK check_utf8() { u8text t; t.exactly(N); parts(t); }
CHECK check_utf32() { u32text t; t.exactly(N); parts(t); }
CHECK check_string() { // the same over owning storage, through the short forms
  u8text t; t.exactly(N);
  utf8_string s(std::string(t.p, t.len)); int g = 0, k = 0;
  for (auto it = s.grapheme_begin(); it != s.grapheme_end(); it++) {
    __vp_assert(k < t.n, "the iteration over a string ends");
    __vp_assert_eq((*it).codepoint_begin().raw_iterator_ - s.native_cbegin(), t.off[k], "begin of a grapheme in a string"); k = t.end_of(k);
    __vp_assert_eq((*it).codepoint_end().raw_iterator_ - s.native_cbegin(), t.off[k], "end of a grapheme in a string"); g++; }
  __vp_assert_eq(g, t.graphemes(), "number of graphemes of a string");
}
