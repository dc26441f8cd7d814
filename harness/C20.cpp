// C20: a grapheme iterator constructed anywhere
#ifndef N
#define N 2
#endif
#include "texts.h"
using namespace u5e;
template <typename T> static void seek(T &t) {
  typename T::view v = t.v();
  int k = place("position", t.n);
  basic_grapheme_iterator<typename T::view> it(t.at(0), t.at(t.n), t.at(k));
  auto g = *it;
  __vp_assert_eq(t.pos(g.codepoint_begin()), t.off[t.start_of(k)], "begin of the grapheme sought");
  __vp_assert_eq(t.pos(g.codepoint_end()), t.off[t.end_of(k)], "end of the grapheme sought");
  if (k == t.n) { __vp_assert(it == v.grapheme_end(), "seeking the end gives the end"); __vp_cover("end"); }
  else {
    ++it; // it goes on from there
    auto h = *it; int to = t.end_of(k);
    __vp_assert_eq(t.pos(h.codepoint_begin()), t.off[to], "begin of the grapheme after the one sought");
    __vp_assert_eq(t.pos(h.codepoint_end()), t.off[t.end_of(to)], "end of the grapheme after the one sought");
    __vp_cover("inside");
  }
}
CHECK check_utf8() { u8text t; t.exactly(N); seek(t); }
CHECK check_utf32() { u32text t; t.exactly(N); seek(t); }
