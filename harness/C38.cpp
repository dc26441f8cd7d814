// C38: stepping inside text the bounds check accepted or enforcement repaired
#define ONLY_OCTETS
#include "C07.cpp"
#include <u5e/utf8_iterator.hpp>
template <typename It> static void inside(char *p, int n) {
  if (!n) return;
  // start octets of the text as it is now
  int at = __vp_choose("position", n);
  unsigned char c = p[at];
  int first = 0; // a position beyond the first codepoint: some octet between is no continuation
  It it(p + at), e(p + n);
  if (!(c >= 0x80 && c < 0xC0)) {
    int how = __vp_choose("forward, read, back", 3);
    if (how == 0) { ++it; __vp_assert(it.raw_iterator_ > p + at && it.raw_iterator_ <= p + n, "a step forward stays in the text"); __vp_cover("forward"); }
    else if (how == 1) { *it; __vp_cover("read"); }
    else { if (at == 0) __vp_kill(); --it; __vp_assert(it.raw_iterator_ >= p && it.raw_iterator_ < p + at, "a step back stays in the text"); __vp_cover("back"); }
  } else {
    int k = at; while (k > 0 && ((unsigned char)p[k] & 0xC0) == 0x80) k--;
    if (k == 0) __vp_kill();
    --it; __vp_assert(it.raw_iterator_ >= p && it.raw_iterator_ < p + at, "a step back stays in the text");
  }
}
CHECK check_checked() {
  octets<char> t; t.make(); __vp_freeze(t.p, 1);
  if (!utf8_bounds<const char *>::check(t.p, t.p + t.n)) __vp_kill();
  inside<utf8_const_iterator<const char *>>(t.p, t.n);
}
#ifndef ONLY_CHECKED
CHECK check_enforced() {
  octets<char> t; t.make();
  utf8_bounds<char *>::enforce(t.p, t.p + t.n);
  inside<utf8_iterator<char *>>(t.p, t.n);
}
#endif
CHECK check_end() {
  octets<char> t; t.make(); __vp_freeze(t.p, 1);
  if (!t.n || !utf8_bounds<const char *>::check(t.p, t.p + t.n)) __vp_kill();
  // walking forward from the beginning ends inside or at the end: every start octet fits
  for (int i = 0; i < t.n; i++) { if (start(t.o[i])) __vp_assert(announced(t.o[i]) <= t.n - i, "no start octet announces more than the text has"); }
  __vp_assert(!cont(t.o[0]), "the text does not begin with a continuation octet");
}
