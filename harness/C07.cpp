// C07, C08: the octets at the edges of a text. Every octet is unknown.
#include "common.h"
#include <u5e/utf8_bounds.hpp>
#include <u5e/utf8_string.hpp>
#ifndef LO
#define LO 0
#endif
#ifndef N
#define N 5
#endif
using namespace u5e;
static inline int announced(int o) { return o < 0xC0 ? 1 : o < 0xE0 ? 2 : o < 0xF0 ? 3 : o < 0xF8 ? 4 : o < 0xFC ? 5 : o < 0xFE ? 6 : o < 0xFF ? 7 : 8; }
static inline bool cont(int o) { return o >= 0x80 && o < 0xC0; }
static inline bool start(int o) { return o >= 0xC0; }
template <typename Ch> struct octets {
  int n; int o[32]; Ch *p;
  void make() {
    n = LO + __vp_choose("octets", N - LO + 1);
    p = (Ch *)__vp_buf("text", n);
#ifdef SPARSE
    // at most two start octets among the last eight, a run of continuation
    // octets at the beginning, and the rest all of one kind
    int a = __vp_choose("first start", 9), b = __vp_choose("second start", 9); if (b < a) __vp_kill();
    int lead = __vp_choose("leading continuation octets", 3), rest = __vp_choose("rest", 2), far = __vp_choose("octets before the last eight", 3);
    if (n <= 8 && far) __vp_kill();
#endif
    for (int i = 0; i < n; i++) {
#ifdef SPARSE
      int left = n - i;
      if (left == a || left == b) o[i] = (int)__vp_var("octet", 0xC0, 0xFF);
      else if (i < lead) o[i] = (int)__vp_var("octet", 0x80, 0xBF);
      else if (left > 8 && far) o[i] = (int)__vp_var("octet", far == 1 ? 0x80 : 0xC0, far == 1 ? 0xBF : 0xFF);
      else if (rest && i > lead) o[i] = (int)__vp_var("octet", 0x80, 0xBF);
      else o[i] = (int)__vp_var("octet", 0, 0x7F);
#else
      o[i] = (int)__vp_var("octet", 0, 255);
#endif
      p[i] = (Ch)o[i];
    }
  }
};
#ifdef FAR
// long texts: U+0000 but for the octets at both edges and one in between
#include <cstdlib>
static const long fars[] = {64, 257, 16, 33, 4099, 65539, 17, 31, 32, 63, 65, 100, 127, 128, 129, 255, 256, 1000, 65535, 65536, 0x80000010L, 0x100000020L};
#ifndef FARS
#define FARS 22
#endif
static const int leads[] = {0, 1, 2, 9, 33};
template <typename Ch> struct faroctets {
  long n; Ch *p; int lead, mid, tail[9]; long at; int first[40], m;
  void make() {
    n = fars[__vp_choose("octets", FARS)]; p = (Ch *)std::calloc(n, 1);
    int a = __vp_choose("first start", 9), b = __vp_choose("second start", 9), rest = __vp_choose("rest", 2); if (b && b != a + 3) __vp_kill();
    lead = leads[__vp_choose("leading continuation octets", 5)]; if (lead + 8 >= n) __vp_kill();
    for (int i = 0; i < lead; i++) { first[i] = (int)__vp_var("octet", 0x80, 0xBF); p[i] = (Ch)first[i]; }
    mid = __vp_choose("octet in between", 4); at = mid == 1 ? n - 9 : mid == 2 ? n / 2 : lead; if (at < lead || n - at <= 8 || (b && (lead || mid)) || (lead > 2 && mid)) __vp_kill();
    if (mid) { m = (int)__vp_var("octet in between", 0xC0, 0xFF); p[at] = (Ch)m; }
    for (int k = 1; k <= 8; k++) { tail[k] = k == a || k == b ? (int)__vp_var("octet", 0xC0, 0xFF) : rest ? (int)__vp_var("octet", 0x80, 0xBF) : (int)__vp_var("octet", 0, 0x7F); p[n - k] = (Ch)tail[k]; }
  }
  bool complete() { if (lead) return false; for (int k = 1; k <= 8; k++) if (start(tail[k]) && announced(tail[k]) > k) return false; return true; }
};
#ifdef ONLY_OCTETS
#elif defined(CHECKING)
CHECK check_far() {
  faroctets<char> t; t.make(); __vp_freeze(t.p, 1); bool got = utf8_bounds<const char *>::check(t.p, t.p + t.n);
  if (t.complete()) { __vp_assert(got, "the check accepts a long text whose edges are complete"); __vp_cover("long, accepted"); }
  else { __vp_assert(!got, "the check refuses a long text that is cut at an edge"); __vp_cover("long, refused"); }
}
#else
CHECK check_far() {
  faroctets<char> t; t.make(); bool want = t.complete(), got = utf8_bounds<char *>::enforce(t.p, t.p + t.n);
  __vp_assert(got == want, "enforce returns true exactly when nothing was replaced in a long text");
  for (int i = 0; i < t.lead; i++) __vp_assert_eq(t.p[i], '?', "leading continuation octet of a long text after enforce");
  for (int k = 1; k <= 8; k++) __vp_assert_eq((unsigned char)t.p[t.n - k], start(t.tail[k]) && announced(t.tail[k]) > k ? '?' : t.tail[k], "octet at the end of a long text after enforce");
  if (t.mid) __vp_assert_eq((unsigned char)t.p[t.at], t.m, "octet in between after enforce");
  if (t.n < 40 || (t.n < 300 && !t.mid && t.lead < 9 && !start(t.tail[1]) && !start(t.tail[2]) && !start(t.tail[3]) && !start(t.tail[4]))) for (long i = t.lead; i < t.n - 8; i++) if (!t.mid || i != t.at) __vp_assert_eq(t.p[i], 0, "octet in between after enforce");
  __vp_assert(utf8_bounds<const char *>::check(t.p, t.p + t.n), "the repaired long text passes the check"); if (want) __vp_cover("long, intact"); else __vp_cover("long, repaired");
}
#endif
#elif defined(ONLY_OCTETS)
#elif defined(CHECKING)
template <typename Ch, typename It> static void check_() {
  octets<Ch> t; t.make(); __vp_freeze(t.p, 1);
  bool got = utf8_bounds<It>::check((It)t.p, (It)t.p + t.n);
  bool want = true;
  if (t.n && cont(t.o[0])) want = false;
  for (int i = t.n - 1; want && i >= 0 && i >= t.n - 8; i--) if (start(t.o[i]) && announced(t.o[i]) > t.n - i) want = false;
  if (want) { __vp_assert(got, "the check accepts a text whose edges are complete"); __vp_cover("accepted"); }
  else { __vp_assert(!got, "the check refuses a text that is cut at an edge"); __vp_cover("refused"); }
}
CHECK check_char() { check_<char, const char *>(); }
#ifndef SPARSE
CHECK check_uchar() { check_<unsigned char, unsigned char *>(); }
#endif
#else
template <typename Ch, typename It> static void enforce_() {
  octets<Ch> t; t.make();
  int w[32]; bool want = true, lead = true;
  for (int i = 0; i < t.n; i++) {
    w[i] = t.o[i];
    if (lead && cont(t.o[i])) { w[i] = '?'; want = false; continue; }
    lead = false;
    if (t.n - i <= 8 && start(t.o[i]) && announced(t.o[i]) > t.n - i) { w[i] = '?'; want = false; }
  }
  bool got = utf8_bounds<It>::enforce((It)t.p, (It)t.p + t.n);
  __vp_assert(got == want, "enforce returns true exactly when nothing was replaced");
  for (int i = 0; i < t.n; i++) __vp_assert_eq((unsigned char)t.p[i], w[i], "octet after enforce");
  __vp_assert(utf8_bounds<It>::check((It)t.p, (It)t.p + t.n), "the repaired text passes the check");
  if (want) __vp_cover("intact"); else __vp_cover("repaired");
}
CHECK check_char() { enforce_<char, char *>(); }
#ifndef SPARSE
CHECK check_uchar() { enforce_<unsigned char, unsigned char *>(); }
#endif
#endif
