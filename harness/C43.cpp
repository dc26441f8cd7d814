// C43: what an operation costs, in instructions along the path, as the text grows
#include "texts.h"
#include <u5e/utf8_bounds.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/filter.hpp>
#ifndef BASE
#define BASE 128
#endif
using namespace u5e;
// graphemes of one to three codepoints, of every encoded length, some that compose and decompose
static const int parts[][3] = {{0x61, 0, 0}, {0xE9, 0, 0}, {0x65, 0x301, 0}, {0x4E00, 0, 0}, {0xAC01, 0, 0}, {0x1100, 0x1161, 0x11A8}, {0x1F1E6, 0x1F1E7, 0}, {0x20000, 0, 0}, {13, 10, 0}, {0x1F385, 0x1F3FB, 0}, {0xFB01, 0, 0}};
enum { PATTERNS_ = 6 };
struct grown { // n graphemes
  int n, m, *p32; char *p8; int len8;
  void make(int pat, int count) {
    n = count; m = 0; len8 = 0; p32 = (int *)__vp_buf("UTF-32", 12 * n); unsigned char *o = (unsigned char *)__vp_buf("UTF-8", 12 * n);
    for (int i = 0; i < n; i++) { const int *g = parts[pat == 0 ? 0 : pat == 1 ? 2 : pat == 2 ? 3 : pat == 3 ? 7 : pat == 4 ? i % 11 : i % 3]; for (int j = 0; j < 3 && g[j]; j++) { p32[m++] = g[j]; len8 += ref_enc(g[j], o + len8); } }
    p8 = (char *)o;
  }
  utf8_string_view v8() { return utf8_string_view(std::experimental::string_view(p8, len8)); }
  utf32ne_string_view v32() { return utf32ne_string_view(std::experimental::basic_string_view<int>(p32, m)); }
};
template <typename It> static void walk(It b, It e) { while (b != e) { *b; ++b; } }
template <typename It> static void walk_post(It b, It e) { while (b != e) { *b; b++; } }
template <typename It> static void back(It b, It e) { while (e != b) { --e; *e; } }
template <typename V> static void count(V v) { auto b = v.codepoint_cbegin(); auto e = v.codepoint_cend(); __vp_assert(std::distance(b, e) > 0, "distance"); }
template <typename V, typename O> static void form(V v, O &o, int k) {
  typedef basic_grapheme<V> G; typedef int (*F)(G, O &);
  F f[] = {normalization_form_d<V, O>, normalization_form_c<V, O>, normalization_form_kd<V, O>, normalization_form_kc<V, O>};
  filter(v.grapheme_begin(), v.grapheme_end(), o, f[k]);
}
template <typename V> static void graphemes(V v) { auto e = v.grapheme_end(); for (auto i = v.grapheme_begin(); i != e; ++i) { auto g = *i; walk(g.codepoint_begin(), g.codepoint_end()); } }
template <typename V> static void seek(V v, typename V::const_iterator at) { basic_grapheme_iterator<V> i(v.codepoint_cbegin(), v.codepoint_cend(), at); auto g = *i; __vp_assert(g.codepoint_begin() != g.codepoint_end(), "a grapheme"); }
enum { OPS = 24 };
static const char *const linear = "twice the text costs more than two and a half times as much";
static long cost(int op, grown &t) {
  utf8_string o8; utf32ne_string o32; long at = __vp_steps();
  switch (op) {
  case 0: walk(t.v8().codepoint_cbegin(), t.v8().codepoint_cend()); break;
  case 1: walk_post(t.v8().codepoint_cbegin(), t.v8().codepoint_cend()); break;
  case 2: back(t.v8().codepoint_cbegin(), t.v8().codepoint_cend()); break;
  case 3: count(t.v8()); break;
  case 4: graphemes(t.v8()); break;
  case 5: graphemes(t.v32()); break;
  case 6: case 7: case 8: case 9: form(t.v8(), o8, op - 6); break;
  case 10: case 11: case 12: case 13: form(t.v32(), o32, op - 10); break;
  case 14: o8.append<std::experimental::string_view>(t.v8().codepoint_cbegin(), t.v8().codepoint_cend()); break;
  case 15: o32.append<std::experimental::basic_string_view<int>>(t.v32().codepoint_cbegin(), t.v32().codepoint_cend()); break;
  case 16: o8.append_from_utf32ne<std::experimental::basic_string_view<int>>(t.v32().codepoint_cbegin(), t.v32().codepoint_cend()); break;
  case 17: o32.append_from_utf32ne<std::experimental::basic_string_view<int>>(t.v32().codepoint_cbegin(), t.v32().codepoint_cend()); break;
  case 18: { auto i = t.v8().grapheme_begin(), e = t.v8().grapheme_end(); if (t.n > 1) { o8.append<std::experimental::string_view>(i, e); } break; }
  case 19: { int n = 0; filter(t.v8().codepoint_cbegin(), t.v8().codepoint_cend(), n, [](codepoint, int &k) { k++; return 1; }); break; }
  case 20: utf8_bounds<const char *>::check(t.p8, t.p8 + t.len8); break;
  case 21: utf8_bounds<char *>::enforce(t.p8, t.p8 + t.len8); break;
  case 22: { utf8_iterator<char *> b(t.p8), e(t.p8 + t.len8); while (b != e) { *b = (codepoint)*b; ++b; } break; }
  case 23: for (auto i = t.v8().grapheme_begin(), e = t.v8().grapheme_end(); i != e; i++) { auto g = *i; o8.append<std::experimental::string_view>(g.codepoint_begin(), g.codepoint_end()); } break;
  }
  return __vp_steps() - at;
}
CHECK check_growth() {
  int w = __vp_choose("operation", OPS * PATTERNS_), op = w / PATTERNS_, pat = w % PATTERNS_;
  grown a, b, c; a.make(pat, BASE); b.make(pat, 2 * BASE); c.make(pat, 4 * BASE);
  cost(op, a); // what is built once
  long x = cost(op, a), y = cost(op, b), z = cost(op, c);
  __vp_assert(2 * y <= 5 * x + 2000, linear); __vp_assert(2 * z <= 5 * y + 2000, linear);
  __vp_cover("growth");
}
// one step: the same anywhere, in a text of any length
enum { STEPS = 9 };
static long one(int op, grown &t, int where) {
  const char *p = t.p8 + (long)t.len8 * where / 4; while (p > t.p8 && (*p & 0xC0) == 0x80) p--;
  const int *q = t.p32 + (long)t.m * where / 4; utf8_string_view::const_iterator i(p), j(i); utf32ne_string_view v = t.v32(); long at = __vp_steps();
  switch (op) {
  case 0: ++i; break;
  case 1: if (where) --i; break;
  case 2: *i; break;
  case 3: i == j; break;
  case 4: { auto e = t.v8().codepoint_cend(); i != e; break; }
  case 5: seek(t.v8(), i); break;
  case 6: seek(v, q); break;
  case 7: { basic_grapheme_iterator<utf8_string_view> g(t.v8().codepoint_cbegin(), t.v8().codepoint_cend(), i); auto e = t.v8().grapheme_end(); ++g; g == e; break; }
  case 8: { basic_grapheme_iterator<utf8_string_view> g(t.v8().codepoint_cbegin(), t.v8().codepoint_cend(), i), h(g); g == h; g == i; *g++; break; }
  }
  return __vp_steps() - at;
}
CHECK check_step() {
  int w = __vp_choose("operation", STEPS * PATTERNS_), op = w / PATTERNS_, pat = w % PATTERNS_, where = __vp_choose("quarter", 4);
  grown a, c; a.make(pat, BASE / 2); c.make(pat, 8 * BASE); one(op, a, where);
  long x = one(op, a, where), most = x; for (int k = 0; k < 4; k++) { long y = one(op, a, k); if (y > most) most = y; }
  long z = one(op, c, where);
  __vp_assert(z <= 3 * most + 1000, "a step costs more in a longer text");
  __vp_cover("step");
}
