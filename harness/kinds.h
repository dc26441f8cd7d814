// Texts of codepoints of chosen kinds, in every storage; the four forms as values.
#pragma once
#include "common.h"
#include "domain.h"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/filter.hpp>
struct kind { long lo, hi; };
// of every encoded length: inert, marks that reorder, pairs that compose, decompositions that grow and shrink in both encodings
static const kind kinds[] = {{0x41, 0x45}, {0x301, 0x301}, {0x323, 0x324}, {0xC0, 0xC3}, {0x1E0A, 0x1E0D}, {0x1100, 0x1102}, {0x1161, 0x1162}, {0x11A7, 0x11A9}, {0xAC00, 0xAC01}, {0x1F1E6, 0x1F1E8},
  {0x1D15E, 0x1D160}, {0x1D165, 0x1D166}, {0xFB01, 0xFB03}, {0x2126, 0x2126}, {0x340, 0x344}, {0xFDFA, 0xFDFA}, {0x10FFFD, 0x10FFFF}, {0x20000, 0x20001}, {0xD, 0xD}, {0xA, 0xA}, {0x7F, 0x80}, {0x7FF, 0x800}, {0xFFFF, 0x10000}, {0x2F800, 0x2F801}, {0x1F82, 0x1F83}, {0, 1}};
#ifndef KINDS
#define KINDS 26
#endif
#ifndef N
#define N 2
#endif
static int task; // chosen together with the first codepoint, so that the work can be divided by both
#ifdef ANY
static long any_kind(int i, int tasks = 1) { if (i) tasks = 1; int p = __vp_choose(i ? "part of a codepoint" : "part", PARTS * tasks); if (!i) task = p % tasks, p /= tasks; long lo = part_lo[p] < 0 ? 0 : part_lo[p], hi = part_lo[p + 1] - 1; if (hi > 0x10FFFF) hi = 0x10FFFF; if (lo > hi) __vp_kill(); return __vp_var(cpname[i], lo, hi); }
#else
static long any_kind(int i, int tasks = 1) { if (i) tasks = 1; int k = __vp_choose(i ? "kind" : "part", KINDS * tasks); if (!i) task = k % tasks, k /= tasks; return __vp_var(cpname[i], kinds[k].lo, kinds[k].hi); }
#endif
template <typename In, typename Out> static int normalize(int form, u5e::basic_grapheme<In> g, Out &o) {
  switch (form) {
  case 0: return u5e::normalization_form_d(g, o);
  case 1: return u5e::normalization_form_c(g, o);
  case 2: return u5e::normalization_form_kd(g, o);
  default: return u5e::normalization_form_kc(g, o);
  }
}
template <typename It, typename Out> static int normalize_all(int form, It from, It to, Out &o) {
  typedef typename It::value_type G;
  typedef int (*f)(G, Out &);
  return u5e::filter(from, to, o, [form](G g, Out &out) { return normalize(form, g, out); });
}
static long decode(const unsigned char *p, int *len) { // a well-formed one
  unsigned char b = p[0];
  if (b < 0x80) { *len = 1; return b; }
  if (b < 0xE0) { *len = 2; return (b - 0xC0) * 64L + (p[1] - 0x80); }
  if (b < 0xF0) { *len = 3; return (b - 0xE0) * 4096L + (p[1] - 0x80) * 64L + (p[2] - 0x80); }
  *len = 4; return (b - 0xF0) * 262144L + (p[1] - 0x80) * 4096L + (p[2] - 0x80) * 64L + (p[3] - 0x80);
}
static void same_codepoints(const std::string &a, size_t at, const std::basic_string<int> &b, size_t bt, const char *what) {
  unsigned char e[4];
  for (size_t i = bt; i < b.size(); i++) {
    int l = ref_enc(b[i], e); __vp_assert(at + l <= a.size(), what); if (at + l > a.size()) return;
    for (int j = 0; j < l; j++) __vp_assert_eq((unsigned char)a[at + j], e[j], what);
    at += l;
  }
  __vp_assert_eq(a.size(), at, what);
}
