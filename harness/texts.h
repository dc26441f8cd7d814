// Texts of codepoints of known break class, in blocks of exactly their size.
#pragma once
#include "common.h"
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#ifndef CLASSES
#define CLASSES 25
#endif
#ifndef MAXN
#ifdef LONG
#define MAXN 301
#else
#define MAXN 6
#endif
#endif
#ifdef LONG
// lengths around the limits code likes to have, classes in patterns
static const int lens[] = {9, 257, 17, 33, 65, 129, 16, 32, 64, 128, 255, 256, 300};
#ifndef LENS
#define LENS 13
#endif
#undef N
#define N lens[__vp_choose("length", LENS)]
static const int patterns[][4] = {{0, 5, 5, 5}, {0, 0, 0, 0}, {1, 1, 1, 1}, {6, 6, 6, 6}, {0, 5, 0, 5}, {9, 9, 9, 9}, {2, 3, 5, 15}, {8, 8, 9, 10}};
#ifndef PATTERNS
#define PATTERNS 8
#endif
#endif
#ifndef FIRST
#define FIRST -1
#endif
// a smaller choice, enough for every outcome of the rules
static const int few_idx[] = {0, 5, 1, 2, 3, 15, 16, 6, 9, 13, 14, 7};
#ifdef ABSTRACT
// the class lookup is replaced by its contract: the i-th codepoint, any of a block of its own, has the class chosen for it
#include <u5e/props/grapheme_cluster_break.hpp>
static const long blocks[][2] = {{0x30, 0x3F}, {0x3B1, 0x3BF}, {0x4E00, 0x4FFF}, {0x20000, 0x203FF}, {0x40, 0x4F}, {0x5000, 0x51FF}, {0x400, 0x41F}, {0x20400, 0x207FF}};
static int block_class[8];
namespace u5e { namespace props {
grapheme_cluster_break::prop_value_type grapheme_cluster_break::resolve(codepoint c) {
  typedef prop_value_type t;
  static const t of[] = {t::OTHER, t::PREPEND, t::CR, t::LF, t::CONTROL, t::EXTEND, t::REGIONAL_INDICATOR, t::SPACINGMARK, t::L, t::V, t::T, t::LV, t::LVT, t::E_BASE, t::E_MODIFIER, t::ZWJ, t::GLUE_AFTER_ZWJ, t::E_BASE_GAZ};
  for (int i = 0; i < 8; i++) if (c.value >= blocks[i][0] && c.value <= blocks[i][1]) return of[block_class[i]];
  __vp_kill(); // not a codepoint of the text: not of this contract
  return t::OTHER;
}
}}
#endif
#ifdef ANY
// any codepoint at all, alone and next to others: {class, first, last} of each run of the database, and contexts {before, after}
static const cls_range any_runs[] = { ANY };
enum { NANY = sizeof any_runs / sizeof *any_runs };
static const int around[][2] = {{-1, -1}, {0, -1}, {1, -1}, {2, -1}, {5, -1}, {6, -1}, {8, -1}, {9, -1}, {10, -1}, {12, -1}, {13, -1}, {15, -1}, {-1, 0}, {-1, 3}, {-1, 5}, {-1, 6}, {-1, 7}, {-1, 8}, {-1, 9}, {-1, 10}, {-1, 14}, {-1, 15}, {-1, 16}, {-1, 17},
  {0, 0}, {0, 5}, {6, 6}, {13, 14}, {15, 15}, {21, 18}, {8, 10}};
#ifndef AROUND
#define AROUND 31
#endif
#endif
struct classed {
  int n; long cp[MAXN]; int cls[MAXN];
  void put(int i, const cls_range &r) { cls[i] = r.cls; cp[i] = __vp_var(cpname[i], r.lo, r.hi); }
  void pick(int count) {
    n = count;
#ifdef ANY
    int k = __vp_choose("class", NANY); const int *c = around[__vp_choose("context", AROUND)];
    n = 0; if (c[0] >= 0) put(n++, reps[c[0]]);
    put(n++, any_runs[k]); if (c[1] >= 0) put(n++, reps[c[1]]);
    return;
#endif
#ifdef LONG
    int pt = __vp_choose("pattern", PATTERNS);
    for (int i = 0; i < n; i++) {
      int r = patterns[pt][pt == 0 || pt == 3 || pt == 5 ? (i == 0 ? 0 : 1 + i % 3) : i % 4];
      cls[i] = reps[r].cls; long hi = reps[r].lo | 0x3F; cp[i] = __vp_var(cpname[i % 8], reps[r].lo, hi < reps[r].hi ? hi : reps[r].hi);
    }
    return;
#endif
    for (int i = 0; i < n; i++) {
      int r;
      if (FIRST >= 0 && i == 0) r = FIRST;
      else r = __vp_choose("class", CLASSES);
      if (CLASSES < 18) r = few_idx[r];
#ifdef ABSTRACT
      cls[i] = block_class[i] = reps[r].cls; cp[i] = __vp_var(cpname[i], blocks[i][0], blocks[i][1]);
#else
      cls[i] = reps[r].cls; cp[i] = __vp_var(cpname[i], reps[r].lo, reps[r].hi);
#endif
    }
  }
  bool boundary(int k) const { return k == 0 || k == n || ref_boundary(cls[k - 1], cls[k]); }
  int graphemes() const { int g = 0; for (int i = 0; i < n; i++) if (boundary(i)) g++; return g; }
  int start_of(int k) const { if (k == n) return n; while (!boundary(k)) k--; return k; }
  int end_of(int k) const { if (k == n) return n; k++; while (!boundary(k)) k++; return k; }
};
// a position of the text
static int place(const char *what, int n) {
#ifdef LONG
  int at[] = {n, n - 1, n / 2, 1, 0}; return at[__vp_choose(what, 5)];
#else
  return __vp_choose(what, n + 1);
#endif
}
struct u8text : classed {
  typedef u5e::utf8_string_view view; typedef char unit; typedef u5e::utf8_string string; typedef std::string native;
  text8<char, MAXN> t; char *p; int len; int off[MAXN + 1];
  void any(int maxn) { exactly(__vp_choose("codepoints", maxn + 1)); }
  void exactly(int k, const char *name = "text") { pick(k); for (int i = 0; i < n; i++) t.cp[i] = cp[i]; t.make(n, name); __vp_freeze(t.p, 1); p = t.p; len = t.len; for (int i = 0; i <= n; i++) off[i] = t.off[i]; }
  view v() { return view(std::experimental::string_view(t.p, t.len)); }
  view::const_iterator at(int k) { return view::const_iterator(v().native_cbegin() + t.off[k]); }
  long pos(view::const_iterator i) { return i.raw_iterator_ - t.p; }
};
struct u32text : classed {
  typedef u5e::utf32ne_string_view view; typedef int unit; typedef u5e::utf32ne_string string; typedef std::basic_string<int> native;
  int *p, len; int off[MAXN + 1];
  void any(int maxn) { exactly(__vp_choose("codepoints", maxn + 1)); }
  void exactly(int k, const char *name = "text") { pick(k); len = n; p = (int *)__vp_buf(name, 4 * n); for (int i = 0; i < n; i++) p[i] = (int)cp[i]; for (int i = 0; i <= n; i++) off[i] = i; __vp_freeze(p, 1); }
  view v() { return view(std::experimental::basic_string_view<int>(p, n)); }
  view::const_iterator at(int k) { return v().native_cbegin() + k; }
  long pos(view::const_iterator i) { return i - p; }
};
