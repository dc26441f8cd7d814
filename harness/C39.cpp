// C39: what a normalization gives, normalized again
#include "kinds.h"
#include <vector>
using namespace u5e;
typedef std::experimental::basic_string_view<int> iview;
typedef std::experimental::string_view cview;
template <typename T> static void same(const T &a, const T &b, const char *what) {
  __vp_assert_eq(a.native_string.size(), b.native_string.size(), what); if (a.native_string.size() != b.native_string.size()) return;
  for (size_t i = 0; i < a.native_string.size(); i++) __vp_assert_eq(a.native_string[i], b.native_string[i], what);
}
static void twice(int form, int in8, int out8, const int *x, int n) {
  static const char *const what[] = {"form D twice", "form C twice", "form KD twice", "form KC twice"};
  if (out8) {
    utf8_string once, again; utf8_string t; utf8::append_from_utf32ne(x, x + n, t.native_string);
    if (in8) normalize_all(form, t.grapheme_begin(), t.grapheme_end(), once); else { utf32ne_string_view v(iview(x, n)); normalize_all(form, v.grapheme_begin(), v.grapheme_end(), once); }
    normalize_all(form, once.grapheme_begin(), once.grapheme_end(), again); same(again, once, what[form]);
  } else {
    utf32ne_string once, again; utf32ne_string_view v(iview(x, n));
    normalize_all(form, v.grapheme_begin(), v.grapheme_end(), once);
    normalize_all(form, once.grapheme_begin(), once.grapheme_end(), again); same(again, once, what[form]); __vp_cover("twice");
  }
}
#ifndef TASKS
#define TASKS 8 // forms, into UTF-32 and into UTF-8
#endif
#ifdef LONG
// long texts made of short ones
static const int bits[][5] = {{2, 0x61, 0x301}, {3, 0xC5, 0x323, 0x62}, {2, 0x1100, 0x1161}, {4, 0x73, 0x323, 0x307, 0x20}, {3, 0xAC00, 0x11A8, 0xFB01}, {2, 0xFB03, 0x30A}, {4, 0xD, 0xA, 0x1F1E6, 0x1F1E7}, {3, 0x1D15E, 0x345, 0x3B1}, {4, 0x3B1, 0x301, 0x345, 0x2126}};
CHECK check_long() {
  int n = longs[__vp_choose("length", LONGS)], k = __vp_choose("pattern", 10), form = __vp_choose("form", 4), out8 = __vp_choose("UTF-32, UTF-8", 2); int x[1100];
  for (int i = 0, j = 0, w = 0; i < n; i++) { const int *b = bits[k == 9 ? w % 9 : k]; x[i] = b[1 + j]; if (++j == b[0]) j = 0, w++; }
  twice(form, out8, out8, x, n);
}
#else
CHECK check_kinds() {
  int *x = (int *)__vp_buf("text", 4 * N);
  for (int i = 0; i < N; i++) x[i] = (int)any_kind(i, TASKS);
  __vp_freeze(x, 1); twice(task % 4, 0, task / 4, x, N);
}
#endif
