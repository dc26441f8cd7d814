// C25-C28: whole normalizations of short graphemes, leaf by leaf; compared outside with the database
#include "domain.h"
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/utf8_string.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/canonical_composition.hpp>
using namespace u5e;
#ifndef FORM
#define FORM normalization_form_kc
#endif
#ifdef WHOLE_TEXT
// one grapheme after the other into one output
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/filter.hpp>
static void normalize(const int *x, int n) {
  utf32ne_string_view v(std::experimental::basic_string_view<int>(x, n)); utf32ne_string out;
  int r = u5e::filter(v.grapheme_begin(), v.grapheme_end(), out, FORM<utf32ne_string_view, utf32ne_string>);
  int size = (int)out.native_string.size();
  static long o[2600]; o[0] = n; for (int i = 0; i < n; i++) o[1 + i] = x[i];
  o[1 + n] = r; for (int i = 0; i < size; i++) o[2 + n + i] = out.native_string[i];
  __vp_emit("leaf", o, 2 + n + size);
}
#elif defined(COMPOSE_ONLY)
static void normalize(const int *x, int n) {
  utf32ne_string s; for (int i = 0; i < n; i++) s.native_string.push_back(x[i]);
  int count = 0; utf32ne_string::iterator end = u5e::canonical_composition(s, &count); int size = end - s.codepoint_begin();
  __vp_assert(size >= 0 && size <= n, "the end returned lies in the text");
  static long o[2600]; o[0] = n; for (int i = 0; i < n; i++) o[1 + i] = x[i];
  o[1 + n] = n - count; for (int i = 0; i < size; i++) o[2 + n + i] = s.native_string[i];
  __vp_emit("leaf", o, 2 + n + size);
}
#else
static void normalize(const int *x, int n) {
  basic_grapheme<utf32ne_string_view> g(x, x + n);
  utf32ne_string out; out.native_string.push_back(35);
  int r = FORM<utf32ne_string_view, utf32ne_string>(g, out);
  __vp_assert(out.native_string.size() > 0 && out.native_string[0] == 35, "prior content");
  int size = (int)out.native_string.size() - 1;
  __vp_assert_eq(r, size, "codepoints reported = codepoints appended");
  static long o[2600]; o[0] = n; for (int i = 0; i < n; i++) o[1 + i] = x[i];
  o[1 + n] = r; if (size > 1300) size = 1300;
  for (int i = 0; i < size; i++) o[2 + n + i] = out.native_string[1 + i];
  __vp_emit("leaf", o, 2 + n + size);
}
#endif
#ifdef SINGLE
CHECK check_single() { int *x = (int *)__vp_buf("grapheme", 4); x[0] = any_int("codepoint"); __vp_freeze(x, 1); normalize(x, 1); }
CHECK check_empty() { int x[1] = {65}; normalize(x, 0); }
#endif
struct run_ { long lo, hi; };
#ifdef SECONDS
static const run_ seconds[] = { SECONDS };
enum { NSECONDS = sizeof seconds / sizeof *seconds };
CHECK check_pair() {
  int *x = (int *)__vp_buf("grapheme", 8); int k = __vp_choose("second", NSECONDS);
  x[1] = (int)__vp_var("second", seconds[k].lo, seconds[k].hi); x[0] = any_int("codepoint"); __vp_freeze(x, 1); normalize(x, 2);
}
#endif
#ifdef CONTEXTS
// any codepoint between given ones: {how many before, how many after, the codepoints}
static const int contexts[][6] = { CONTEXTS };
enum { NCONTEXTS = sizeof contexts / sizeof *contexts };
CHECK check_context() {
  int k = __vp_choose("context", NCONTEXTS); const int *c = contexts[k]; int n = c[0] + 1 + c[1];
  int *x = (int *)__vp_buf("grapheme", 4 * n);
  for (int i = 0; i < c[0]; i++) x[i] = c[2 + i];
  x[c[0]] = any_int("codepoint");
  for (int i = 0; i < c[1]; i++) x[c[0] + 1 + i] = c[2 + c[0] + i];
  __vp_freeze(x, 1); normalize(x, n);
}
#endif
#ifdef LONG
// one long sequence per pattern of marks: the sizes at which implementations change their way of working
static const int marks[] = {0x301, 0x323, 0x5B0, 0x345, 0x300, 0x327, 0x3099, 0x309A, 0x35C};
#ifndef LENS
#define LENS 21
#endif
CHECK check_long() {
  static const int lens[] = {7, 9, 15, 16, 17, 18, 24, 31, 32, 33, 40, 64, 65, 128, 129, 257, 63, 100, 127, 256, 300};
  int n = lens[__vp_choose("length", LENS)], pat = __vp_choose("pattern", 13), x[304];
  for (int i = 0; i < n; i++)
    switch (pat) {
    case 0: x[i] = marks[i % 9]; break;
    case 1: x[i] = i % 2 ? 0x301 : 0x300; break;
    case 2: x[i] = i ? (i % 2 ? 0x323 : 0x316) : 0x61; break;
    case 3: x[i] = i == 0 ? 0x61 : i < n / 2 ? 0x301 : 0x323; break;
    case 4: x[i] = i % 7 == 0 ? 0x41 : marks[(n - i) % 9]; break;
    case 5: x[i] = i == 0 ? 0x61 : i == n - 1 ? 0x323 : 0x300 + i % 4; break;
    case 6: x[i] = i % 3 == 0 ? 0x1112 : i % 3 == 1 ? 0x1175 : 0x11C2; break;
    case 7: x[i] = i == n - 1 ? 0x5B0 : 0x3B9; break;
    case 8: x[i] = i % 20 == 3 ? 0xFDFA : i % 2 ? 0xFB01 : 0x2460; break;          // decompositions of many lengths
    case 9: x[i] = i % 3 == 0 ? 0xAC00 + 28 * i : i % 3 == 1 ? 0xAC01 + i : 0x11A8; break;
    case 10: x[i] = i % 2 ? 0x1F82 : 0x344; break;                                    // decompositions that have to be ordered
    case 11: x[i] = 0x61 + i % 26; break;
    default: x[i] = i == 0 ? 0x1100 : i == 1 ? 0x1161 : i == n - 1 ? 0x301 : 0x200D; break;
    }
  normalize(x, n);
}
#endif
#ifdef SMALL
static const run_ small[] = { SMALL };
enum { NSMALL = sizeof small / sizeof *small };
CHECK check_small() {
  int *x = (int *)__vp_buf("grapheme", 4 * N);
  for (int i = 0; i < N; i++) { int k = __vp_choose(i ? "codepoint" : "class", NSMALL); x[i] = (int)__vp_var("codepoint", small[k].lo, small[k].hi); }
  __vp_freeze(x, 1); normalize(x, N);
}
#endif
