// Histories: calls made before an analysis, where the code under analysis keeps state between calls.
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
#include <u5e/utf8_bounds.hpp>
#include "kinds.h"
using namespace u5e;
static const int some[] = {0x41, 0x301, 0xD, 0xA, 0x1F1E6, 0xAC00, 0xAC01, 0x1100, 0x1161, 0x11A8, 0xC0, 0x1E69, 0xFB01, 0xFDFA, 0x3042, 0x20000, 0x10FFFF, 0, 0x323, 0x94D};
enum { SOME = sizeof some / sizeof *some };
static void look(int c) {
  int r; props::grapheme_cluster_break::resolve(codepoint(c)); props::canonical_combining_class::resolve(c);
  props::canonical_decomposition_mapping::resolve(c); props::compatibility_and_canonical_decomposition_mapping::resolve(c);
  props::canonical_composition_mapping::resolve(c, 0x301, &r); props::canonical_composition_mapping::resolve(0x41, c, &r);
  utf32ne_string o; canonical_decomposition(codepoint(c), o); compatibility_and_canonical_decomposition(codepoint(c), o);
}
static int number(const codepoint c, utf32ne_string &o) { o.native_string.push_back(c.value); return 1; }
template <typename G> static void forms(G g) {
  { utf32ne_string o; for (int f = 0; f < 4; f++) normalize(f, g, o); } { utf8_string o; for (int f = 0; f < 4; f++) normalize(f, g, o); }
}
static void text(const int *x, int n) {
  forms(basic_grapheme<utf32ne_string_view>(x, x + n));
  std::basic_string<int> i(x, n); utf32ne_string t(i); utf8_string u; forms(basic_grapheme<utf32ne_string>(t.codepoint_cbegin(), t.codepoint_cend())); utf32ne_string o; utf8_string o8;
  u.append_from_utf32ne<utf32ne_string>(t.codepoint_cbegin(), t.codepoint_cend());
  forms(basic_grapheme<utf8_string>(u.codepoint_cbegin(), u.codepoint_cend()));
  u5e::filter(u.codepoint_cbegin(), u.codepoint_cend(), o, number);
  for (int f = 0; f < 4; f++) { normalize_all(f, u.grapheme_begin(), u.grapheme_end(), o); normalize_all(f, t.grapheme_begin(), t.grapheme_end(), o8); }
  utf8_string copy(u), c2; c2.append(copy.codepoint_cbegin(), copy.codepoint_cend()); c2 = u;
  auto g = c2.grapheme_begin(), e = c2.grapheme_end(); copy.append(g, e);
  utf8_bounds<std::string::iterator>::check(copy.native_begin(), copy.native_end()); utf8_bounds<std::string::iterator>::enforce(copy.native_begin(), copy.native_end());
  utf8_string::const_iterator a = c2.codepoint_cend(), b = c2.codepoint_cbegin(); while (a != b) --a;
  int count = 0; utf32ne_string o2(i); canonical_composition(o2, &count);
}
extern "C" void vp_warm_0() { for (int i = 0; i < SOME; i++) look(some[i]); text(some, 6); look(0x301); }
extern "C" void vp_warm_1() { for (int i = SOME; i-- > 0;) look(some[i]); look(0x3042); }
extern "C" void vp_warm_2() { int x[40]; for (int i = 0; i < 40; i++) x[i] = i ? 0x300 + i % 5 : 0x61; text(some, SOME); text(x, 1); look(0x10FFFF); text(x, 40); }
extern "C" void vp_warm_3() { for (int k = 0; k < 20; k++) for (int i = 0; i < SOME; i++) look(some[i] + k); for (int k = 0; k < 9; k++) text(some + k, 3); look(0xFB01); }
