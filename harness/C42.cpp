// C42: reading text asks for no memory and does not fail
#include "domain.h"
#include "texts.h"
#include <u5e/utf8_bounds.hpp>
#include <u5e/filter.hpp>
#include <u5e/version.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>
using namespace u5e;
#ifdef TEXTS
static int counted(const codepoint c, long &sum) { sum += c.value; return 1; }
template <typename T> static void reading(T &t, typename T::view v) {
  __vp_no_alloc(1);
  auto b = v.codepoint_cbegin(), e = v.codepoint_cend(); long sum = 0; int k = 0;
  for (auto i = b; i != e; i++) k++; for (auto i = b; i != e; ++i) k++; for (auto i = e; i != b; --i) k++; for (auto i = e; i != b; i--) k++;
  for (auto i = b; i != e; i++) { codepoint c = *i; k += c.value > 0x7FFFFFF0; }
  u5e::filter(b, e, sum, counted);
  typename T::view w(v), x; x = w; auto gb = v.grapheme_begin(), ge = v.grapheme_end();
  for (auto i = gb; i != ge; ++i) { auto g = *i; auto h(g); for (auto j = h.codepoint_begin(); j != h.codepoint_end(); ++j) k++; }
  for (auto i = gb; !(i == ge); i++) k++;
  int at = __vp_choose("position", 2); // all, or the last in a long text
#ifdef LONG
  auto from = t.at(at ? t.n / 2 : t.n - 1), to = from; ++to;
#else
  auto from = b, to = e; if (at) __vp_kill();
#endif
  for (auto i = from; i != to; ++i) { auto g = decltype(w.grapheme_begin())(w.codepoint_cbegin(), w.codepoint_cend(), i), h(g); k += g == i; k += g == h; h = g; k += h != ge; }
  __vp_no_alloc(0);
  __vp_assert(k > 0, "read"); __vp_cover("read");
}
CHECK check_utf8() { u8text t; t.exactly(N); reading(t, t.v()); }
CHECK check_utf32() { u32text t; t.exactly(N); reading(t, t.v()); }
#elif defined(OWNED)
template <typename S> static void owned(S &s) {
  __vp_no_alloc(1); int k = 0;
  for (auto i = s.codepoint_begin(); i != s.codepoint_end(); ++i) { codepoint c = *i; k += c.value >= 0; }
  for (auto i = s.codepoint_cbegin(); i != s.codepoint_cend(); i++) { codepoint c = *i; k += c.value >= 0; auto g = decltype(s.grapheme_begin())(s.codepoint_cbegin(), s.codepoint_cend(), i); k += g == i; }
  auto e = s.grapheme_end(); for (auto i = s.grapheme_begin(); i != e; ++i) { auto g = *i; k += g.codepoint_begin() != g.codepoint_end(); }
  __vp_no_alloc(0);
  __vp_assert(k > 0, "read"); __vp_cover("owned");
}
CHECK check_utf8() { u8text t; t.exactly(N); utf8_string s(std::string(t.p, t.len)); owned(s); }
CHECK check_utf32() { u32text t; t.exactly(N); utf32ne_string s(std::basic_string<int>(t.p, t.n)); owned(s); }
#else
CHECK check_lookups() {
  int c = any_int("codepoint"), d = __vp_choose("second", 3), r = 0; d = d == 0 ? 0x301 : d == 1 ? 0x1161 : -5;
  __vp_no_alloc(1);
  props::grapheme_cluster_break::resolve(codepoint(c)); props::canonical_combining_class::resolve(c);
  props::canonical_decomposition_mapping::resolve(c); props::compatibility_and_canonical_decomposition_mapping::resolve(c);
  props::canonical_composition_mapping::resolve(c, d, &r); props::canonical_composition_mapping::resolve(d, c, &r);
  __vp_no_alloc(0); __vp_cover("looked up");
}
CHECK check_pairs() {
  int a = any_int("first"), b = (int)vp_signed("second", -2147483648L, 2147483647L), r;
  __vp_no_alloc(1); props::canonical_composition_mapping::resolve(a, b, &r); __vp_no_alloc(0); __vp_cover("pairs");
}
CHECK check_ints() { // any ints as a text
  int *x = (int *)__vp_buf("text", 8); x[0] = any_int("first"); x[1] = __vp_choose("second", 2) ? 0x200D : (int)vp_signed("second", -0x80000000L, -1); __vp_freeze(x, 1);
  utf32ne_string_view v(std::experimental::basic_string_view<int>(x, 2));
  __vp_no_alloc(1); int k = 0; auto e = v.grapheme_end();
  for (auto i = v.grapheme_begin(); i != e && k < 3; ++i) { auto g = *i; k += g.codepoint_end() - g.codepoint_begin(); }
  auto s = decltype(v.grapheme_begin())(v.codepoint_cbegin(), v.codepoint_cend(), v.codepoint_cbegin() + 1); k += s == v.codepoint_cbegin();
  __vp_no_alloc(0); __vp_cover("ints");
}
CHECK check_octets() { // any octets
  int n = __vp_choose("octets", 5); char *p = (char *)__vp_buf("text", n); for (int i = 0; i < n; i++) p[i] = (char)__vp_var(cpname[i], 0, 255);
  __vp_no_alloc(1);
  bool ok = utf8_bounds<const char *>::check(p, p + n); char *q = p, *end = p + n; utf8_bounds<char *>::enforce(q, p + n);
  utf8_iterator<char *> i(p), e(end); int k = 0; if (n && ok) { ++i; k += i != e; }
  __vp_no_alloc(0); __vp_cover("octets");
}
CHECK check_write() {
  unsigned char *p = (unsigned char *)__vp_buf("octets", 8); for (int i = 0; i < 8; i++) p[i] = (unsigned char)__vp_hidden(0, 0x7F);
  __vp_no_alloc(1); utf8_iterator<char *> it((char *)p); *it = codepoint((int)any_cp(0)); ++it; __vp_no_alloc(0); __vp_cover("written");
}
#endif
