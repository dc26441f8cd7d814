// C13-C17: the lookups over every int, leaf by leaf; compared outside with the database
#include "domain.h"
#include <u5e/codepoint.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/utf32ne_string.hpp>
using namespace u5e;
static void leaf(int k, long v) { long out[2] = {k, v}; __vp_emit("leaf", out, 2); }
#if defined(GCB)
CHECK check_lookup() { int k = any_int("codepoint"); int v = props::grapheme_cluster_break::resolve(codepoint(k)); __vp_assert_eq(props::grapheme_cluster_break::resolve(codepoint(k)), v, "the same lookup again"); leaf(k, v); }
#elif defined(CCC)
CHECK check_lookup() { int k = any_int("codepoint"); int v = props::canonical_combining_class::resolve(k); __vp_assert_eq(props::canonical_combining_class::resolve(k), v, "the same lookup again"); leaf(k, v); }
#elif defined(COMPOSE)
CHECK check_lookup() {
  int a = any_int("first"), b = (int)vp_signed("second", -2147483648L, 2147483647L), r = -77;
  bool ok = props::canonical_composition_mapping::resolve(a, b, &r);
  if (!ok) __vp_assert_eq(r, -77, "a failed lookup leaves the result alone");
  int r2 = r; bool ok2 = props::canonical_composition_mapping::resolve(a, b, &r2); __vp_assert(ok2 == ok, "the same lookup again"); __vp_assert_eq(r2, r, "the same lookup again");
  long out[4] = {a, b, ok, r}; __vp_emit("leaf", out, 4);
}
#else
#ifdef COMPAT
#define F compatibility_and_canonical_decomposition
#else
#define F canonical_decomposition
#endif
template <typename S> static void decompose() {
  int k = any_int("codepoint"); S out; int prior = __vp_choose("prior content", 2) ? 2 : 0;
  for (int i = 0; i < prior; i++) out.native_string.push_back(65 + i);
  int n = F(codepoint(k), out), size = (int)out.native_string.size() - prior;
  __vp_assert_eq(n, size, "codepoints reported = codepoints appended");
  for (int i = 0; i < prior; i++) __vp_assert_eq(out.native_string[i], 65 + i, "prior content");
  S again; __vp_assert_eq(F(codepoint(k), again), n, "the same decomposition again"); __vp_assert_eq(again.native_string.size(), size, "the same decomposition again");
  for (int i = 0; i < size; i++) __vp_assert_eq(again.native_string[i], out.native_string[prior + i], "the same decomposition again");
  long o[32]; o[0] = k; o[1] = n; for (int i = 0; i < size && i < 30; i++) o[2 + i] = out.native_string[prior + i];
  __vp_emit("leaf", o, 2 + (size < 30 ? size : 30));
}
CHECK check_lookup() { decompose<utf32ne_string>(); }
#endif
