// C44: when memory runs out, or the caller's operation throws
#include "kinds.h"
using namespace u5e;
typedef std::experimental::basic_string_view<int> iview;
typedef std::experimental::string_view cview;
#ifndef TAILS
#define TAILS 3
#endif
// what follows the codepoints chosen: nothing, marks out of order, more than a small string holds
static const int tails[][13] = {{0}, {0x301, 0x323, 0x300, 0x5AE, 0}, {0x61, 0x301, 0x323, 0xAC01, 0x1D160, 0x62, 0x63, 0x344, 0xFB03, 0x64, 0x65, 0x66, 0}};
static const int plens[] = {0, 3, 15, 40};
struct shown { int n; long cp[16]; void make() { for (n = 0; n < N; n++) cp[n] = any_kind(n, 8); const int *t = tails[__vp_choose("tail", TAILS)]; while (*t) cp[n++] = *t++; } };
template <typename S> static void given(S &out, int k, long *prior) { for (int i = 0; i < k; i++) { prior[i] = 'a' + i % 26; out.native_string.push_back(prior[i]); } }
template <typename S> static void kept(S &out, int k, long *prior, S &whole, bool all) {
  __vp_assert(out.native_string.size() >= k && out.native_string.size() <= k + whole.native_string.size(), "size of the output after the operation failed");
  for (int i = 0; i < k; i++) __vp_assert_eq(out.native_string[i], prior[i], "content of the output from before");
  int n = out.native_string.size() - k; if (all) __vp_assert_eq(n, whole.native_string.size(), "size of the output");
  for (int i = 0; i < n; i++) __vp_assert_eq(out.native_string[k + i], whole.native_string[i], "what was appended is where the whole result begins");
}
// op(output): what is done; once with memory enough, then as memory runs out, then once more
template <typename Out, typename Op> static void tried(Op op, const char *failed, const char *enough) {
  { Out first; op(first); } // what the library keeps, it has now
  long live = __vp_live(); {
  Out whole, out; long prior[40];
  int want = op(whole);
  int k = plens[__vp_choose("prior length", 4)]; given(out, k, prior);
  long before = __vp_live(); bool thrown = false; int got = 0;
  __vp_fail_alloc(1 + __vp_choose("some or one allocation fails", 2));
  try { got = op(out); } catch (...) { thrown = true; }
  bool short_ = __vp_alloc_failed(); __vp_fail_alloc(0);
  kept(out, k, prior, whole, !thrown);
  if (thrown) { __vp_assert(short_, "an exception although memory sufficed"); __vp_cover(failed); } else { __vp_assert_eq(got, want, "the count when memory was short"); if (!short_) __vp_cover(enough); }
  __vp_assert(__vp_live() <= before + 1, "memory is released when the operation failed");
  // the output is as good as before
  out.native_string.resize(k); got = op(out); __vp_assert_eq(got, want, "the count of the next try"); kept(out, k, prior, whole, true);
  }
  __vp_assert_eq(__vp_live(), live, "all memory is released");
}
template <typename In, typename Out, typename T> static void forms(int form, T &t) {
  tried<Out>([&](Out &o) { return normalize(form, basic_grapheme<In>(t.codepoint_cbegin(), t.codepoint_cend()), o); }, "a form without memory", "a form with memory enough");
}
static int *units32(const shown &c) { int *p = (int *)__vp_buf("text", 4 * c.n); for (int i = 0; i < c.n; i++) p[i] = (int)c.cp[i]; __vp_freeze(p, 1); return p; }
CHECK check_forms() {
  shown c; c.make(); int form = task % 4;
  if (task / 4) { text8<char, 16> t; for (int i = 0; i < c.n; i++) t.cp[i] = c.cp[i]; t.make(c.n); __vp_freeze(t.p, 1); utf8_string_view v(cview(t.p, t.len)); forms<utf8_string_view, utf8_string>(form, v); }
  else { utf32ne_string_view v(iview(units32(c), c.n)); forms<utf32ne_string_view, utf32ne_string>(form, v); }
}
CHECK check_appends() {
  shown c; c.make(); text8<char, 16> t; for (int i = 0; i < c.n; i++) t.cp[i] = c.cp[i]; t.make(c.n); __vp_freeze(t.p, 1);
  utf8_string_view v8(cview(t.p, t.len)); utf32ne_string_view v32(iview(units32(c), c.n));
  switch (task) {
  case 0: tried<utf8_string>([&](utf8_string &o) { o.append<cview>(v8.codepoint_cbegin(), v8.codepoint_cend()); return 0; }, "append UTF-8 without memory", "append UTF-8 with memory enough"); break;
  case 1: tried<utf32ne_string>([&](utf32ne_string &o) { o.append<iview>(v32.codepoint_cbegin(), v32.codepoint_cend()); return 0; }, "append UTF-32 without memory", "append UTF-32 with memory enough"); break;
  case 2: tried<utf8_string>([&](utf8_string &o) { o.append_from_utf32ne<iview>(v32.codepoint_cbegin(), v32.codepoint_cend()); return 0; }, "convert to UTF-8 without memory", "convert to UTF-8 with memory enough"); break;
  case 3: tried<utf32ne_string>([&](utf32ne_string &o) { o.append_from_utf32ne<iview>(v32.codepoint_cbegin(), v32.codepoint_cend()); return 0; }, "convert to UTF-32 without memory", "convert to UTF-32 with memory enough"); break;
  default: __vp_kill();
  }
}

// strings copied and assigned
template <typename S> static void values(S &from) {
  long live = __vp_live(); {
  S to; long prior[40]; int k = plens[__vp_choose("prior length", 4)]; given(to, k, prior); bool thrown = false;
  int how = __vp_choose("copy or assign", 3); __vp_fail_alloc(1);
  try { if (how == 0) { S other(from); __vp_assert_eq(other.native_string.size(), from.native_string.size(), "size of a copy"); } else if (how == 1) to = from; else { S other(from.native_string); to = other; } } catch (...) { thrown = true; }
  bool short_ = __vp_alloc_failed(); __vp_fail_alloc(0);
  S &now = thrown || how == 0 ? to : from;
  if (thrown) __vp_assert(short_, "an exception although memory sufficed");
  if (thrown || how == 0) { __vp_assert_eq(to.native_string.size(), k, "size of a string that could not be assigned"); for (int i = 0; i < k; i++) __vp_assert_eq(to.native_string[i], prior[i], "content of a string that could not be assigned"); }
  else { __vp_assert_eq(to.native_string.size(), from.native_string.size(), "size of a string assigned"); for (size_t i = 0; i < from.native_string.size(); i++) __vp_assert_eq(to.native_string[i], from.native_string[i], "content of a string assigned"); }
  __vp_cover(thrown ? "copy without memory" : "copy with memory enough");
  }
  __vp_assert_eq(__vp_live(), live, "all memory is released");
}
CHECK check_values() {
  long live = __vp_live(); { int k = plens[__vp_choose("length", 4)]; long x[40];
  if (__vp_choose("encoding", 2)) { utf8_string s; given(s, k, x); values(s); } else { utf32ne_string s; given(s, k, x); values(s); } }
  __vp_assert_eq(__vp_live(), live, "all memory is released");
}
// an operation of the caller that throws
struct stop {};
CHECK check_throws() {
  long live = __vp_live(); {
  enum { M = 20 }; int n = __vp_choose("codepoints", 2) ? M : 4; text8<char, M> t; for (int i = 0; i < n; i++) t.cp[i] = i % 3 ? __vp_hidden(0x61, 0x6F) : __vp_hidden(0x400, 0x40F); t.make(n); __vp_freeze(t.p, 1);
  utf8_string_view v(cview(t.p, t.len)); int at = n == M ? M - 1 : __vp_choose("which call throws", n + 1), calls = 0; bool caught = false; utf32ne_string out; long sum = 0;
  auto op = [&](codepoint c, utf32ne_string &o) -> int { if (calls == at) throw stop(); calls++; o.native_string.push_back(c.value); sum += 2; return 2; };
  try { int r = filter(v.codepoint_cbegin(), v.codepoint_cend(), out, op); __vp_assert_eq(r, sum, "the sum of the results"); } catch (stop &) { caught = true; }
  __vp_assert_eq(caught, at < n, "an exception of the operation reaches the caller"); __vp_assert_eq(calls, at < n ? at : n, "no call after the one that threw");
  __vp_assert_eq(out.native_string.size(), calls, "what the calls before it appended");
  for (int i = 0; i < calls; i++) __vp_assert_eq(out.native_string[i], t.cp[i], "what the calls before it appended");
  if (caught) { __vp_cover("operation throws"); } else { __vp_cover("operation does not throw"); }
  }
  __vp_assert_eq(__vp_live(), live, "all memory is released");
}
// one that throws while graphemes of a text are normalized
CHECK check_graphemes() {
  shown c; c.make(); int form = task % 4; text8<char, 16> t; for (int i = 0; i < c.n; i++) t.cp[i] = c.cp[i]; t.make(c.n); __vp_freeze(t.p, 1);
  utf8_string_view v(cview(t.p, t.len)); if (task / 4) __vp_kill();
  tried<utf8_string>([&](utf8_string &o) { return normalize_all(form, v.grapheme_begin(), v.grapheme_end(), o); }, "all graphemes without memory", "all graphemes with memory enough");
}
