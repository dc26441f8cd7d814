// C12: appending a range of graphemes
#ifndef N
#define N 2
#endif
#include "texts.h"
#if defined(LONG) || defined(ABSTRACT)
#define SIZE exactly
#else
#define SIZE any
#endif
using namespace u5e;
template <typename SrcS> struct explicit_form { template <typename O, typename I> O &operator()(O &o, I &f, I &l) { return o.template append<SrcS>(f, l); } };
struct plain_form { template <typename O, typename I> O &operator()(O &o, I &f, I &l) { return o.append(f, l); } };
template <typename T, typename Src, typename Form> static void gappend(T &t, Src &src, Form form) {
  int total = t.graphemes();
#ifdef ANY
  int a = __vp_choose("first grapheme", total), b = total;
#else
  int a = place("first grapheme", total), b = place("last grapheme", total); if (a > b) __vp_kill();
#endif
  auto first = src.grapheme_begin(), last = src.grapheme_begin();
  for (int i = 0; i < a; i++) ++first;
  for (int i = 0; i < b; i++) ++last;
  // first codepoints of the graphemes
  int ka = 0, kb = 0; for (int g = 0; g < a; g++) ka = t.end_of(ka); for (int g = 0; g < b; g++) kb = t.end_of(kb);
  typename T::string out; out.native_string.push_back(35); out.native_string.push_back(36);
  typename T::string &r = form(out, first, last);
  __vp_assert(&r == &out, "append returns the text");
  int oa = t.off[ka], ob = t.off[kb];
  __vp_assert_eq(out.native_string.size(), 2 + ob - oa, "size of the text after appending graphemes");
  __vp_assert(out.native_string[0] == 35 && out.native_string[1] == 36, "prior content");
  for (int k = oa; k < ob; k++) {
    if (sizeof(typename T::unit) == 1) __vp_assert_eq((unsigned char)out.native_string[2 + k - oa], (unsigned char)t.p[k], "unit of the appended graphemes");
    else __vp_assert_eq(out.native_string[2 + k - oa], t.p[k], "codepoint of the appended graphemes");
  }
  __vp_cover("graphemes appended");
}
template <typename T> static void go() {
  T t; t.SIZE(N);
#ifdef VIEW // the others in scenarios of their own
  int own = 0;
#elif defined(STRING)
  int own = 1 + __vp_choose("string, plain form, all", 3);
#else
  int own = __vp_choose("view, string, plain form, all", 4);
#endif
  if (own == 0) { typename T::view v = t.v(); gappend(t, v, explicit_form<decltype(v.native_string)>()); }
  else { typename T::string s(typename T::native(t.p, t.len));
    if (own == 1) gappend(t, s, explicit_form<typename T::native>());
    else if (own == 2) gappend(t, s, plain_form());
    else { auto f = s.grapheme_begin(), l = s.grapheme_end(); typename T::string out; out.append(f, l); __vp_assert_eq(out.native_string.size(), t.len, "size after appending all graphemes"); }
  }
}
CHECK check_utf8() { go<u8text>(); }
CHECK check_utf32() { go<u32text>(); }
