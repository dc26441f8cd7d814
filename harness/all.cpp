// every public operation of the library, instantiated over its storages and encodings
#include "C09.h"
#include <u5e/version.hpp>
#include <algorithm>
#include <u5e/codepoint.hpp>
#include <u5e/codepoint_traits.hpp>
#include <u5e/encoding_assertion.hpp>
#include <u5e/iterator_assertion.hpp>
#include <u5e/utf8_util.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/utf8_string_grapheme_iterator.hpp>
#include <u5e/utf8_string_view_grapheme.hpp>
#include <u5e/utf8_string_view_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_grapheme.hpp>
#include <u5e/utf32ne_string_grapheme_iterator.hpp>
#include <u5e/utf32ne_string_view_grapheme.hpp>
#include <u5e/utf32ne_string_view_grapheme_iterator.hpp>
#include <u5e/props/grapheme_cluster_break.hpp>
#include <u5e/props/canonical_combining_class.hpp>
#include <u5e/props/canonical_composition_mapping.hpp>
#include <u5e/props/canonical_decomposition_mapping.hpp>
#include <u5e/props/compatibility_and_canonical_decomposition_mapping.hpp>

template <typename It> static int walk(It a, It b) {
  int n = 0;
  for (It i = a; i != b; ++i) n += *i;
  for (It i = a; !(i == b); i++) n += int(*i);
  if (a != b) { It e(b); --e; It f(b); f--; n += *e + *f; }
  return n;
}
struct functor { int* seen; template <typename O> int operator()(codepoint c, O& o) const { *seen += c; o.native_string.push_back(c); return 1; } };
template <typename T> static int read(T& t) {
  int n = walk(t.codepoint_cbegin(), t.codepoint_cend()) + walk(t.codepoint_begin(), t.codepoint_end());
  n += t.native_begin() == t.native_end(); n += t.native_cbegin() == t.native_cend();
  basic_grapheme_iterator<T> i = t.grapheme_begin(), e = t.grapheme_end(), c(i), s(t.codepoint_cbegin(), t.codepoint_cend(), t.codepoint_cend()), p(t.codepoint_cbegin(), t.codepoint_cend(), t.codepoint_cbegin(), t.codepoint_cend());
  while (i != e) { basic_grapheme<T> g = *i; n += walk(g.codepoint_begin(), g.codepoint_end()); n += i == g.codepoint_begin(); n += i != g.codepoint_end(); n += c == i; ++i; c++; }
  u32s out; int seen = 0;
  n += filter(t.codepoint_cbegin(), t.codepoint_cend(), out, functor{&seen});
  n += filter(t.codepoint_cbegin(), t.codepoint_cend(), out, canonical_decomposition<u32s>);
  n += filter(t.codepoint_cbegin(), t.codepoint_cend(), out, compatibility_and_canonical_decomposition<u32s>);
  n += filter(t.codepoint_begin(), t.codepoint_end(), out, canonical_decomposition<u32s>);
  n += i.is_grapheme_boundary(codepoint(65), codepoint(66)); i.find_end_of_grapheme(); i.find_start_of_grapheme();
  return n + (s == p);
}
template <typename T, typename O> static int norm(T& t, O& o) {
  int n = 0;
  for (basic_grapheme_iterator<T> i = t.grapheme_begin(); i != t.grapheme_end(); ++i)
    n += normalization_form_c(*i, o) + normalization_form_d(*i, o) + normalization_form_kc(*i, o) + normalization_form_kd(*i, o);
  n += filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_c<T, O>) + filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_d<T, O>);
  n += filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kc<T, O>) + filter(t.grapheme_begin(), t.grapheme_end(), o, normalization_form_kd<T, O>);
  return n;
}
template <typename D, typename S> static void add(D& d, S& s) {
  d.template append<native<S>>(s.codepoint_cbegin(), s.codepoint_cend());
  auto b = s.grapheme_begin(); auto e = s.grapheme_end(); d.append(b, e);
}
template <typename D> static void same(D& d, D& s) {
  d.append(s.codepoint_cbegin(), s.codepoint_cend()); auto b = s.grapheme_begin(); auto e = s.grapheme_end(); d.append(b, e);
  D x; x = s; D y(s), z(s.native_string); z = x; d = z; d = y; d = s.native_string;
}
template <typename N> static int bounds(N& n) {
  utf8_bounds<typename N::iterator> o; (void)o;
  return utf8_bounds<typename N::iterator>::check(n.begin(), n.end()) + utf8_bounds<typename N::iterator>::enforce(n.begin(), n.end());
}
int all_texts(u8s& a, u8v& b, u32s& c, u32v& d) { return read(a) + read(b) + read(c) + read(d); }
int all_forms(u8s& a, u8v& b, u32s& c, u32v& d) {
  u8s o8; u32s o32;
  return norm(a, o8) + norm(b, o8) + norm(c, o8) + norm(d, o8) + norm(a, o32) + norm(b, o32) + norm(c, o32) + norm(d, o32);
}
void all_appends(u8s& x, u32s& y, u8s& a, u8v& b, u32s& c, u32v& d) {
  add(x, a); add(x, b); add(y, c); add(y, d); same(x, a); same(y, c);
  u8v vb(b), vc; vc = vb; vc = b.native_string; u32v ve(d), vf; vf = ve; vf = d.native_string;
  x.append_from_utf32ne<native<u32s>>(c.codepoint_cbegin(), c.codepoint_cend()); x.append_from_utf32ne<native<u32v>>(d.codepoint_cbegin(), d.codepoint_cend());
  y.append_from_utf32ne<native<u32s>>(c.codepoint_cbegin(), c.codepoint_cend()); y.append_from_utf32ne<native<u32v>>(d.codepoint_cbegin(), d.codepoint_cend());
}
int all_octets(std::string& s, std::vector<char>& v, std::list<char>& l, char* p, char* q, const char* r, const char* t) {
  int n = bounds(s) + bounds(v) + utf8_bounds<const char*>::check(r, t) + utf8_bounds<char*>::check(p, q) + utf8_bounds<char*>::enforce(p, q);
  n += walk(utf8_iterator<char*>(p), utf8_iterator<char*>(q)) + walk(utf8_const_iterator<const char*>(r), utf8_const_iterator<const char*>(t)) + walk(utf8_const_iterator<std::list<char>::const_iterator>(l.cbegin()), utf8_const_iterator<std::list<char>::const_iterator>(l.cend()));
  utf8_iterator<char*> w(p), x(p); *w = codepoint(n); *w = 65; ++w; auto y = w++; auto z = w--; n += x == y; n += y != z;
  n += std::count(utf8_const_iterator<const char*>(r), utf8_const_iterator<const char*>(t), codepoint(3));
  utf8_iterator<std::list<char>::iterator> k(l.begin()); *k = codepoint(n);
  return n;
}
void all_steps(u32s& s) { int n = 0; canonical_combining_sort(s); canonical_composition(s, &n); u32s o; canonical_decomposition(codepoint(n), o); compatibility_and_canonical_decomposition(codepoint(n), o); n += canonical_combining_order(n, 3); }
int all_lookups(int a, int b, int* r) {
  const int* d = props::canonical_decomposition_mapping::resolve(a); const int* k = props::compatibility_and_canonical_decomposition_mapping::resolve(a);
  return (d ? *d : 0) + (k ? *k : 0) + props::canonical_combining_class::resolve(a) + props::grapheme_cluster_break::resolve(codepoint(a)) + props::canonical_composition_mapping::resolve(a, b, r);
}
int all_octet_facts(char c, int v) { return utf8_util::is_7bit_character(c) + utf8_util::is_codepoint_continuation(c) + utf8_util::is_codepoint_start(c) + utf8_util::codepoint_size(c) + utf8_util::encoded_size(v); }
int all_codepoints(int a, codepoint b) { codepoint c(a), d, e(b); d = a; e = d; codepoint f = c; return (c == d) + (a == e) + (e == a) + int(f) + (f < b) + (f != b); }
int all_versions() { return version::compile_time::major + version::compile_time::minor + version::compile_time::patch + version::run_time::major + version::run_time::minor + version::run_time::patch; }
