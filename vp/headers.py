"""A use of what each public header is there for (C35)."""
G = lambda t: 'u5e::%s_grapheme use_%%d(u5e::%s& t) { return u5e::%s_grapheme(t.codepoint_cbegin(), t.codepoint_cend()); }' % (t, t, t)
I = lambda t: 'u5e::%s_grapheme_iterator use_%%d(u5e::%s& t) { return t.grapheme_begin(); }' % (t, t)
S = lambda t: 'int use_%%d(u5e::%s& t) { int n = 0; for (auto i = t.codepoint_cbegin(); i != t.codepoint_cend(); ++i) n += *i; return n; }' % t
N = lambda f: 'template <typename T, typename O> int use_%%d(T& t, O& o) { return u5e::%s(*t.grapheme_begin(), o); }' % f
P = lambda c: 'int use_%%d(int c) { return u5e::props::%s::resolve(c) != 0; }' % c
USES = {
    'version.hpp': 'int use_%d() { return u5e::version::compile_time::major + u5e::version::run_time::minor; }',
    'codepoint.hpp': 'int use_%d(u5e::codepoint c) { u5e::codepoint d(3); return c == d; }',
    'codepoint_traits.hpp': 'u5e::codepoint_traits::int_type use_%d(u5e::codepoint_traits::pos_type p) { return p; }',
    'utf8_util.hpp': 'int use_%d(char c) { return u5e::utf8_util::codepoint_size(c) + u5e::utf8_util::is_codepoint_start(c) + u5e::utf8_util::encoded_size(c); }',
    'utf8_iterator.hpp': 'int use_%d(const char* p) { u5e::utf8_const_iterator<const char*> i(p); ++i; --i; return *i; } void usem_%d(char* p) { u5e::utf8_iterator<char*> i(p); *i = u5e::codepoint(3); }',
    'utf8_bounds.hpp': 'bool use_%d(char* a, char* b) { return u5e::utf8_bounds<char*>::check(a, b) && u5e::utf8_bounds<char*>::enforce(a, b); }',
    'utf8.hpp': 'template <typename T> typename u5e::utf8::const_iterator<T> use_%d(T& t) { return t.cbegin(); }',
    'utf32ne.hpp': 'template <typename T> typename u5e::utf32ne::const_iterator<T> use_%d(T& t) { return t.cbegin(); }',
    'basic_encodedstring.hpp': 'template <typename E, typename N> void use_%d(u5e::basic_encodedstring<E, N>& t) { t.codepoint_begin(); t.grapheme_begin(); }',
    'basic_grapheme.hpp': 'template <typename T> void use_%d(u5e::basic_grapheme<T>& t) { t.codepoint_begin(); }',
    'basic_grapheme_iterator.hpp': 'template <typename T> void use_%d(u5e::basic_grapheme_iterator<T>& t) { ++t; *t; }',
    'filter.hpp': 'int op_%d(int c, int& o) { return o += c; } int use_%d(int* a, int* b) { int o = 0; return u5e::filter(a, b, o, op_%d); }',
    'encoding_assertion.hpp': 'template <typename T> u5e::encoding_assertion<T, char> use_%d();',
    'iterator_assertion.hpp': 'u5e::iterator_assertion<char*, char> use_%d();',
    'canonical_combining_order.hpp': 'bool use_%d(int a, int b) { return u5e::canonical_combining_order(a, b); }',
    'canonical_composition.hpp': 'template <typename T> void use_%d(T& t) { int n = 0; u5e::canonical_composition(t, &n); }',
    'canonical_decomposition.hpp': 'template <typename T> int use_%d(int c, T& t) { return u5e::canonical_decomposition(c, t); }',
    'compatibility_and_canonical_decomposition.hpp': 'template <typename T> int use_%d(int c, T& t) { return u5e::compatibility_and_canonical_decomposition(c, t); }',
    'codepoint_decomposition.hpp': 'template <typename T, typename R> int use_%d(int c, T& t, R& r) { return u5e::codepoint_decomposition(c, t, r); }',
    'normalization_form_c.hpp': N('normalization_form_c'), 'normalization_form_d.hpp': N('normalization_form_d'),
    'normalization_form_kc.hpp': N('normalization_form_kc'), 'normalization_form_kd.hpp': N('normalization_form_kd'),
    'props/grapheme_cluster_break.hpp': P('grapheme_cluster_break'), 'props/canonical_combining_class.hpp': P('canonical_combining_class'),
    'props/canonical_decomposition_mapping.hpp': P('canonical_decomposition_mapping'),
    'props/compatibility_and_canonical_decomposition_mapping.hpp': P('compatibility_and_canonical_decomposition_mapping'),
    'props/canonical_composition_mapping.hpp': 'bool use_%d(int c, int* r) { return u5e::props::canonical_composition_mapping::resolve(c, c, r); }',
}
for t in ('utf8_string', 'utf8_string_view', 'utf32ne_string', 'utf32ne_string_view'):
    USES[t + '.hpp'] = S(t); USES[t + '_grapheme.hpp'] = G(t); USES[t + '_grapheme_iterator.hpp'] = I(t)
def use(h, n): return USES.get(h, '').replace('%d', str(n))
