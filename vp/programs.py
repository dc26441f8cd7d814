"""The client programs of C09: (what, C++ text of the program, must it compile)."""
TEXTS = ('u8s', 'u8v', 'u32s', 'u32v', 'u8vec', 'u32vec')
def enc(t): return t.split('s')[0].split('v')[0]
# operation -> (program over D (destination) and S (source), destinations, may the storages differ)
OPS = {
    'append a codepoint range': ('void f(D& d, S& s) { d.template append<native<S>>(s.codepoint_cbegin(), s.codepoint_cend()); }', ('u8s', 'u32s'), ('u8s', 'u8v', 'u32s', 'u32v'), True),
    'append a codepoint range of the same type': ('void f(D& d, S& s) { d.append(s.codepoint_cbegin(), s.codepoint_cend()); }', ('u8s', 'u32s'), TEXTS, False),
    'append graphemes': ('void f(D& d, S& s) { auto x = s.grapheme_begin(); auto y = s.grapheme_end(); d.append(x, y); }', ('u8s', 'u32s'), ('u8s', 'u8v', 'u32s', 'u32v'), True),
    'assign a text': ('void f(D& d, S& s) { d = s; }', TEXTS, TEXTS, False),
    'construct a text': ('void f(D&, S& s) { D e(s); (void)e; }', TEXTS, TEXTS, False),
    'assign a native string': ('void f(D& d, S& s) { d = s.native_string; }', TEXTS, TEXTS, False),
    'construct from a native string': ('void f(D&, S& s) { D e(s.native_string); (void)e; }', TEXTS, TEXTS, False),
    'construct an iterator from an iterator': ('void f(D&, S& s) { typename D::const_iterator i(s.codepoint_cbegin()); (void)i; }', TEXTS, TEXTS, False),
    'construct an iterator from a native iterator': ('void f(D&, S& s) { typename D::const_iterator i(s.native_cbegin()); (void)i; }', TEXTS, TEXTS, False),
    'compare iterators': ('bool f(D& d, S& s) { return d.codepoint_cbegin() == s.codepoint_cbegin(); }', TEXTS, TEXTS, False),
    'construct a grapheme': ('void f(D&, S& s) { basic_grapheme<D> g(s.codepoint_cbegin(), s.codepoint_cend()); (void)g; }', TEXTS, TEXTS, False),
    'construct a grapheme iterator': ('void f(D&, S& s) { basic_grapheme_iterator<D> g(s.codepoint_cbegin(), s.codepoint_cend()); (void)g; }', TEXTS, TEXTS, False),
    'seek a grapheme': ('void f(D& d, S& s) { basic_grapheme_iterator<D> g(d.codepoint_cbegin(), d.codepoint_cend(), s.codepoint_cbegin()); (void)g; }', TEXTS, TEXTS, False),
    'compare a grapheme iterator with a position': ('bool f(D& d, S& s) { auto g = d.grapheme_begin(); return g == s.codepoint_cbegin(); }', TEXTS, TEXTS, False),
    'compare grapheme iterators': ('bool f(D& d, S& s) { auto g = d.grapheme_begin(); return g == s.grapheme_begin(); }', TEXTS, TEXTS, False),
    'walk to the end of another text': ('int f(D& d, S& s) { u32s o; return filter(d.codepoint_cbegin(), s.codepoint_cend(), o, canonical_decomposition<u32s>); }', TEXTS, TEXTS, False),
}
def programs():
    out = []
    for what, (text, ds, ss, differ) in OPS.items():
        for d in ds:
            for s in ss:
                same = enc(d) == enc(s)
                if same and d != s and not differ: continue     # same encoding, other storage: nothing is claimed
                out.append(('%s: %s with %s' % (what, d, s), 'using D = %s; using S = %s; %s' % (d, s, text), same))
    for d in ('u8s', 'u32s'):
        for s in ('u8s', 'u8v', 'u32s', 'u32v'):
            out.append(('append_from_utf32ne to %s of %s' % (d, s), 'void f(%s& d, %s& s) { d.append_from_utf32ne<native<%s>>(s.codepoint_cbegin(), s.codepoint_cend()); }' % (d, s, s), enc(s) == 'u32'))
    for n in ('c', 'd', 'kc', 'kd'):
        for s in ('u8s', 'u8v', 'u32s', 'u32v'):
            for d in ('u8s', 'u32s'):
                out.append(('form %s of %s into %s' % (n, s, d), 'int f(basic_grapheme<%s> g, %s& o) { return normalization_form_%s(g, o); }' % (s, d, n), True))
            for g in ('u8s', 'u32s'):
                if enc(g) != enc(s): out.append(('form %s of %s given a grapheme of %s' % (n, g, s), 'int f(basic_grapheme<%s> g, %s& o) { return normalization_form_%s<%s, %s>(g, o); }' % (s, g, n, g, g), False))
    for d in ('u8s', 'u32s'):
        for op in ('canonical_decomposition(codepoint(65), d)', 'compatibility_and_canonical_decomposition(codepoint(65), d)', 'canonical_composition(d, &n)', 'canonical_combining_sort(d)'):
            out.append(('%s on %s' % (op.split('(')[0], d), 'void f(%s& d) { int n = 0; (void)n; %s; }' % (d, op), d == 'u32s'))
    octets = {'std::string': 1, 'std::vector<char>': 1, 'std::vector<signed char>': 1, 'std::vector<unsigned char>': 1, 'std::list<char>': 1,
              'std::u16string': 0, 'std::u32string': 0, 'std::basic_string<int>': 0, 'std::vector<int>': 0, 'std::vector<short>': 0, 'std::vector<codepoint>': 0, 'std::vector<long long>': 0, 'std::list<int>': 0}
    for n, ok in octets.items():
        out.append(('utf8_iterator over %s' % n, 'void f(%s& n) { utf8_iterator<%s::iterator> i(n.begin()); ++i; *i; }' % (n, n), bool(ok)))
        out.append(('utf8_const_iterator over %s' % n, 'void f(%s& n) { utf8_const_iterator<%s::const_iterator> i(n.cbegin()); ++i; *i; }' % (n, n), bool(ok)))
        out.append(('utf8 text over %s, mutable iterators' % n, 'void f(%s& n) { basic_encodedstring<utf8, %s> t(n); auto i = t.codepoint_begin(); ++i; }' % (n, n), bool(ok)))
        out.append(('utf8 text over %s, constant iterators' % n, 'void f(%s& n) { basic_encodedstring<utf8, %s> t(n); auto i = t.codepoint_cbegin(); ++i; }' % (n, n), bool(ok)))
        out.append(('utf8 text over %s, graphemes' % n, 'void f(%s& n) { basic_encodedstring<utf8, %s> t(n); auto i = t.grapheme_begin(); ++i; }' % (n, n), bool(ok)))
    for n, ok in octets.items():
        if n == 'std::list<char>': continue
        out.append(('utf8_bounds::check over %s' % n, 'bool f(%s& n) { utf8_bounds<%s::iterator> b; (void)b; return utf8_bounds<%s::iterator>::check(n.begin(), n.end()); }' % (n, n, n), bool(ok)))
        out.append(('utf8_bounds::enforce over %s' % n, 'bool f(%s& n) { utf8_bounds<%s::iterator> b; (void)b; return utf8_bounds<%s::iterator>::enforce(n.begin(), n.end()); }' % (n, n, n), bool(ok)))
    units = {'std::u32string': 1, 'std::basic_string<int>': 1, 'std::vector<int>': 1, 'std::vector<codepoint>': 1, 'std::string': 0, 'std::u16string': 0, 'std::vector<char>': 0, 'std::vector<unsigned char>': 0, 'std::vector<short>': 0, 'std::vector<long long>': 0,
             'std::experimental::string_view': 0, 'std::experimental::u16string_view': 0, 'std::experimental::u32string_view': 1}
    for n, ok in units.items():
        out.append(('utf32ne text over %s, codepoints' % n, 'void f(%s& n) { basic_encodedstring<utf32ne, %s> t(n); auto i = t.codepoint_begin(); ++i; }' % (n, n), bool(ok)))
        out.append(('utf32ne text over %s, constant codepoints' % n, 'void f(%s& n) { basic_encodedstring<utf32ne, %s> t(n); auto i = t.codepoint_cbegin(); ++i; }' % (n, n), bool(ok)))
        out.append(('utf32ne text over %s, graphemes' % n, 'void f(%s& n) { basic_encodedstring<utf32ne, %s> t(n); auto i = t.grapheme_begin(); ++i; }' % (n, n), bool(ok)))
    return out
