I = 'include/u5e/'
P = 'src/u5e/props/'
SEEDS = []


def seed(id, prop, edits, demo=None, needs='', breaks='', **kw):
    s = dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, **kw)
    if demo is not None: s['demo'] = demo
    SEEDS.append(s)


seed('S02-plane-16', 'C02', [(I + 'utf8_iterator.hpp', 'int value = c.value; // operate on codepoint as integer',
                               'int value = c.value & 0xFFFFF; // operate on codepoint as integer')], r'''
int main() {
  const int v[] = { 0x7FF, 0x800, 0xFFF, 0x1000, 0xD7FF, 0xE000, 0xFFFF, 0x10000, 0x3FFFF, 0x40000, 0x10FFFF, 0x100000 };
  for (int x : v) {
    char buf[8] = {};
    utf8_iterator<char*> i(buf);
    *i = codepoint(x);
    utf8_const_iterator<const char*> r(buf);
    CHECK((*r).value == x);
  }
  return 0;
}
''', 'a codepoint of plane 16', 'the highest bit of the codepoint is lost')

seed('S03-append-cstring', 'C03', [(I + 'utf8.hpp', 'output.append(o_begin.raw_iterator_, o_i.raw_iterator_);',
                                    'output.append(o_begin.raw_iterator_);')], r'''
int main() {
  utf8_string out;
  utf32ne_string in(u32({ 'a', 0, 'b', 0x20AC }));
  out.append_from_utf32ne<utf32ne_string>(in.codepoint_cbegin(), in.codepoint_cend());
  CHECK(out.native_string == std::string("a\0b\xE2\x82\xAC", 6));
  return 0;
}
''', 'U+0000 among the codepoints', 'the octets of one codepoint are appended as a C string, so U+0000 disappears')

seed('S04-rewind-two-steps', 'C04', [(I + 'utf8_iterator.hpp', '''      while (utf8_util::is_codepoint_continuation(*raw_iterator_)) {
        raw_iterator_--;
        ret = true;
      }
      return ret;''', '''      for (int steps = 0; steps < 2 && utf8_util::is_codepoint_continuation(*raw_iterator_); steps++) {
        raw_iterator_--;
        ret = true;
      }
      return ret;''')], r'''
int main() {
  std::string t("a\xF0\x9F\x98\x80" "b");
  for (int k = 1; k < 5; k++) {
    utf8_const_iterator<std::string::const_iterator> i(t.cbegin() + k);
    ++i;
    CHECK(i.raw_iterator_ == t.cbegin() + 5);
  }
  return 0;
}
''', 'standing on the last octet of a four octet codepoint', 'only two continuation octets are rewound over')

seed('S05-mutable-equal-last-octet', 'C05', [(I + 'utf8_iterator.hpp', '''      int size = utf8_util::codepoint_size(c);
      while (size) {
        if (copy.raw_iterator_ == rhs.raw_iterator_) {
          return true;
        }
        ++(copy.raw_iterator_);
        --size;
      }
      return false;
    }
    
    inline bool operator!=(const utf8_iterator& rhs) const {''', '''      int size = utf8_util::codepoint_size(c);
      while (--size) {
        if (copy.raw_iterator_ == rhs.raw_iterator_) {
          return true;
        }
        ++(copy.raw_iterator_);
      }
      return false;
    }
    
    inline bool operator!=(const utf8_iterator& rhs) const {''')], r'''
int main() {
  std::string t("\xE2\x82\xAC" "b");
  typedef utf8_iterator<std::string::iterator> it;
  for (int a = 0; a < 3; a++)
    for (int b = 0; b < 3; b++) {
      it i(t.begin() + a), j(t.begin() + b);
      CHECK(i == j);
      CHECK(!(i != j));
    }
  it i(t.begin() + 1), j(t.begin() + 3);
  CHECK(!(i == j));
  return 0;
}
''', 'two mutable iterators, one of them on the last octet of a codepoint', 'the last octet is not looked at when mutable iterators are compared')

seed('S06-read-before-end-test', 'C06', [(I + 'basic_grapheme_iterator.hpp', '''        // GB2
        if (end_of_grapheme_ == end_)
          return;
        codepoint b = *end_of_grapheme_;
''', '''        codepoint b = *end_of_grapheme_;
        // GB2
        if (end_of_grapheme_ == end_)
          return;
''')], r'''
#include <sys/mman.h>
#include <cstring>
int main() {
  char* page = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  CHECK(page != MAP_FAILED);
  CHECK(mprotect(page + 4096, 4096, PROT_NONE) == 0);
  const char* t = "ae\xCC\x81";
  std::memcpy(page + 4096 - 4, t, 4);
  utf8_string_view v(std::experimental::string_view(page + 4096 - 4, 4));
  int n = 0;
  for (auto i = v.grapheme_begin(), e = v.grapheme_end(); i != e; i++) n++;
  CHECK(n == 2);
  return 0;
}
''', 'a text whose storage ends where readable memory ends (a view, a mapped file)', 'the codepoint at the end position is read before comparing with the end')

seed('S09-loose-unit-size', 'C09', [(I + 'iterator_assertion.hpp', '''    static_assert(sizeof(VT)==sizeof(T),
''', '''    static_assert(sizeof(VT)>=sizeof(T),
'''), (I + 'iterator_assertion.hpp', '''    static_assert(alignof(VT)==alignof(T),
''', '''    static_assert(alignof(VT)>=alignof(T),
''')], None, 'storage of wider units under an encoding of octets', 'utf8 iterators accept storage of wider units',
     script='''cat > "$tmp/good.cpp" <<'X'
#include <string>
#include <u5e/utf8_string.hpp>
int main() { std::string s("a"); u5e::utf8_const_iterator<std::string::const_iterator> i(s.cbegin()); return (*i).value != 'a'; }
X
cat > "$tmp/bad.cpp" <<'X'
#include <string>
#include <u5e/utf8_string.hpp>
int main() { std::u16string s(u"a"); u5e::utf8_const_iterator<std::u16string::const_iterator> i(s.cbegin()); return (*i).value != 'a'; }
X
rc=0
g++ -std=c++1y -Iinclude "$tmp/good.cpp" -o "$tmp/good" || rc=2
if g++ -std=c++1y -Iinclude "$tmp/bad.cpp" -o "$tmp/bad" 2>/dev/null; then echo "octet iterator over 16 bit units compiles"; rc=1; fi''')

seed('S11-append-without-rewind', 'C11', [(I + 'utf8.hpp', '''      it.rewind_to_start_of_codepoint(*(it.raw_iterator_));
      return it.raw_iterator_;
''', '''      return it.raw_iterator_;
''')], r'''
int main() {
  utf8_string in(std::string("\xE2\x82\xAC" "bc"));
  utf8_string out(std::string("x"));
  utf8_string::const_iterator a(in.native_cbegin() + 1), b(in.native_cend());
  out.append(a, b);
  CHECK(out.native_string == "x\xE2\x82\xAC" "bc");
  return 0;
}
''', 'the first position stands inside a codepoint', 'the text receives the tail octets of that codepoint')

seed('S12-append-to-grapheme-end', 'C12', [(I + 'basic_encodedstring.hpp', '''     basic_grapheme_iterator<basic_encodedstring>& last) {
      return append<NativeString>(first, last);''', '''     basic_grapheme_iterator<basic_encodedstring>& last) {
      return append<NativeString>((*first).codepoint_begin(),
                                  (*last).codepoint_end());''')], r'''
int main() {
  utf8_string in(std::string("ae\xCC\x81" "bc"));
  utf8_string out;
  auto f = in.grapheme_begin(), l = in.grapheme_begin();
  l++; 
  out.append(f, l);
  CHECK(out.native_string == "a");
  l++;
  utf8_string o2;
  o2.append(f, l);
  CHECK(o2.native_string == "ae\xCC\x81");
  return 0;
}
''', 'a range that ends before the end of the text', 'the grapheme under the last position is appended as well')

seed('S13-extend-range-short', 'C13', [(P + 'grapheme_cluster_break_data.hpp', '{ 65024, 65039, grapheme_cluster_break::prop_value_type::EXTEND },', '{ 65024, 65038, grapheme_cluster_break::prop_value_type::EXTEND },')], r'''
#include <u5e/props/grapheme_cluster_break.hpp>
int main() {
  typedef props::grapheme_cluster_break g;
  for (int c = 0xFE00; c <= 0xFE0F; c++)
    CHECK(g::resolve(codepoint(c)) == g::prop_value_type::EXTEND);
  CHECK(g::resolve(codepoint(0xFE10)) == g::prop_value_type::OTHER);
  return 0;
}
''', 'U+FE0F, the last codepoint of its range', 'emoji presentation selector becomes a grapheme of its own')

seed('S14-class-row', 'C14', [(P + 'canonical_combining_class_data.hpp', '{ 8402, 1 },', '{ 8402, 220 },')], r'''
#include <u5e/props/canonical_combining_class.hpp>
int main() {
  CHECK(props::canonical_combining_class::resolve(0x20D2) == 1);
  return 0;
}
''', 'U+20D2', 'a wrong combining class for one codepoint')

seed('S17-rows-out-of-order', 'C17', [(P + 'canonical_composition_mapping_data.hpp', '', '')], r'''
#include <u5e/props/canonical_composition_mapping.hpp>
int main() {
  int c = -1;
  CHECK(props::canonical_composition_mapping::resolve(12358, 12441, &c));
  CHECK(c == 12436);
  c = -7;
  CHECK(props::canonical_composition_mapping::resolve(12363, 12441, &c));
  CHECK(c == 12364);
  CHECK(props::canonical_composition_mapping::resolve(11008 - 11008 + 69785, 69818, &c) && c == 69786);
  return 0;
}
''', 'a pair whose row the binary search reaches past the misplaced rows', 'two rows out of order hide rows from the binary search', swap=('{ 12358, 12441, 12436 },', 1))

seed('S19-first-codepoint-decides', 'C19', [(I + 'basic_grapheme_iterator.hpp', '''        a = b;
        end_of_grapheme_++;''', '''        end_of_grapheme_++;''')], r'''
int main() {
  // CR LF LF: the second LF must not join, and ZWJ decides over what follows it
  utf32ne_string t(u32({ 13, 10, 10 }));
  int n = 0;
  for (auto i = t.grapheme_begin(), e = t.grapheme_end(); i != e; i++) n++;
  CHECK(n == 2);
  return 0;
}
''', 'a grapheme of more than two codepoints whose first and later codepoints differ in class', 'boundaries are decided against the first codepoint of the grapheme')

seed('S21-end-equals-last', 'C21', [(I + 'basic_grapheme_iterator.hpp', '''      if (where_ == end_ &&
          other == end_) {
        return true;''', '''      if (where_ == end_) {
        return other.end_of_grapheme_ == end_;''')], r'''
int main() {
  utf8_string t(std::string("ab"));
  auto i = t.grapheme_begin(), e = t.grapheme_end();
  i++;
  CHECK(!(e == i));
  CHECK(!(i == e));
  CHECK(e != i);
  i++;
  CHECK(e == i);
  CHECK(i == e);
  return 0;
}
''', 'the end on the left side compared with the last grapheme', 'the end equals the last grapheme, but not the other way round')

seed('S22-short-counter', 'C22', [(I + 'filter.hpp', 'int counter = 0;', 'short counter = 0;')], r'''
#include <u5e/filter.hpp>
static int op(codepoint, int& o) { o++; return 20000; }
int main() {
  utf32ne_string t(u32({ 1, 2, 3 }));
  int calls = 0;
  int r = filter(t.codepoint_cbegin(), t.codepoint_cend(), calls, op);
  CHECK(calls == 3);
  CHECK(r == 60000);
  return 0;
}
''', 'a sum over 32767', 'the sum wraps')

seed('S23-order-not-strict', 'C23', [(I + 'canonical_combining_order.hpp', '''      <
''', '''      <=
''')], r'''
#include <u5e/canonical_combining_order.hpp>
int main() {
  utf32ne_string t(u32({ 'a', 0x0301, 0x0300, 0x0327 }));
  canonical_combining_sort(t);
  CHECK(t.native_string == u32({ 'a', 0x0327, 0x0301, 0x0300 }));
  return 0;
}
''', 'two marks of the same class behind each other', 'marks of the same class swap')

seed('S29-mark-starts-grapheme', 'C29', [(P + 'grapheme_cluster_break_data.hpp', '{ 12441, 12442, grapheme_cluster_break::prop_value_type::EXTEND },\n', '')], r'''
#include <u5e/normalization_form_c.hpp>
int main() {
  utf32ne_string t(u32({ 0x304B, 0x3099 })), o;
  for (auto i = t.grapheme_begin(), e = t.grapheme_end(); i != e; i++) normalization_form_c(*i, o);
  CHECK(o.native_string == u32({ 0x304C }));
  return 0;
}
''', 'kana with a separate voicing mark', 'the mark starts a grapheme, so normalizing by grapheme no longer composes it')

seed('S31-table-built-at-start', 'C31', [(P + 'grapheme_cluster_break.cpp', 'static range_data ranges[] = {', '''#include <vector>
static const std::vector<range_data> table = {'''), (P + 'grapheme_cluster_break.cpp', '''template <typename T, size_t N>
static constexpr size_t countof(T(&)[N])
{
  return N;
}

''', ''), (P + 'grapheme_cluster_break.cpp', '''    bsearch(&key, ranges,
            countof(ranges), sizeof(range_data),''', '''    bsearch(&key, table.data(),
            table.size(), sizeof(range_data),''')], r'''
#include <u5e/props/grapheme_cluster_break.hpp>
typedef props::grapheme_cluster_break g;
struct early {
  g::prop_value_type v;
  early() : v(g::resolve(codepoint(0x0301))) {}
};
static early e __attribute__((init_priority(101)));
int main() {
  CHECK(g::resolve(codepoint(0x0301)) == g::prop_value_type::EXTEND);
  CHECK(e.v == g::prop_value_type::EXTEND);
  return 0;
}
''', 'a lookup made by the constructor of a global object that runs before the library was initialised', 'the table is built by a constructor at start-up; before it, every codepoint is OTHER')

seed('S32-version-writable', 'C32', [(I + 'version.hpp', '      static const int patch;', '      static int patch;'),
                                     ('src/u5e/version.cpp', '  const int version::run_time::patch = 0;', '  int version::run_time::patch = 0;')], None,
     'a program that writes to the version', 'the run-time patch number can be changed',
     script='''cat > "$tmp/good.cpp" <<'X'
#include <u5e/version.hpp>
int main() { return u5e::version::run_time::patch != u5e::version::compile_time::patch; }
X
cat > "$tmp/bad.cpp" <<'X'
#include <u5e/version.hpp>
int main() { u5e::version::run_time::patch = 7; return 0; }
X
rc=0
g++ -std=c++1y -Iinclude "$tmp/good.cpp" _build/libu5e.a -o "$tmp/good" && "$tmp/good" || rc=2
if g++ -std=c++1y -Iinclude "$tmp/bad.cpp" _build/libu5e.a -o "$tmp/bad" 2>/dev/null; then echo "the version can be written"; rc=1; fi''')

seed('S33-value-masked', 'C33', [(I + 'codepoint.hpp', 'constexpr codepoint(int32_t v) : value(v) { };', 'constexpr codepoint(int32_t v) : value(v & 0x1FFFFF) { };')], r'''
int main() {
  CHECK(codepoint(0x200041).value == 0x200041);
  CHECK(codepoint(-1) == -1);
  CHECK((int)codepoint(0x10FFFF) == 0x10FFFF);
  return 0;
}
''', 'an integer over U+1FFFFF or below zero', 'a codepoint holds something else than the integer it was built from')

seed('S35-order-not-inline', 'C35', [(I + 'canonical_combining_order.hpp', 'inline bool canonical_combining_order(int a, int b) {', 'bool canonical_combining_order(int a, int b) {')], None,
     'a program of two translation units that both include the header', 'the function is defined twice',
     script='''cat > "$tmp/a.cpp" <<'X'
#include <u5e/normalization_form_c.hpp>
int other();
int main() { return other(); }
X
cat > "$tmp/b.cpp" <<'X'
#include <u5e/normalization_form_c.hpp>
int other() { return 0; }
X
rc=0
g++ -std=c++1y -Iinclude "$tmp/a.cpp" "$tmp/b.cpp" _build/libu5e.a -o "$tmp/ab" && "$tmp/ab" || rc=1''')

seed('S38-size-of-invalid-lead', 'C38', [(I + 'utf8_util.hpp', 'if ((octet & 0b11000000) == 0b11000000) {', 'if ((octet & 0b11000000) == 0b11000000 && (octet & 0b11111000) != 0b11111000) {')], r'''
#include <u5e/utf8_bounds.hpp>
int main() {
  std::string t("ab\xF8");
  typedef utf8_bounds<std::string::iterator> b;
  if (b::check(t.begin(), t.end())) {
    utf8_const_iterator<std::string::const_iterator> i(t.cbegin() + 2);
    ++i;
    CHECK(i.raw_iterator_ <= t.cend());
  }
  return 0;
}
''', 'an octet from 0xF8 near the end of the text', 'octets no valid encoding starts with are not taken for start octets by the bounds check, but stepping still jumps over what they announce')

seed('S07-last-start-decides', 'C07', [(I + 'utf8_bounds.hpp', """            if (utf8_util::codepoint_size(octet) > walkback) {
              return false;
            }
""", """            return utf8_util::codepoint_size(octet) <= walkback;
""")], r"""
#include <u5e/utf8_bounds.hpp>
int main() {
  typedef utf8_bounds<std::string::iterator> b;
  std::string t("abc\xF0\xC3\xA9"), u("ab\xC3\xA9"), v("ab\xC3");
  CHECK(!b::check(t.begin(), t.end()));
  CHECK(b::check(u.begin(), u.end()));
  CHECK(!b::check(v.begin(), v.end()));
  return 0;
}
""", 'two start octets near the end, the earlier one announcing more than is left', 'only the last start octet is looked at')

seed('S08-stop-after-first-repair', 'C08', [(I + 'utf8_bounds.hpp', """            *end = '?';
            ret = false;
""", """            *end = '?';
            return false;
""")], r"""
#include <u5e/utf8_bounds.hpp>
int main() {
  typedef utf8_bounds<std::string::iterator> b;
  std::string t("abc\xE2\xC3");
  CHECK(!b::enforce(t.begin(), t.end()));
  CHECK(t == "abc??");
  return 0;
}
""", 'two start octets near the end that both overrun it', 'only the last of them is replaced')

seed('S10-padding-trimmed', 'C10', [(I + 'basic_encodedstring.hpp', ': native_string(s) { };', ': native_string(s.substr(0, s.find_last_not_of(typename NativeString::value_type()) + 1)) { };')], r"""
int main() {
  std::string s("ab\0", 3);
  utf8_string t(s);
  CHECK(t.native_string == s);
  utf32ne_string u(u32({ 'a', 0, 'b', 0 }));
  CHECK(u.native_string.size() == 4);
  return 0;
}
""", 'a native string that ends with U+0000', 'the text loses trailing U+0000')

seed('S18-gb7-takes-lvt', 'C18', [(I + 'basic_grapheme_iterator.hpp', """      } else if ((va == g_c_b_vt::LV ||
                  va == g_c_b_vt::V) &&""", """      } else if ((va == g_c_b_vt::LV || va == g_c_b_vt::LVT ||
                  va == g_c_b_vt::V) &&""")], r"""
int main() {
  utf32ne_string t(u32({ 0xAC01, 0x1161 }));
  int n = 0;
  for (auto i = t.grapheme_begin(), e = t.grapheme_end(); i != e; i++) n++;
  CHECK(n == 2);
  utf32ne_string u(u32({ 0xAC00, 0x1161 }));
  n = 0;
  for (auto i = u.grapheme_begin(), e = u.grapheme_end(); i != e; i++) n++;
  CHECK(n == 1);
  return 0;
}
""", 'a syllable with a final followed by a vowel', 'no boundary between LVT and V')

seed('S20-stop-at-base', 'C20', [(I + 'basic_grapheme_iterator.hpp', """        codepoint b = *where_;

        if (is_grapheme_boundary(a, b)) {""", """        codepoint b = *where_;

        if (is_grapheme_boundary(a, b) ||
            (props::grapheme_cluster_break::resolve(b) == g_c_b_vt::OTHER)) {""")], r"""
int main() {
  // PREPEND, OTHER, EXTEND
  utf32ne_string t(u32({ 'x', 0x0600, 'a', 0x0301 }));
  utf32ne_string::const_iterator b = t.codepoint_cbegin(), e = t.codepoint_cend();
  for (int k = 1; k < 4; k++) {
    basic_grapheme_iterator<utf32ne_string> i(b, e, b + k);
    CHECK((*i).codepoint_begin() == b + 1);
    CHECK((*i).codepoint_end() == e);
  }
  return 0;
}
""", 'a position behind a base that is itself attached to a prepended mark', 'the search for the start stops at the base character')

seed('S34-short-distance', 'C34', [(I + 'utf8_iterator.hpp', 'typedef int difference_type;', 'typedef signed char difference_type;')], r"""
#include <iterator>
int main() {
  utf8_string t(std::string(300, 'a'));
  long n = std::distance(t.codepoint_cbegin(), t.codepoint_cend());
  CHECK(n == 300);
  return 0;
}
""", 'a distance of more than 127 codepoints', 'std::distance wraps')

seed('S15-two-step-row', 'C15', [(P + 'canonical_decomposition_mapping_data.hpp', '{ 7879, 101, 803, 770, 0 },', '{ 7879, 7865, 770, 0 },')], r"""
#include <u5e/canonical_decomposition.hpp>
int main() {
  utf32ne_string o;
  int n = canonical_decomposition(codepoint(7879), o);
  CHECK(n == 3);
  CHECK(o.native_string == u32({ 101, 803, 770 }));
  return 0;
}
""", 'U+1EC7', 'one decomposition is not complete')

seed('S16-compat-length', 'C16', [(I + 'codepoint_decomposition.hpp', """      while (*end != 0) {""", """      while (*end != 0 && count < 16) {""")], r"""
#include <u5e/compatibility_and_canonical_decomposition.hpp>
int main() {
  utf32ne_string o;
  int n = compatibility_and_canonical_decomposition(codepoint(0xFDFA), o);
  CHECK(n == 18);
  CHECK(o.native_string.size() == 18);
  return 0;
}
""", 'U+FDFA, the one codepoint with 18 codepoints in its decomposition', 'the decomposition is cut')

seed('S17-compare-second-only-low', 'C17', [(P + 'canonical_composition_mapping.cpp', '    if (key[1] < elem[1]) {', '    if ((key[1] & 0xFFFF) < (elem[1] & 0xFFFF)) {'), (P + 'canonical_composition_mapping.cpp', '    } else if (key[1] > elem[1]) {\n      return 1;\n    } else {\n      return 0;\n    }\n', '    } else if ((key[1] & 0xFFFF) > (elem[1] & 0xFFFF)) {\n      return 1;\n    } else {\n      return 0;\n    }\n')], r"""
#include <u5e/props/canonical_composition_mapping.hpp>
int main() {
  int c = -1;
  CHECK(props::canonical_composition_mapping::resolve('A', 0x300, &c) && c == 0xC0);
  CHECK(props::canonical_composition_mapping::resolve(0x11099, 0x110BA, &c) && c == 0x1109A);
  CHECK(!props::canonical_composition_mapping::resolve('A', 0x10300, &c));
  return 0;
}
""", 'a second codepoint outside the first plane', 'letters of other planes are taken for combining marks')

seed('S25-d-stops-early', 'C25', [(I + 'normalization_form_d.hpp', """      (decomposed.codepoint_begin(),
       decomposed.codepoint_end());
""", """      (decomposed.codepoint_begin(),
       decomposed.codepoint_begin() + (count & 31));
""")], r"""
#include <u5e/normalization_form_d.hpp>
int main() {
  std::basic_string<int> in(1, 'a');
  in.append(40, 0x301);
  utf32ne_string t(in), o;
  auto g = *t.grapheme_begin();
  CHECK(normalization_form_d(g, o) == 41);
  CHECK(o.native_string == in);
  return 0;
}
""", 'a grapheme of 32 or more codepoints', 'only part of the result is appended')

seed('S26-c-drops-count', 'C26', [(I + 'normalization_form_c.hpp', 'int compositions = 0;', 'static int compositions;\n    compositions = 0;')], r"""
#include <u5e/normalization_form_c.hpp>
int main() { return 0; }
""", '', '', skip=True)

seed('S27-kd-appends-twice', 'C27', [(I + 'normalization_form_kd.hpp', 'compatibility_and_canonical_decomposition<utf32ne_string>', 'canonical_decomposition<utf32ne_string>')], r"""
int main() { return 0; }
""", '', '', skip=True)

seed('S31-sorted-at-start', 'C31', [(P + 'canonical_combining_class.cpp', """static data_t 
data =
  {
#include "canonical_combining_class_data.hpp"
  };
""", """static int rows[2048][2] =
  {
#include "canonical_combining_class_data.hpp"
  };
static int count_rows() {
  int n = 0;
  while (n < 2048 && rows[n][0]) n++;
  return n;
}
static const int row_count = count_rows();
"""), (P + 'canonical_combining_class.cpp', """  int const * const * const ref = (int const * const * const)pelem;
  int const * const elem = *ref;
""", """  int const * const elem = (int const * const)pelem;
"""), (P + 'canonical_combining_class.cpp', """      int const * const * elem =
        (int const * const * const)
        bsearch((const void*)&input, (const void*)data.begin(),
                data.size(), sizeof(data_t::value_type),
""", """      int const * elem =
        (int const * const)
        bsearch((const void*)&input, (const void*)rows,
                row_count, sizeof(rows[0]),
"""), (P + 'canonical_combining_class.cpp', 'int const * it = *elem;', 'int const * it = elem;')], r"""
#include <u5e/props/canonical_combining_class.hpp>
struct early {
  int v;
  early() : v(props::canonical_combining_class::resolve(0x0301)) {}
};
static early e __attribute__((init_priority(101)));
int main() {
  CHECK(props::canonical_combining_class::resolve(0x0301) == 230);
  CHECK(props::canonical_combining_class::resolve('a') == 0);
  CHECK(e.v == 230);
  return 0;
}
""", 'a lookup made by the constructor of a global object that runs before the library was initialised', 'the number of rows is computed at start-up, before that every class is 0')

seed('S36-utf8-drops-fe0f', 'C36', [(I + 'utf8.hpp', '        codepoint c = *first;', '        codepoint c = *first;\n        if (c.value < 0) c = 0xFFFD;')], r"""
int main() { return 0; }
""", '', '', skip=True)

seed('S04-ascii-back', 'C04', [(I + 'utf8_iterator.hpp', """    inline utf8_iterator operator--(int junk) {
      utf8_iterator copy(this->raw_iterator_);
      --(*this);
      return copy;
    }""", """    inline utf8_iterator operator--(int junk) {
      utf8_iterator copy(this->raw_iterator_);
      if (utf8_util::is_7bit_character(*--this->raw_iterator_)) {
        return copy;
      }
      this->rewind_to_start_of_codepoint(*this->raw_iterator_);
      return copy;
    }""")], r"""
int main() {
  std::string t("a\xC3\xA9" "b");
  utf8_iterator<std::string::iterator> i(t.begin() + 3);
  i--;
  CHECK(i.raw_iterator_ == t.begin() + 1);
  utf8_iterator<std::string::iterator> j(t.begin() + 2);
  j--;
  CHECK(j.raw_iterator_ == t.begin());
  return 0;
}
""", 'postfix decrement of a mutable iterator from inside a codepoint', 'it goes to the start of its own codepoint instead of the previous one')

seed('S11-utf32-range', 'C11', [(I + 'basic_encodedstring.hpp', """      return append<NativeString>(first,last);
    }

    template <typename StorageType>
    inline basic_encodedstring& append
    (basic_grapheme""", """      native_string.append(&*Encoding::template native_const_iterator<NativeString>(first),
                           &*Encoding::template native_const_iterator<NativeString>(last));
      return *this;
    }

    template <typename StorageType>
    inline basic_encodedstring& append
    (basic_grapheme""")], r"""
int main() { return 0; }
""", '', '', skip=True)

seed('S13-signed-range', 'C13', [(P + 'grapheme_cluster_break.cpp', """  if (key->range_start < elem->range_start) {""", """  if ((short)key->range_start.value < (short)elem->range_start.value) {""")], r"""
int main() { return 0; }
""", '', '', skip=True)

seed('S13-other-planes', 'C13', [(P + 'grapheme_cluster_break.cpp', """  range_data key = {c, c, prop_value_type::OTHER};""", """  if (c.value > 0xE0FFF) {
    return prop_value_type::OTHER;
  }
  range_data key = {c, c, prop_value_type::OTHER};"""), (P + 'grapheme_cluster_break.cpp', """  if (elem) {
    return elem->value;
  } else {
    return grapheme_cluster_break::prop_value_type::OTHER;
  }""", """  return elem ? elem->value : prop_value_type::OTHER;""")], r"""
#include <u5e/props/grapheme_cluster_break.hpp>
int main() {
  typedef props::grapheme_cluster_break g;
  CHECK(g::resolve(codepoint(0x10FFFF)) == g::prop_value_type::OTHER);
  CHECK(g::resolve(codepoint(0xE0FFF)) == g::prop_value_type::CONTROL);
  CHECK(g::resolve(codepoint(0xE01EF)) == g::prop_value_type::EXTEND);
  return 0;
}
""", '', '', skip=True)

seed('S14-negative', 'C14', [(P + 'canonical_combining_class.cpp', '  if (key[0] < elem[0]) {', '  if ((unsigned short)key[0] < (unsigned short)elem[0]) {')], r"""
int main() { return 0; }
""", '', '', skip=True)

seed('S03-mark-dropped', 'C03', [(I + 'utf8.hpp', """        output.append(o_begin.raw_iterator_, o_i.raw_iterator_);
""", """        if (c.value != 0xFEFF)
          output.append(o_begin.raw_iterator_, o_i.raw_iterator_);
""")], r"""
int main() {
  utf8_string out;
  utf32ne_string in(u32({ 0xFEFF, 'a', 0xFEFF }));
  out.append_from_utf32ne<utf32ne_string>(in.codepoint_cbegin(), in.codepoint_cend());
  CHECK(out.native_string == "\xEF\xBB\xBF" "a\xEF\xBB\xBF");
  return 0;
}
""", 'U+FEFF anywhere in the text', 'U+FEFF is taken for a byte order mark and dropped')

seed('S05-not-equal-raw', 'C05', [(I + 'utf8_iterator.hpp', """    inline bool operator!=(const utf8_const_iterator& rhs) const {
      return !(*this == rhs);""", """    inline bool operator!=(const utf8_const_iterator& rhs) const {
      return this->raw_iterator_ != rhs.raw_iterator_;""")], r"""
int main() {
  std::string t("\xC3\xA9" "b");
  utf8_const_iterator<std::string::const_iterator> i(t.cbegin()), j(t.cbegin() + 1);
  CHECK(i == j);
  CHECK(!(i != j));
  return 0;
}
""", 'two iterators on different octets of one codepoint', '!= compares octet positions and == codepoints')

seed('S19-postfix-in-place', 'C19', [(I + 'basic_grapheme_iterator.hpp', """    basic_grapheme_iterator operator++(int i) {
      basic_grapheme_iterator copy(*this);
      ++(*this);
      return copy;""", """    basic_grapheme_iterator operator++(int i) {
      basic_grapheme_iterator copy(begin_, end_, where_);
      ++(*this);
      return copy;""")], r"""
int main() { return 0; }
""", '', '', skip=True)

seed('S21-compare-starts', 'C21', [(I + 'basic_grapheme_iterator.hpp', """        for (const_codepoint_iterator copy = where_;
             copy != end_of_grapheme_; copy++) {
          if (other == copy) {
            return true;
          }
        }
        return false;""", """        return other.end_of_grapheme_ == end_of_grapheme_;""")], r"""
int main() {
  utf32ne_string t(u32({ 'a', 'b' }));
  auto i = t.grapheme_begin(), e = t.grapheme_end();
  i++;
  CHECK(!(i == e));
  CHECK(i != e);
  i++;
  CHECK(i == e);
  return 0;
}
""", '', '', skip=True)

seed('S23-class-8bit', 'C23', [(I + 'canonical_combining_order.hpp', """      props::canonical_combining_class::resolve(a)
      <
      props::canonical_combining_class::resolve(b);""", """      (signed char)props::canonical_combining_class::resolve(a)
      <
      (signed char)props::canonical_combining_class::resolve(b);""")], r"""
#include <u5e/normalization_form_d.hpp>
int main() {
  utf32ne_string t(u32({ 'a', 0x0301, 0x05B0 })), o;
  auto g = *t.grapheme_begin();
  normalization_form_d(g, o);
  CHECK(o.native_string == u32({ 'a', 0x05B0, 0x0301 }));
  return 0;
}
""", 'marks of a class below and one above 127 in one grapheme', 'classes above 127 sort first')

seed('S24-composition-of-nothing', 'C24', [(P + 'canonical_composition_mapping.cpp', '      int input[3] = { a, b, 0 };', '      int input[3] = { a, b, 0 };\n      if (b < 0x300) return false;')], r"""
int main() { return 0; }
""", '', '', skip=True)

seed('S33-compare-masked', 'C33', [(I + 'codepoint.hpp', """constexpr bool operator==(const codepoint& a, const codepoint_traits::int_type b) { return a.value == b; };""", """constexpr bool operator==(const codepoint& a, const codepoint_traits::int_type b) { return (a.value ^ b) << 8 == 0; };""")], r"""
int main() {
  CHECK(codepoint(0x41) == 0x41);
  CHECK(!(codepoint(0x41) == 0x41000041));
  return 0;
}
""", 'integers that differ only above bit 23', 'the comparison ignores the top octet')

seed('S06-utf8-ahead', 'C06', [(I + 'utf8_iterator.hpp', """    inline utf8_const_iterator operator++(int junk) {
      utf8_const_iterator copy(this->raw_iterator_);
      ++(*this);
      return copy;
    }""", """    inline utf8_const_iterator operator++(int junk) {
      utf8_const_iterator copy(this->raw_iterator_);
      this->forward_one_codepoint();
      // stand on a start octet even if the text is broken
      while (utf8_util::is_codepoint_continuation(*this->raw_iterator_)) {
        ++this->raw_iterator_;
      }
      return copy;
    }""")], r"""
#include <sys/mman.h>
#include <cstring>
int main() {
  char* page = (char*)mmap(0, 8192, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  CHECK(page != MAP_FAILED);
  CHECK(mprotect(page + 4096, 4096, PROT_NONE) == 0);
  std::memcpy(page + 4096 - 3, "a\xCC\x81", 3);
  utf8_string_view v(std::experimental::string_view(page + 4096 - 3, 3));
  int n = 0;
  for (auto i = v.codepoint_cbegin(), e = v.codepoint_cend(); i != e; i++) n++;
  CHECK(n == 2);
  return 0;
}
""", 'a text whose storage ends where readable memory ends, walked with the postfix increment', 'the octet after the text is read')

seed('S09-either-direction', 'C09', [(I + 'encoding_assertion.hpp', 'iterator_assertion<typename BUFFERTYPE::iterator, T>', 'iterator_assertion<T*, T>')], None, '', '', script='rc=0', skip=True)

seed('S12-template-form', 'C12', [(I + 'basic_grapheme.hpp', """    const_codepoint_iterator codepoint_end() {
      return d_end;""", """    const_codepoint_iterator codepoint_end() {
      return d_begin == d_end ? d_begin : d_end;""")], r"""
int main() { return 0; }
""", '', '', skip=True)

seed('S35-namespace-object', 'C35', [(I + 'filter.hpp', """  template <typename InputIteratorType, typename OutputType,
            typename Functor >
  inline int
  filter(""", """  int filter_calls = 0;

  template <typename InputIteratorType, typename OutputType,
            typename Functor >
  inline int
  filter(""")], None, '', '', script='rc=0', skip=True)
seed('S35-missing-include', 'C35', [(I + 'iterator_assertion.hpp', '#include <iterator>\n', '')], None, 'a program that includes this header before any other', 'the header only compiles after others',
     script="""cat > "$tmp/a.cpp" <<'X'
#include <u5e/iterator_assertion.hpp>
int main() { return 0; }
X
rc=0
g++ -std=c++1y -Wall -Werror -Iinclude "$tmp/a.cpp" -o "$tmp/a" || rc=1""")
seed('S22-twice', 'C22', [(I + 'filter.hpp', """    while (input_from != input_to) {
      counter += operation(*input_from, output);
      input_from++;
    }
    return counter;""", """    InputIteratorType last = input_from;
    while (input_from != input_to) {
      last = input_from++;
      if (input_from == input_to) break;
      counter += operation(*last, output);
    }
    return counter + operation(*last, output);""")], r"""
#include <u5e/filter.hpp>
static int op(codepoint, int& o) { o++; return 1; }
int main() {
  int x[1] = { 7 };
  utf32ne_string_view t(std::experimental::basic_string_view<int>(x, (size_t)0));
  int calls = 0;
  int r = filter(t.codepoint_cbegin(), t.codepoint_cend(), calls, op);
  CHECK(calls == 0);
  CHECK(r == 0);
  return 0;
}
""", 'an empty range', 'the operation is called once although there is nothing')
seed('S29-extend-prefix', 'C29', [(P + 'grapheme_cluster_break_data.hpp', '{ 3006, 3006, grapheme_cluster_break::prop_value_type::EXTEND },\n', '')], r"""
#include <u5e/normalization_form_c.hpp>
int main() {
  utf32ne_string t(u32({ 0x0BC6, 0x0BBE })), o;
  for (auto i = t.grapheme_begin(), e = t.grapheme_end(); i != e; i++) normalization_form_c(*i, o);
  CHECK(o.native_string == u32({ 0x0BCA }));
  return 0;
}
""", 'Tamil vowel signs', 'the second part starts a grapheme, so normalizing by grapheme no longer composes them')
seed('S38-enforce-edge', 'C38', [(I + 'utf8_bounds.hpp', """          if (utf8_util::codepoint_size(octet) > walkback) {
            *end = '?';""", """          if (utf8_util::codepoint_size(octet) > walkback + (walkback == max_walkback)) {
            *end = '?';""")], r"""
int main() { return 0; }
""", '', '', skip=True)

seed('S01-noncharacters', 'C01', [(I + 'utf8_iterator.hpp', '        return value;\n      }\n    }\n\n  };', '        return (value & 0xFFFE) == 0xFFFE ? 0xFFFD : value;\n      }\n    }\n\n  };')], r"""
int main() {
  std::string t("\xEF\xBF\xBF" "\xF0\x9F\x98\x80" "\xF0\x9F\xBF\xBE");
  utf8_const_iterator<std::string::const_iterator> i(t.cbegin());
  CHECK((*i).value == 0xFFFF);
  i++;
  CHECK((*i).value == 0x1F600);
  i++;
  CHECK((*i).value == 0x1FFFE);
  return 0;
}
""", 'the last two codepoints of a plane', 'noncharacters are read as U+FFFD')

seed('S02-null', 'C02', [(I + 'utf8_iterator.hpp', '        if (size <= 1) {', '        if (value && size <= 1) {')], r"""
int main() {
  char buf[3] = { 'x', 'y', 'z' };
  utf8_iterator<char*> i(buf + 1);
  *i = codepoint(0);
  CHECK(buf[0] == 'x' && buf[1] == 0 && buf[2] == 'z');
  return 0;
}
""", 'writing U+0000', 'a continuation octet is written instead of a zero octet')

seed('S28-at-least-one', 'C28', [(I + 'normalization_form_kc.hpp', 'return count - compositions;', 'return std::max(count - compositions, 1);')], r"""
#include <u5e/normalization_form_kc.hpp>
int main() {
  utf32ne_string t(u32({ 'a' })), o;
  basic_grapheme<utf32ne_string> g(t.codepoint_cend(), t.codepoint_cend());
  CHECK(normalization_form_kc(g, o) == 0);
  CHECK(o.native_string.empty());
  return 0;
}
""", 'an empty grapheme, such as the one under an end iterator', 'one codepoint is reported though none was appended')

seed('S30-last-lookup', 'C30', [(P + 'canonical_combining_class.cpp', """    int canonical_combining_class::resolve(int input) {
      int const * const * elem =""", """    static int last_input = 0;
    static int last_class = 0;
    static int find_class(int input) {
      int const * const * elem ="""), (P + 'canonical_combining_class.cpp', """        return it[1]; // first element in array is codepoint itself
      }
    }
""", """        return it[1]; // first element in array is codepoint itself
      }
    }
    int canonical_combining_class::resolve(int input) {
      if (input != last_input) {
        last_input = input;
        last_class = find_class(input);
      }
      return last_class;
    }
""")], r"""
#include <thread>
#include <atomic>
#include <u5e/props/canonical_combining_class.hpp>
int main() {
  std::atomic<long> bad(0);
  for (int round = 0; round < 20 && bad == 0; round++) {
    std::vector<std::thread> ts;
    for (int k = 0; k < 8; k++)
      ts.push_back(std::thread([&bad, k] {
        const int in[] = { 0x0327, 0x0301, 0x3099, 'a' };
        const int want[] = { 202, 230, 8, 0 };
        for (long n = 0; n < 1000000; n++) {
          int j = (n + k) % 4;
          if (props::canonical_combining_class::resolve(in[j]) != want[j]) bad++;
        }
      }));
    for (auto& t : ts) t.join();
  }
  CHECK(bad == 0);
  return 0;
}
""", 'two threads that look up different codepoints at the same time', 'the last answer is kept in objects all threads share')

seed('S36-three-octets-first', 'C36', [(I + 'utf8.hpp', '        codepoint c = *first;', '        const int16_t c16 = (int16_t)*first;\n        codepoint c = *first < 0x10000 ? (c16 < 0 ? (c16 & 0xFFFF) : c16) : *first & 0xFFFFF;')], r"""
#include <u5e/normalization_form_c.hpp>
int main() {
  const int all[] = { 'a', 0x20AC, 0xFFFD, 0x1F600, 0xE0100, 0x100000, 0x10FFFF };
  for (int c : all) {
    utf32ne_string t(u32({ c })), o32;
    utf8_string o8;
    basic_grapheme<utf32ne_string> g(t.codepoint_cbegin(), t.codepoint_cend());
    normalization_form_c(g, o32);
    normalization_form_c(g, o8);
    utf8_string::const_iterator i = o8.codepoint_cbegin();
    CHECK(o32.native_string.size() == 1 && (*i).value == o32.native_string[0]);
  }
  return 0;
}
""", 'a codepoint of plane 16 normalized into a UTF-8 output', 'plane 16 is folded onto plane 0 when the output is UTF-8')

seed('S36-string-only', 'C36', [(I + 'basic_encodedstring.hpp', """      basic_grapheme_iterator<basic_encodedstring> i(codepoint_cbegin(),
                                                     codepoint_cend());
      return i;""", """      const_iterator from = codepoint_cbegin();
      const const_iterator to = codepoint_cend();
      // a byte order mark is not part of the text
      if (sizeof(typename NativeString::value_type) == 1 && from != to && *from == 0xFEFF) {
        ++from;
      }
      basic_grapheme_iterator<basic_encodedstring> i(from, to);
      return i;""")], r"""
int main() {
  utf8_string a(std::string("\xEF\xBB\xBF" "a"));
  utf32ne_string b(u32({ 0xFEFF, 'a' }));
  int na = 0, nb = 0;
  for (auto i = a.grapheme_begin(); i != a.grapheme_end(); ++i) na++;
  for (auto i = b.grapheme_begin(); i != b.grapheme_end(); ++i) nb++;
  CHECK(na == nb);
  return 0;
}
""", 'a UTF-8 text that begins with U+FEFF', 'the byte order mark is a grapheme of the UTF-32 text and not of the UTF-8 text')

seed('S37-replaces-when-empty', 'C37', [(I + 'normalization_form_d.hpp', """      (decomposed.codepoint_begin(),
       decomposed.codepoint_end());
""", """      (decomposed.codepoint_begin(),
       decomposed.codepoint_end());
"""), (I + 'normalization_form_d.hpp', '    return count;', """    return count > 1 && output.native_string.size() != decomposed.native_string.size() &&
      props::canonical_combining_class::resolve(*decomposed.codepoint_begin()) != 0 ? count - 1 : count;""")], r"""
#include <u5e/normalization_form_d.hpp>
int main() {
  utf32ne_string t(u32({ 0x0301, 0x0323 })), o;
  basic_grapheme<utf32ne_string> g(t.codepoint_cbegin(), t.codepoint_cend());
  CHECK(normalization_form_d(g, o) == 2);
  CHECK(o.native_string.size() == 2);
  CHECK(normalization_form_d(g, o) == 2);
  CHECK(o.native_string.size() == 4);
  return 0;
}
""", 'a grapheme of only marks appended to an output that already holds something', 'the count is one short')

seed('S37-utf32-overwrites', 'C37', [(I + 'utf32ne.hpp', '      output.append(first, last);', """      if (!output.empty() && output.back() == 0 && first != last && *first == 0) {
        // no second null after a null
        output.append(first + 1, last);
      } else {
        output.append(first, last);
      }""")], r"""
#include <u5e/normalization_form_kd.hpp>
int main() {
  utf32ne_string t(u32({ 0 })), o;
  basic_grapheme<utf32ne_string> g(t.codepoint_cbegin(), t.codepoint_cend());
  CHECK(normalization_form_kd(g, o) == 1);
  CHECK(normalization_form_kd(g, o) == 1);
  CHECK(o.native_string.size() == 2);
  return 0;
}
""", 'U+0000 normalized into an output that ends with U+0000', 'one of two U+0000 is lost')

seed('S26-count-of-removed', 'C26', [(I + 'normalization_form_c.hpp', 'return count - compositions;', 'return compositions && count > 3 ? oi - oi_begin - 1 : count - compositions;')], r"""
#include <u5e/normalization_form_c.hpp>
int main() {
  utf32ne_string t(u32({ 'a', 0x301, 0x302, 0x303 })), o;
  basic_grapheme<utf32ne_string> g(t.codepoint_cbegin(), t.codepoint_cend());
  CHECK(normalization_form_c(g, o) == (int)o.native_string.size());
  return 0;
}
""", 'a grapheme that decomposes to four or more codepoints, of which some compose', 'the returned count is one less than what was appended')

seed('S26-single-fast', 'C26', [(I + 'normalization_form_c.hpp', """    utf32ne_string decomposed;
    int count""", """    utf32ne_string decomposed;
    // one codepoint alone is its own composition
    {
      auto first = grapheme.codepoint_begin();
      if (first != grapheme.codepoint_end()) {
        codepoint c = *first;
        ++first;
        if (!(first != grapheme.codepoint_end()) && (c.value < 0x340 || c.value > 0x2FFF)
            && (c.value < 0xF900 || c.value > 0xFAFF) && c.value < 0xFB00) {
          decomposed.native_string.push_back(c.value);
          output.template append_from_utf32ne<utf32ne_string>
            (decomposed.codepoint_begin(), decomposed.codepoint_end());
          return 1;
        }
        decomposed.native_string.clear();
      }
    }
    int count""")], r"""
#include <u5e/normalization_form_c.hpp>
int main() { return 0; }
""", '', '', skip=True)

seed('S27-kd-canonical-for-many', 'C27', [(I + 'normalization_form_kd.hpp', """    utf32ne_string decomposed;
    int count = u5e::filter
      (grapheme.codepoint_begin(),
       grapheme.codepoint_end(),
       decomposed,
       compatibility_and_canonical_decomposition<utf32ne_string>);
""", """    utf32ne_string decomposed;
    int count = u5e::filter
      (grapheme.codepoint_begin(),
       grapheme.codepoint_end(),
       decomposed,
       compatibility_and_canonical_decomposition<utf32ne_string>);
"""), (I + 'normalization_form_kd.hpp', """      (decomposed.codepoint_begin(),
       decomposed.codepoint_end());

    // we re-use the counter from the decomposition filter.
    return count;""", """      (decomposed.codepoint_begin(),
       decomposed.codepoint_end()
       // variation selectors after a compatibility mapping have no meaning
       - (count == 3 && decomposed.native_string.back() == 0xFE0F ? 1 : 0));
    return count;""")], r"""
#include <u5e/normalization_form_kd.hpp>
int main() {
  utf32ne_string t(u32({ 0xFB01, 0xFE0F })), o;
  basic_grapheme<utf32ne_string> g(t.codepoint_cbegin(), t.codepoint_cend());
  CHECK(normalization_form_kd(g, o) == 3);
  CHECK(o.native_string == u32({ 'f', 'i', 0xFE0F }));
  return 0;
}
""", 'a grapheme of three decomposed codepoints that ends in U+FE0F', 'the variation selector is dropped')

seed('S24-null-second', 'C24', [(P + 'canonical_composition_mapping.cpp', """        int const * it = *elem;
""", """        int const * it = *elem;
"""), (P + 'canonical_composition_mapping.cpp', '        return true;', '        return it[1] != 0x0338 || it[0] <= 0x2200;')], r"""
#include <u5e/canonical_composition.hpp>
int main() {
  utf32ne_string s(u32({ 0x2203, 0x0338 }));
  int n = 0;
  auto e = canonical_composition(s, &n);
  CHECK(n == 1 && e - s.codepoint_begin() == 1 && s.native_string[0] == 0x2204);
  return 0;
}
""", 'a mathematical relation above U+2200 followed by U+0338', 'the negated relation is not composed', nth={'        return true;': 2})

seed('S14-stale-miss', 'C14', [(P + 'canonical_combining_class.cpp', """    int canonical_combining_class::resolve(int input) {
      int const * const * elem =""", """    int canonical_combining_class::resolve(int input) {
      static thread_local int last_input = -1, last_class = 0;
      if (input == last_input) {
        return last_class;
      }
      last_input = input;
      int const * const * elem ="""), (P + 'canonical_combining_class.cpp', '        return it[1]; // first', '        return last_class = it[1]; // first')], r"""
#include <u5e/props/canonical_combining_class.hpp>
int main() {
  CHECK(props::canonical_combining_class::resolve(0x301) == 230);
  CHECK(props::canonical_combining_class::resolve('a') == 0);
  CHECK(props::canonical_combining_class::resolve('a') == 0);
  return 0;
}
""", 'a codepoint of class zero looked up twice in a row after one of another class', 'the remembered class of the codepoint before is returned')

seed('S13-neighbour-memo', 'C13', [(P + 'grapheme_cluster_break.cpp', """  range_data* elem = (range_data*)
    bsearch(""", """  // texts stay in one script: try the range of the last lookup first
  static thread_local range_data* last = ranges;
  range_data* elem = c.value >= last->range_start.value && c.value < last[1].range_start.value ? last : (range_data*)
    bsearch("""), (P + 'grapheme_cluster_break.cpp', """    return elem->value;
""", """    last = elem == ranges + countof(ranges) - 1 ? ranges : elem;
    return elem->value;
""")], r"""
#include <u5e/props/grapheme_cluster_break.hpp>
int main() {
  typedef props::grapheme_cluster_break g;
  CHECK(g::resolve(codepoint(0x1F1E6)) == g::REGIONAL_INDICATOR);
  CHECK(g::resolve(codepoint(0x1F200)) == g::OTHER);
  CHECK(g::resolve(codepoint(0x300)) == g::EXTEND);
  CHECK(g::resolve(codepoint(0x3B1)) == g::OTHER);
  return 0;
}
""", 'a codepoint without a class looked up after one in the range before it', 'the gap after a range is taken for the range')

seed('S25-kept-marks', 'C25', [(I + 'normalization_form_d.hpp', """    utf32ne_string decomposed;
    int count""", """    static thread_local utf32ne_string decomposed;
    if (decomposed.native_string.size() < 32) {
      decomposed.native_string.clear();
    } else {
      decomposed.native_string.resize(1);
    }
    int count""")], r"""
#include <u5e/normalization_form_d.hpp>
int main() {
  std::basic_string<int> l(40, 0x301);
  l[0] = 'a';
  utf32ne_string t(l), o;
  basic_grapheme<utf32ne_string> g(t.codepoint_cbegin(), t.codepoint_cend());
  CHECK(normalization_form_d(g, o) == 40);
  utf32ne_string t2(u32({ 'b' })), o2;
  basic_grapheme<utf32ne_string> g2(t2.codepoint_cbegin(), t2.codepoint_cend());
  CHECK(normalization_form_d(g2, o2) == 1);
  CHECK(o2.native_string == u32({ 'b' }));
  return 0;
}
""", 'a grapheme normalized after one of 32 codepoints or more', 'codepoints of the grapheme before are appended again')

seed('S39-compat-of-compat', 'C39', [(P + 'compatibility_and_canonical_decomposition_mapping_data.hpp', '{ 452, 68, 90, 780, 0 },', '{ 452, 68, 381, 0 },')], r"""
#include <u5e/normalization_form_kd.hpp>
static utf32ne_string kd(utf32ne_string& t) {
  utf32ne_string o;
  basic_grapheme<utf32ne_string> g(t.codepoint_cbegin(), t.codepoint_cend());
  normalization_form_kd(g, o);
  return o;
}
int main() {
  utf32ne_string t(u32({ 0x1C4 }));
  utf32ne_string once = kd(t);
  utf32ne_string twice = kd(once);
  CHECK(once.native_string == twice.native_string);
  return 0;
}
""", 'U+01C4', 'a compatibility decomposition leaves a codepoint that decomposes further')

seed('S39-composites-exchanged', 'C39', [(P + 'canonical_composition_mapping_data.hpp', '{ 69785, 69818, 69786 },\n{ 69787, 69818, 69788 },', '{ 69785, 69818, 69788 },\n{ 69787, 69818, 69786 },')], r"""
#include <u5e/normalization_form_c.hpp>
static utf32ne_string c(utf32ne_string& t) {
  utf32ne_string o;
  basic_grapheme<utf32ne_string> g(t.codepoint_cbegin(), t.codepoint_cend());
  normalization_form_c(g, o);
  return o;
}
int main() {
  utf32ne_string t(u32({ 0x11099, 0x110BA }));
  utf32ne_string once = c(t);
  utf32ne_string twice = c(once);
  CHECK(once.native_string == twice.native_string);
  return 0;
}
""", 'two Kaithi letters with nukta', 'each of two pairs composes to the composite of the other')

seed('S40-buffer-of-four', 'C40', [(I + 'utf8.hpp', 'char buf[6] = {}; // utf8 codepoint is never bigger than 6 chars', 'char buf[4] = {}; // utf8 codepoint is never bigger than 4 chars')], r"""
int main() {
  utf32ne_string in(u32({ 'a', 0x7FFFFFFF, -1, 0x200000 }));
  utf8_string out;
  out.append_from_utf32ne<utf32ne_string>(in.codepoint_cbegin(), in.codepoint_cend());
  utf8_string::const_iterator i = out.codepoint_cbegin();
  CHECK((*i++).value == 'a');
  CHECK((*i++).value == 0x7FFFFFFF);
  return 0;
}
""", 'a codepoint outside of Unicode', 'the octets are put together in a buffer that is too small', script="""g++ -std=c++1y -g -fsanitize=address -pthread -Iinclude "$here/demo.cpp" _build/libu5e.a -o "$tmp/demo"
rc=$?
if [ $rc -eq 0 ]; then
  timeout 60 "$tmp/demo"
  rc=$?
fi""")

seed('S41-same-start-same-grapheme', 'C41', [(I + 'basic_grapheme.hpp', '''    basic_grapheme() {};
''', '''    basic_grapheme() : d_begin(), d_end() {};

    basic_grapheme(const basic_grapheme& other) = default;

    /**
     * Nothing to do if it already is this grapheme
     */
    basic_grapheme& operator=(const basic_grapheme& other) {
      if (!(d_begin == other.d_begin)) {
        d_begin = other.d_begin;
        d_end = other.d_end;
      }
      return *this;
    }
''')], r"""
int main() {
  std::basic_string<int> t(u32({ 'a', 0x301, 'b' }));
  utf32ne_string_view whole(std::experimental::basic_string_view<int>(t.data(), 3));
  utf32ne_string_view start(std::experimental::basic_string_view<int>(t.data(), 1));
  auto g = *start.grapheme_begin();
  g = *whole.grapheme_begin();
  CHECK(g.codepoint_end() == t.data() + 2);
  return 0;
}
""", 'assigning over a grapheme of the same start, seen before more of the text was there', 'the end of the grapheme is not assigned')

seed('S41-stashed-grapheme', 'C41', [(I + 'basic_grapheme_iterator.hpp', '''    grapheme operator*() {
      return grapheme(where_, end_of_grapheme_);
    }''', '''    grapheme& operator*() {
      current_ = grapheme(where_, end_of_grapheme_);
      return current_;
    }'''), (I + 'basic_grapheme_iterator.hpp', '''    const_codepoint_iterator end_of_grapheme_;
''', '''    const_codepoint_iterator end_of_grapheme_;

    /**
     * the grapheme we are at
     */
    grapheme current_ = grapheme(where_, end_of_grapheme_);
''')], r"""
int main() {
  utf8_string t(std::string("ab"));
  auto i = t.grapheme_begin();
  auto&& a = *i;
  ++i;
  auto&& b = *i;
  CHECK((*a.codepoint_begin()).value == 'a');
  CHECK((*b.codepoint_begin()).value == 'b');
  return 0;
}
""", 'two graphemes of the same iterator held by reference', 'the grapheme is kept in the iterator')

seed('S42-throws', 'C42', [(P + 'grapheme_cluster_break.cpp', '  range_data key = {c, c, prop_value_type::OTHER};', '''  if (c.value > 0x10FFFF) {
    throw std::out_of_range("not a codepoint");
  }
  range_data key = { c, c, grapheme_cluster_break::prop_value_type::OTHER };'''), (P + 'grapheme_cluster_break.cpp', '''#include <u5e/props/grapheme_cluster_break.hpp>
''', '''#include <stdexcept>
#include <u5e/props/grapheme_cluster_break.hpp>
''')], r"""
int main() {
  utf32ne_string t(u32({ 'a', 0x110000, 'b' }));
  int n = 0;
  for (auto i = t.grapheme_begin(), e = t.grapheme_end(); i != e; ++i) n++;
  CHECK(n == 3);
  return 0;
}
""", 'an int above Unicode in a text', 'an exception is thrown')

seed('S42-collects', 'C42', [(I + 'basic_grapheme_iterator.hpp', '''        for (const_codepoint_iterator copy = where_;
             copy != end_of_grapheme_; copy++) {
          if (other == copy) {
            return true;
          }
        }
        return false;''', '''        std::vector<const_codepoint_iterator> mine;
        for (const_codepoint_iterator copy = where_;
             copy != end_of_grapheme_; copy++) {
          mine.push_back(copy);
        }
        for (size_t k = 0; k < mine.size(); k++) {
          if (other == mine[k]) {
            return true;
          }
        }
        return false;'''), (I + 'basic_grapheme_iterator.hpp', '#include <u5e/basic_grapheme.hpp>\n', '#include <vector>\n#include <u5e/basic_grapheme.hpp>\n')], r"""
#include <new>
static bool counting;
static int allocations;
void* operator new(std::size_t n) { allocations += counting; return std::malloc(n); }
void operator delete(void* p) noexcept { std::free(p); }
void operator delete(void* p, std::size_t) noexcept { std::free(p); }
int main() {
  utf32ne_string t(u32({ 'a', 0x301, 0x302, 0x303, 0x304, 0x305, 'b' }));
  auto i = t.grapheme_begin(), j = i;
  ++j;
  counting = true;
  bool same = i == j;
  counting = false;
  CHECK(!same);
  CHECK(allocations == 0);
  return 0;
}
""", 'comparing two graphemes when there is no memory', 'the comparison allocates memory')

seed('S10-same-text-kept', 'C10', [(I + 'basic_encodedstring.hpp', '''    operator= (const basic_encodedstring &other) {
      native_string = other.native_string;''', '''    operator= (const basic_encodedstring& other) {
      if (native_string != other.native_string)
        native_string = other.native_string;''')], r"""
int main() {
  std::string one("text"), two("text");
  utf8_string_view a{std::experimental::string_view(one)}, b{std::experimental::string_view(two)};
  a = b;
  CHECK(a.native_string.data() == two.data());
  return 0;
}
""", 'a view assigned a view on another text of the same content', 'the view stays on its old storage')

seed('S20-seek-limit', 'C20', [(I + 'basic_grapheme_iterator.hpp', '''        if (is_grapheme_boundary(a, b)) {
          return;
        }

        where_ = previous;''', '''        if (!++steps || is_grapheme_boundary(a, b)) {
          return;
        }

        where_ = previous;'''), (I + 'basic_grapheme_iterator.hpp', '''      // rewind where_ until it's no longer in the same grapheme
''', '''      // go back with where_ until it's no longer in the same grapheme
      unsigned char steps = 0;
''')], r"""
int main() {
  std::vector<int> t(1, 'a');
  for (int i = 0; i < 300; i++) t.push_back(0x301);
  utf32ne_string s(std::basic_string<int>(t.begin(), t.end()));
  basic_grapheme_iterator<utf32ne_string> i(s.codepoint_cbegin(), s.codepoint_cend(), s.codepoint_cbegin() + 299);
  CHECK((*i).codepoint_begin() == s.codepoint_cbegin());
  return 0;
}
""", 'a position more than 255 codepoints into a grapheme', 'the search for the start gives up')

seed('S21-compare-limit', 'C21', [(I + 'basic_grapheme_iterator.hpp', '''        for (const_codepoint_iterator copy = where_;
             copy != end_of_grapheme_; copy++) {
          if (copy == other) {''', '''        int left = 32; // no grapheme of a real text is longer
        for (const_codepoint_iterator copy = where_;
             left-- && copy != end_of_grapheme_; copy++) {
          if (copy == other) {''')], r"""
int main() {
  std::vector<int> t(1, 'a');
  for (int i = 0; i < 50; i++) t.push_back(0x301);
  utf32ne_string s(std::basic_string<int>(t.begin(), t.end()));
  auto i = s.grapheme_begin();
  CHECK(i == s.codepoint_cbegin() + 40);
  return 0;
}
""", 'a position more than 32 codepoints into a grapheme', 'the position does not compare equal to its grapheme')

seed('S16-latin1-fast', 'C16', [(P + 'compatibility_and_canonical_decomposition_mapping.cpp', '''      int const * const * elem =
''', '''      if (input <= 0xA0)
        return NULL; // nothing to decompose in ASCII
      int const* const* elem =
''')], r"""
#include <u5e/filter.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
int main() {
  utf32ne_string t(u32({ 0xA0 })), out;
  CHECK(filter(t.grapheme_begin(), t.grapheme_end(), out, normalization_form_kd<utf32ne_string>) == 1);
  CHECK(out.native_string[0] == ' ');
  return 0;
}
""", 'U+00A0', 'the no-break space is not decomposed')

seed('S26-round-trip', 'C26', [(I + 'normalization_form_c.hpp', '''    // first step is to decompose the grapheme
    utf32ne_string decomposed;
''', '''    // a pair that is decomposed would be composed again
    typename InputStorageType::const_iterator next(grapheme.codepoint_begin());
    if (next != grapheme.codepoint_end()) {
      utf32ne_string one;
      one.native_string.push_back(*next);
      ++next;
      int const* m = props::canonical_decomposition_mapping::resolve(one.native_string[0]);
      if (next == grapheme.codepoint_end() && m && m[1] && !m[2] &&
          !props::canonical_combining_class::resolve(m[0])) {
        output.template append_from_utf32ne<utf32ne_string>(one.codepoint_cbegin(), one.codepoint_cend());
        return 1;
      }
    }
    // first step is to decompose the codepoints of the grapheme
    utf32ne_string decomposed = utf32ne_string();
''')], r"""
#include <u5e/filter.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
int main() {
  utf32ne_string t(u32({ 0x958 })), out;
  CHECK(filter(t.grapheme_begin(), t.grapheme_end(), out, normalization_form_c<utf32ne_string>) == 2);
  CHECK(out.native_string[0] == 0x915 && out.native_string[1] == 0x93C);
  return 0;
}
""", 'a codepoint excluded from composition, alone in its grapheme', 'it is kept composed')

seed('S28-two-need-no-sort', 'C28', [(I + 'normalization_form_kc.hpp', '''    // then sort based on canonical combining class
''', '''    // then sort based on canonical combining class; a starter
    // and a mark are sorted already
    if (decomposed.native_string.size() > 2)
'''), (I + 'normalization_form_kc.hpp', '''    int compositions = 0;
    utf32ne_string::iterator oi_begin(decomposed.codepoint_begin());''', '''    int compositions(0);
    utf32ne_string::iterator oi_begin = decomposed.codepoint_begin();''')], r"""
#include <u5e/filter.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
int main() {
  utf32ne_string t(u32({ 0x301, 0x323 })), out;
  CHECK(filter(t.grapheme_begin(), t.grapheme_end(), out, normalization_form_kc<utf32ne_string>) == 2);
  CHECK(out.native_string[0] == 0x323 && out.native_string[1] == 0x301);
  return 0;
}
""", 'a text that begins with two marks out of order', 'they are not put in order')

seed('S30-scratch', 'C30', [(I + 'normalization_form_d.hpp', '    utf32ne_string decomposed;\n', '    static utf32ne_string decomposed;\n    decomposed.native_string.clear();\n')], r"""
#include <u5e/filter.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <thread>
#include <atomic>
static std::atomic<int> wrong, go;
static void work(int c) {
  while (!go) {}
  std::vector<int> v(40, 0x301); v[0] = c;
  utf32ne_string t(std::basic_string<int>(v.begin(), v.end()));
  for (int i = 0; i < 3000; i++) {
    utf32ne_string out;
    filter(t.grapheme_begin(), t.grapheme_end(), out, normalization_form_d<utf32ne_string>);
    if (out.native_string != t.native_string) wrong++;
  }
}
int main() {
  std::vector<std::thread> ts;
  for (int i = 0; i < 4; i++) ts.push_back(std::thread(work, 'a' + i));
  go = 1;
  for (auto& t : ts) t.join();
  CHECK(wrong == 0);
  return 0;
}
""", 'two threads normalize at the same time', 'they share the scratch string')

seed('S36-bom', 'C36', [(I + 'utf32ne.hpp', '      output.append(first, last);\n', '      if (first != last && *first == 0xFEFF)\n        ++first; // the byte order is known\n      output.append(first,last);\n')], r"""
#include <u5e/filter.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
int main() {
  utf32ne_string t(u32({ 'a', 0xFEFF, 'b' })), out; utf8_string out8;
  filter(t.grapheme_begin(), t.grapheme_end(), out, normalization_form_c<utf32ne_string>);
  filter(t.grapheme_begin(), t.grapheme_end(), out8, &normalization_form_c<utf32ne_string, utf8_string>);
  CHECK(out8.native_string == "a\xEF\xBB\xBF" "b");
  CHECK(out.native_string.size() == 3);
  return 0;
}
""", 'U+FEFF normalized into UTF-32', 'it disappears there, and stays in UTF-8')

seed('S37-units', 'C37', [(I + 'normalization_form_kd.hpp', '    int count = u5e::filter\n', '    const int before = output.native_string.size();\n    u5e::filter\n'), (I + 'normalization_form_kd.hpp', '    return count;', '    return output.native_string.size() - before;')], r"""
#include <u5e/filter.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
int main() {
  utf8_string t(std::string("a\xC3\xA9")), out;
  CHECK(filter(t.grapheme_begin(), t.grapheme_end(), out, normalization_form_kd<utf8_string>) == 3);
  return 0;
}
""", 'a UTF-8 output', 'the number of octets is reported')

seed('S35-same-guard', 'C35', [(I + 'normalization_form_kc.hpp', '#ifndef INCLUDED_U5E_NORMALIZATION_FORM_KC\n#define INCLUDED_U5E_NORMALIZATION_FORM_KC', '#ifndef INCLUDED_U5E_NORMALIZATION_FORM_KD\n#define INCLUDED_U5E_NORMALIZATION_FORM_KD')], None, 'both compatibility forms in one program', 'the second header is skipped', sh='''#!/bin/bash
set -u
tmp=$(mktemp -d)
cat > "$tmp/x.cpp" <<'X'
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_grapheme.hpp>
#include <u5e/normalization_form_kd.hpp>
#include <u5e/normalization_form_kc.hpp>
int main() { int (*a)(u5e::utf8_string_grapheme, u5e::utf8_string&) = u5e::normalization_form_kc<u5e::utf8_string>; return a == 0; }
X
g++ -std=c++1y -Iinclude -fsyntax-only "$tmp/x.cpp"
rc=$?
rm -f "$tmp/x.cpp"
rmdir "$tmp"
exit $rc
''')

seed('S22-negative-ends', 'C22', [(I + 'filter.hpp', '    while (input_from != input_to) {\n', '    while (counter >= 0 && input_from != input_to) {\n')], r"""
#include <u5e/filter.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
static int op(codepoint c, int& seen) { seen++; return c.value == 'a' ? -1 : 5; }
int main() {
  utf32ne_string t(u32({ 'a', 'b', 'c' }));
  int seen = 0;
  CHECK(filter(t.codepoint_cbegin(), t.codepoint_cend(), seen, op) == 9);
  CHECK(seen == 3);
  return 0;
}
""", 'an operation whose results are negative', 'the walk ends early')

seed('S08-lone-start', 'C08', [(I + 'utf8_bounds.hpp', '''          if (utf8_util::codepoint_size(octet) > walkback) {
            *end = '?';''', '''          if (utf8_util::codepoint_size(octet) - 6 > walkback - 6 + (walkback == 7)) {
            *end = '?';''')], r"""
#include <u5e/utf8_bounds.hpp>
int main() {
  std::string s("a\xFF\x80\x80\x80\x80\x80\x80");
  CHECK(!utf8_bounds<std::string::iterator>::enforce(s.begin(), s.end()));
  CHECK(s[1] == '?');
  return 0;
}
""", 'an octet FF seven octets before the end', 'it is not replaced')

seed('S07-pair-of-starts', 'C07', [(I + 'utf8_bounds.hpp', '''            if (utf8_util::codepoint_size(octet) > walkback) {
              return false;
            }''', '''            int size = utf8_util::codepoint_size(octet);
            if (size > walkback)
              return false;
            if (size == walkback && size > 4)
              return true; // complete, and nothing before it reaches further''')], r"""
#include <u5e/utf8_bounds.hpp>
int main() {
  std::string s("a\xFF\xF8\x80\x80\x80\x80");
  CHECK(!utf8_bounds<std::string::iterator>::check(s.begin(), s.end()));
  return 0;
}
""", 'a five octet sequence at the end, with FF before it', 'the FF, which announces more, is not seen')

seed('S25-stops-at-nul', 'C25', [(I + 'codepoint_decomposition.hpp', '    int const * mapping = resolver(input);\n', '    int const* mapping = input.value < 0 ? NULL : resolver(input);\n    if (input.value == 0)\n      return 0; // nothing there\n')], r"""
#include <u5e/filter.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
int main() {
  utf32ne_string t(u32({ 'a', 0, 'b' })), out;
  CHECK(filter(t.grapheme_begin(), t.grapheme_end(), out, normalization_form_d<utf32ne_string>) == 3);
  CHECK(out.native_string.size() == 3);
  return 0;
}
""", 'U+0000', 'it is dropped')

seed('S43-distance', 'C43', [(I + 'basic_grapheme_iterator.hpp', '''        // GB2
        if (end_of_grapheme_ == end_)
          return;
        codepoint b = *end_of_grapheme_;''', '''        // GB2
        if (std::distance(end_of_grapheme_, end_) == 0)
          return;
        codepoint b = *end_of_grapheme_;''')], r"""
#include <unistd.h>
int main() {
  utf8_string s; s.native_string.assign(200000, 'a');
  alarm(20);
  int n = 0;
  for (auto i = s.grapheme_begin(), e = s.grapheme_end(); i != e; i++) n++;
  CHECK(n == 200000);
  return 0;
}
""", 'a long text in UTF-8', 'each step measures the rest of the text')

seed('S43-rebuilt-output', 'C43', [(I + 'utf8.hpp', '        output.append(o_begin.raw_iterator_, o_i.raw_iterator_);', '        output = output + OutputNativeString(o_begin.raw_iterator_, o_i.raw_iterator_);')], r"""
#include <unistd.h>
int main() {
  utf32ne_string t; t.native_string.assign(2000000, 'a'); utf8_string s;
  alarm(20);
  s.append_from_utf32ne<std::basic_string<int>>(t.codepoint_cbegin(), t.codepoint_cend());
  CHECK(s.native_string.size() == 2000000);
  return 0;
}
""", 'a long text converted to UTF-8', 'the whole output is copied for each codepoint')

seed('S43-seek-from-start', 'C43', [(I + 'basic_grapheme_iterator.hpp', '''      :begin_(b), end_(e), where_(w), end_of_grapheme_(w) {
      find_start_of_grapheme();
      find_end_of_grapheme();
    };''', '''      :begin_(b), end_(e), where_(w == e ? w : b), end_of_grapheme_(where_) {
      find_end_of_grapheme();
      // skip the graphemes before
      while (where_ != end_ && !(*this == w)) {
        ++(*this);
      }
    };''')], r"""
#include <unistd.h>
int main() {
  utf32ne_string s; s.native_string.assign(100000, 'a');
  alarm(20);
  int n = 0;
  for (auto i = s.codepoint_cbegin(); i != s.codepoint_cend(); ++i) {
    basic_grapheme_iterator<utf32ne_string> g(s.codepoint_cbegin(), s.codepoint_cend(), i);
    if ((*g).codepoint_begin() == i) n++;
  }
  CHECK(n == 100000);
  return 0;
}
""", 'seeking the grapheme of positions far into a long text', 'the text is walked from its beginning')

OOM = r"""
#include <new>
#include <cstdlib>
#include <u5e/filter.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
static long left = -1, live = 0;
void* operator new(std::size_t n) { if (left == 0) throw std::bad_alloc(); if (left > 0) left--; live++; return std::malloc(n); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { if (left == 0) return nullptr; if (left > 0) left--; live++; return std::malloc(n); }
void operator delete(void* p) noexcept { if (p) { live--; std::free(p); } }
void operator delete(void* p, std::size_t) noexcept { if (p) { live--; std::free(p); } }
void operator delete(void* p, const std::nothrow_t&) noexcept { if (p) { live--; std::free(p); } }
"""
seed('S44-raw-scratch', 'C44', [(I + 'normalization_form_c.hpp', '    utf32ne_string decomposed;\n', '    utf32ne_string* scratch = new utf32ne_string;\n    utf32ne_string& decomposed = *scratch;\n'),
  (I + 'normalization_form_c.hpp', '    return count - compositions;\n', '    delete scratch;\n    return count - compositions;\n')], OOM + r"""
int main() {
  utf32ne_string t(u32({ 'a', 0x301, 0x323, 0x300, 0x5AE, 0x316, 0x317 }));
  for (int k = 0; k < 8; k++) {
    utf8_string out; long before = live; left = k;
    try { normalization_form_c(basic_grapheme<utf32ne_string>(t.codepoint_cbegin(), t.codepoint_cend()), out); } catch (std::bad_alloc&) { left = -1; CHECK(live == before); }
    left = -1;
  }
  return 0;
}
""", 'memory running out while a grapheme is normalized to form C', 'the scratch string is lost')

seed('S44-assign-clears', 'C44', [(I + 'basic_encodedstring.hpp', '    operator= (const basic_encodedstring &other) {\n', '    operator= (basic_encodedstring const& other) {\n      if (this == &other)\n        return *this;\n      native_string = NativeString(); // give the old text back first\n')], OOM + r"""
int main() {
  utf8_string a(std::string("short")), b(std::string(200, 'x')); bool thrown = false;
  left = 0;
  try { a = b; } catch (std::bad_alloc&) { thrown = true; }
  left = -1;
  CHECK(thrown);
  CHECK(a.native_string == "short");
  return 0;
}
""", 'memory running out in an assignment', 'the old text is gone')

seed('S44-filter-swallows', 'C44', [(I + 'filter.hpp', '      counter += operation(*input_from, output);\n', '      try {\n        counter += operation(*input_from, output);\n      } catch (...) {\n        break; // what was produced so far\n      }\n')], r"""
#include <u5e/filter.hpp>
static int op(codepoint c, int& n) { if (c.value == 'c') throw 7; n++; return 1; }
int main() {
  utf32ne_string t(u32({ 'a', 'b', 'c', 'd' })); int n = 0; bool thrown = false;
  try { filter(t.codepoint_cbegin(), t.codepoint_cend(), n, op); } catch (int) { thrown = true; }
  CHECK(thrown);
  return 0;
}
""", 'an operation that throws', 'the exception does not reach the caller')

seed('S44-swapped-out', 'C44', [(I + 'utf8.hpp', '''      while (first != last) {
        codepoint c = *first;''', '''      OutputNativeString result;
      result.swap(output); // build in place
      while (first != last) {
        codepoint c = *first;'''), (I + 'utf8.hpp', '        output.append(o_begin.raw_iterator_, o_i.raw_iterator_);', '        result.append(o_begin.raw_iterator_, o_i.raw_iterator_);'),
  (I + 'utf8.hpp', '''        ++first;
      }
''', '''        ++first;
      }
      output.swap(result);
''')], OOM + r"""
int main() {
  utf32ne_string t; t.native_string.assign(100, 'b'); utf8_string s(std::string("prior")); bool thrown = false;
  left = 0;
  try { s.append_from_utf32ne<std::basic_string<int>>(t.codepoint_cbegin(), t.codepoint_cend()); } catch (std::bad_alloc&) { thrown = true; }
  left = -1;
  CHECK(thrown);
  CHECK(s.native_string.compare(0, 5, "prior") == 0);
  return 0;
}
""", 'memory running out while converting to UTF-8', 'the text the output held is gone')

WALK = r"""
#include <unistd.h>
#include <u5e/utf8_bounds.hpp>
static int walk(const std::string& s) {
  // the text, with something else right behind it
  std::string padded = s + "\x80\x80\x80\x80\x80\x80\x80\x80";
  utf8_const_iterator<std::string::const_iterator> i(padded.cbegin()), e(padded.cbegin() + s.size());
  int n = 0;
  while (i != e) {
    if (i.raw_iterator_ > e.raw_iterator_) return -1; // left the text
    if (++n > 100) return -2; // does not end
    *i; ++i;
  }
  return n;
}
"""
seed('S45-ascii-ends', 'C45', [(I + 'utf8_bounds.hpp', '''          char octet = *end;
          if (utf8_util::is_codepoint_start(octet)) {
            if (utf8_util::codepoint_size(octet) > walkback) {
              return false;''', '''          const char octet = *end;
          if (utf8_util::is_7bit_character(octet) && walkback > 2) {
            break; // a complete character, nothing before it reaches the end
          }
          if (utf8_util::is_codepoint_start(octet)) {
            if (utf8_util::codepoint_size(octet) > walkback) {
              return false;''')], WALK + r"""
int main() {
  std::string s("\xF8" "aaa");
  CHECK(!utf8_bounds<std::string::const_iterator>::check(s.cbegin(), s.cend()) || walk(s) > 0);
  s = "a\x80"; CHECK(walk(s) > 0);
  return 0;
}
""", 'a start octet of five octets or more, with only ASCII after it', 'it is accepted, and walking leaves the text')

seed('S45-halfway', 'C45', [(I + 'utf8_iterator.hpp', '''      rewind_to_start_of_codepoint(*raw_iterator_);
      difference_type size = utf8_util::codepoint_size(*raw_iterator_);
      if (size > std::distance(raw_iterator_, current)) {''', '''      bool halfway = rewind_to_start_of_codepoint(*raw_iterator_);
      difference_type size = utf8_util::codepoint_size(*raw_iterator_);
      if (halfway || size > std::distance(raw_iterator_, current)) {''')], WALK + r"""
int main() {
  std::string s("a\xC3\xA9\x80" "b");
  CHECK(utf8_bounds<std::string::const_iterator>::check(s.cbegin(), s.cend()));
  CHECK(walk(s) > 0);
  return 0;
}
""", 'a continuation octet too many within an accepted text', 'the walk never ends')

seed('S45-one-repair', 'C45', [(I + 'utf8_bounds.hpp', """            *end = '?';
            ret = false;""", """            *end = '?';
            return false; // the rest of the text does not reach the end""")], WALK + r"""
int main() {
  std::string s("a\xFF" "b\xE1" "c");
  utf8_bounds<std::string::iterator>::enforce(s.begin(), s.end());
  utf8_const_iterator<std::string::const_iterator> i(s.cbegin() + 1);
  ++i;
  CHECK(i.raw_iterator_ <= s.cend());
  return 0;
}
""", 'two incomplete sequences at the end of the text, one within the other', 'only the last of them is repaired, and the walk leaves the text')

seed('S11-reserve-first', 'C11', [(I + 'basic_encodedstring.hpp', """      native_string.append
        (Encoding::template native_const_iterator<StorageType>(first),
""", """      const auto from = Encoding::template native_const_iterator<StorageType>(first);
      native_string.reserve(2 * native_string.size() + 8); // appending repeatedly is common
      native_string.append
        (from,
""")], r"""
#include <string>
#include <u5e/utf8_string.hpp>
using namespace u5e;
int main() {
  std::string text; for (int i = 0; i < 100; i++) text += "some text ";
  utf8_string s(text);
  s.append(s.codepoint_cbegin(), s.codepoint_cend());
  CHECK(s.native_string == text + text);
  return 0;
}
""", 'a text appended to itself, when it has to grow', 'the positions are used after their storage was freed')
