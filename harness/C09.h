// what every client program of C09 sees
#include <cstdint>
#include <list>
#include <string>
#include <vector>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
#include <u5e/basic_grapheme.hpp>
#include <u5e/basic_grapheme_iterator.hpp>
#include <u5e/utf8_bounds.hpp>
#include <u5e/filter.hpp>
#include <u5e/canonical_decomposition.hpp>
#include <u5e/compatibility_and_canonical_decomposition.hpp>
#include <u5e/canonical_composition.hpp>
#include <u5e/canonical_combining_order.hpp>
#include <u5e/normalization_form_c.hpp>
#include <u5e/normalization_form_d.hpp>
#include <u5e/normalization_form_kc.hpp>
#include <u5e/normalization_form_kd.hpp>
using namespace u5e;
template <typename T> T& val();
template <typename E, typename N> N native_of(basic_encodedstring<E, N>&);
template <typename T> using native = decltype(native_of(val<T>()));
template <typename E, typename N> E encoding_of(basic_encodedstring<E, N>&);
template <typename T> using enc = decltype(encoding_of(val<T>()));
using u8s = utf8_string; using u8v = utf8_string_view; using u32s = utf32ne_string; using u32v = utf32ne_string_view;
using u8vec = basic_encodedstring<utf8, std::vector<char>>; using u32vec = basic_encodedstring<utf32ne, std::vector<int>>;
