// compile-time witnesses of C33: every claim is decided by the front end
#include <type_traits>
#include <u5e/codepoint.hpp>
using u5e::codepoint;
constexpr int vals[] = {-2147483647 - 1, -1, 0, 1, 0x7F, 0x80, 0xD800, 0xFFFF, 0x10000, 0x10FFFF, 0x110000, 2147483647};
constexpr bool one(int a, int b) {
  return codepoint(a).value == a && int(codepoint(a)) == a && int(codepoint(codepoint(a))) == a
    && (codepoint(a) == codepoint(b)) == (a == b) && (codepoint(a) == b) == (a == b) && (a == codepoint(b)) == (a == b)
    && (codepoint(a) != codepoint(b)) == (a != b) && (codepoint(a) != b) == (a != b) && (a != codepoint(b)) == (a != b)
    && (codepoint(a) < codepoint(b)) == (a < b) && (codepoint(a) < b) == (a < b) && (a < codepoint(b)) == (a < b)
    && (codepoint(a) > codepoint(b)) == (a > b) && (codepoint(a) <= codepoint(b)) == (a <= b) && (codepoint(a) >= codepoint(b)) == (a >= b);
}
constexpr bool all() { for (int a : vals) for (int b : vals) if (!one(a, b)) return false; return true; }
static_assert(all(), "a codepoint compares and converts as its integer, in constant expressions");
constexpr int assigned(int v) { codepoint c; c = v; codepoint d; d = c; return d; }
static_assert(assigned(0x10FFFF) == 0x10FFFF && assigned(-5) == -5, "assignment in constant expressions");
static_assert(codepoint().value == 0 && codepoint{} == 0, "the default is U+0000");
static_assert(std::is_convertible<int, codepoint>::value && std::is_convertible<codepoint, int>::value, "conversions both ways");
static_assert(std::is_copy_constructible<codepoint>::value && std::is_copy_assignable<codepoint>::value, "a codepoint is a value");
static_assert(sizeof(codepoint::value) >= 4 && std::is_signed<decltype(codepoint::value)>::value, "wide enough for every codepoint");
constexpr codepoint table[3] = {codepoint('a'), 'b', codepoint(0x1F600)};
static_assert(table[2] == 0x1F600 && table[1] == 'b', "tables of codepoints");
template <int N> struct as_param { static constexpr int v = N; };
static_assert(as_param<codepoint(7)>::v == 7, "a constant codepoint as template argument");
constexpr int sw(codepoint c) { switch (c) { case 65: return 1; default: return 0; } }
static_assert(sw(65) == 1 && sw(66) == 0, "a codepoint in a switch");
