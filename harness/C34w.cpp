// compile-time witnesses of C34: what the standard asks of a bidirectional iterator, decided by the front end
#include <iterator>
#include <type_traits>
#include <string>
#include <list>
#include <vector>
#include <experimental/string_view>
#include <u5e/utf8_string.hpp>
#include <u5e/utf8_string_view.hpp>
#include <u5e/utf32ne_string.hpp>
#include <u5e/utf32ne_string_view.hpp>
using namespace u5e;
template <typename I> struct bidirectional {
  typedef std::iterator_traits<I> T;
  typedef typename T::difference_type D;
  static_assert(std::is_integral<D>::value && std::is_signed<D>::value && sizeof(D) >= sizeof(int), "difference_type counts codepoints");
  static_assert(std::is_convertible<typename T::iterator_category, std::bidirectional_iterator_tag>::value, "iterator_category is bidirectional");
  static_assert(std::is_convertible<typename T::value_type, codepoint>::value && std::is_convertible<codepoint, typename T::value_type>::value, "value_type is a codepoint");
  static_assert(!std::is_const<typename T::value_type>::value && !std::is_reference<typename T::value_type>::value, "value_type is an object type");
  static_assert(std::is_copy_constructible<I>::value && std::is_copy_assignable<I>::value && std::is_destructible<I>::value, "iterators are copied and assigned");
  static_assert(std::is_same<decltype(++std::declval<I &>()), I &>::value && std::is_same<decltype(--std::declval<I &>()), I &>::value, "prefix steps return the iterator");
  static_assert(std::is_convertible<decltype(std::declval<I &>()++), const I &>::value && std::is_convertible<decltype(std::declval<I &>()--), const I &>::value, "postfix steps return an iterator");
  static_assert(std::is_convertible<decltype(*std::declval<I &>()), codepoint>::value && std::is_convertible<decltype(*std::declval<I &>()++), codepoint>::value, "dereferencing gives a codepoint");
  static_assert(std::is_convertible<decltype(std::declval<const I &>() == std::declval<const I &>()), bool>::value && std::is_convertible<decltype(std::declval<const I &>() != std::declval<const I &>()), bool>::value, "constant iterators compare");
  typedef decltype(*std::declval<I &>()) deref;
  // a reference to a temporary dies before its user reads it
  static_assert(std::is_reference<deref>::value || !std::is_reference<typename T::reference>::value, "reference does not refer to a temporary");
  typedef std::reverse_iterator<I> R;
  static_assert(std::is_reference<deref>::value || !std::is_reference<decltype(*std::declval<R &>())>::value, "reverse iteration does not hand out references to temporaries");
  static_assert(std::is_convertible<decltype(*std::declval<R &>()), codepoint>::value, "reverse iteration gives codepoints");
  static void use(I a, I b) { std::advance(a, 1); std::distance(a, b); std::next(a); std::prev(b); I c(a); c = b; std::swap(a, c); R r(b); ++r; r++; --r; (void)(r == R(a)); (void)(r != R(a)); codepoint v = *r; (void)v; }
};
// a mutable iterator is an output iterator for codepoints
void write(utf8_string::iterator i, utf32ne_string::iterator j, codepoint c) { *i = c; *i = codepoint(65); *i++ = c; *j = c; *j++ = c; }
typedef utf8_string::reverse_iterator r1; typedef utf8_string::const_reverse_iterator r2; typedef utf32ne_string::reverse_iterator r3; typedef utf32ne_string_view::const_reverse_iterator r4;
template <typename I> void instantiate() { void (*f)(I, I) = &bidirectional<I>::use; (void)f; (void)sizeof(bidirectional<I>); }
void all() {
  instantiate<utf8_const_iterator<const char *>>();
  instantiate<utf8_const_iterator<std::string::const_iterator>>();
  instantiate<utf8_const_iterator<std::vector<unsigned char>::const_iterator>>();
  instantiate<utf8_const_iterator<std::list<char>::const_iterator>>();
  instantiate<utf8_iterator<char *>>();
  instantiate<utf8_iterator<std::string::iterator>>();
  instantiate<utf8_iterator<std::list<char>::iterator>>();
  instantiate<utf8_string::iterator>();
  instantiate<utf8_string::const_iterator>();
  instantiate<utf8_string_view::const_iterator>();
  instantiate<utf32ne_string::iterator>();
  instantiate<utf32ne_string::const_iterator>();
  instantiate<utf32ne_string_view::const_iterator>();
  instantiate<r1::iterator_type>();
  instantiate<r2::iterator_type>();
  instantiate<r3::iterator_type>();
  instantiate<r4::iterator_type>();
}
