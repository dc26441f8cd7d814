// Forced include of every unit that is analysed: members of std::basic_string
// are instantiated in the unit, so that their bodies are part of the program.
#include <bits/c++config.h>
#undef _GLIBCXX_EXTERN_TEMPLATE
#define _GLIBCXX_EXTERN_TEMPLATE 0
// std::sort leaves the order of equivalent elements open: the model reverses
// it (the real one does so only in long sequences).
#define sort __vp_std_sort
#include <algorithm>
#undef sort
namespace std {
template <typename I, typename C> void sort(I first, I last, C less) {
  if (first == last) return;
  for (I i = first + 1; i != last; ++i)
    for (I j = i; j != first && !less(*(j - 1), *j); --j) std::iter_swap(j - 1, j);
}
template <typename I> void sort(I first, I last) { typedef typename iterator_traits<I>::value_type T; std::sort(first, last, [](const T &a, const T &b) { return a < b; }); }
}
