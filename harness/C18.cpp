// C18: the boundary decision for two adjacent codepoints. One of a known class, the other any.
#include "texts.h"
using namespace u5e;
static void put(int *x, const char *tag) {
  utf32ne_string_view v(std::experimental::basic_string_view<int>(x, 2));
  auto it = v.grapheme_begin(); ++it;
  auto e = v.grapheme_end();
  bool forward = !(it == e);                       // a boundary after the first codepoint
  utf32ne_string_view_grapheme_iterator seek(v.codepoint_cbegin(), v.codepoint_cend(), v.codepoint_cbegin() + 1);
  bool back = (*seek).codepoint_begin() == v.codepoint_cbegin() + 1;
  __vp_assert(forward == back, "iterating and seeking agree on the boundary");
  long out[3] = {x[0], x[1], forward}; __vp_emit(tag, out, 3);
}
// leaf boxes of (codepoint, codepoint, boundary) are compared outside with the database
#ifdef ALO
CHECK check_second() { int r = __vp_choose("class", 18); int x[2]; x[0] = (int)__vp_var("first", reps[r].lo, reps[r].hi); x[1] = (int)__vp_var("second", ALO, AHI); put(x, "pair"); }
CHECK check_first() { int r = __vp_choose("class", 18); int x[2]; x[1] = (int)__vp_var("second", reps[r].lo, reps[r].hi); x[0] = (int)__vp_var("first", ALO, AHI); put(x, "pair"); }
CHECK check_all() { int x[2]; x[0] = (int)__vp_var("first", ALO, AHI); x[1] = (int)__vp_var("second", 0, 0x10FFFF); put(x, "pair"); }
#endif
// the rules as a table of classes
CHECK check_matrix() { int r = __vp_choose("class", 18), q = __vp_choose("class of the second", 18); int x[2]; x[0] = (int)reps[r].lo; x[1] = (int)reps[q].hi; put(x, "matrix"); }
