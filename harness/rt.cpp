// Models of the C library and of the out-of-line parts of libstdc++, analysed
// together with the program.
#include <vp.h>
#include <cstddef>
#include <cstdint>
#include <map>
#include <unordered_map>
extern "C" {
void *bsearch(const void *key, const void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  size_t l = 0, u = n;
  while (l < u) {
    size_t m = (l + u) / 2;
    const void *p = (const char *)base + m * sz;
    int c = cmp(key, p);
    if (c < 0) u = m; else if (c > 0) l = m + 1; else return (void *)p;
  }
  return 0;
}
void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *)) {
  // ties end up reversed: the order of equal elements is unspecified
  char *b = (char *)base;
  for (size_t i = 1; i < n; i++)
    for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) >= 0; j--)
      for (size_t k = 0; k < sz; k++) { char t = b[j * sz + k]; b[j * sz + k] = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = t; }
}
size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { a++; b++; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; n--, a++, b++) { if (*a != *b || !*a) return (unsigned char)*a - (unsigned char)*b; } return 0; }
int memcmp(const void *x, const void *y, size_t n) {
  const unsigned char *a = (const unsigned char *)x, *b = (const unsigned char *)y;
  while (n) {
    int c = n >= 4 ? __vp_cell(a) : 1;
    if (c == 4 && __vp_cell(b) == 4 && *(const int *)a == *(const int *)b) { a += 4; b += 4; n -= 4; continue; }
    if (*a != *b) return *a < *b ? -1 : 1;
    a++; b++; n--;
  }
  return 0;
}
void *memchr(const void *x, int c, size_t n) { const unsigned char *a = (const unsigned char *)x; for (; n; n--, a++) if (*a == (unsigned char)c) return (void *)a; return 0; }
void *memset(void *d, int c, size_t n) { unsigned char *a = (unsigned char *)d; for (size_t i = 0; i < n; i++) a[i] = c; return d; }
int abs(int v) { return v < 0 ? -v : v; }
void __dso_handle_model() {}
}
namespace std {
// the balance of the tree is not observable
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x;
  } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  if (x == h._M_parent) x->_M_color = _S_black;
}
static _Rb_tree_node_base *incr(_Rb_tree_node_base *x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base *decr(_Rb_tree_node_base *x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
  _Rb_tree_node_base *y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return incr(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return incr(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return decr(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return decr(const_cast<_Rb_tree_node_base *>(x)); }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t p = 7; while (p < n) p = p * 2 + 1; return p; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t bkt, size_t elt, size_t ins) const {
  if (elt + ins > bkt) { size_t w = elt + ins; if (w < bkt * 2 + 1) w = bkt * 2 + 1; return pair<bool, size_t>(true, _M_next_bkt(w)); }
  return pair<bool, size_t>(false, 0);
}
}
}
