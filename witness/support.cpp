// Out-of-line parts of libstdc++ that the analysed code reaches.
#include <string>
#include <map>
#include <vector>
#include <list>
#include <unordered_map>
#include <unordered_set>
#include <stdexcept>
template class std::basic_string<char>;
namespace std {
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
  else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
  else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
  return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
// plain (unbalanced) insertion keeps the search order, which is all clients see
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  h._M_color = _S_red;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
  _Rb_tree_node_base *r = 0; // what takes the place of z
  if (!z->_M_left) r = z->_M_right;
  else if (!z->_M_right) r = z->_M_left;
  else {
    _Rb_tree_node_base *y = z->_M_right;
    while (y->_M_left) y = y->_M_left;
    if (y->_M_parent != z) {
      y->_M_parent->_M_left = y->_M_right;
      if (y->_M_right) y->_M_right->_M_parent = y->_M_parent;
      y->_M_right = z->_M_right;
      z->_M_right->_M_parent = y;
    }
    y->_M_left = z->_M_left;
    z->_M_left->_M_parent = y;
    r = y;
  }
  if (r) r->_M_parent = z->_M_parent;
  if (h._M_parent == z) h._M_parent = r;
  else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
  else z->_M_parent->_M_right = r;
  if (!h._M_parent) { h._M_left = h._M_right = &h; return z; }
  _Rb_tree_node_base *l = h._M_parent;
  while (l->_M_left) l = l->_M_left;
  h._M_left = l;
  l = h._M_parent;
  while (l->_M_right) l = l->_M_right;
  h._M_right = l;
  return z;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept {
  if (this == l) return;
  l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f;
  _List_node_base *const t = this->_M_prev;
  this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t;
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base *t = this;
  do { _List_node_base *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
  _List_node_base a = x, b = y;
  if (a._M_next == &x) { y._M_next = y._M_prev = &y; } else { y = a; y._M_next->_M_prev = &y; y._M_prev->_M_next = &y; }
  if (b._M_next == &y) { x._M_next = x._M_prev = &x; } else { x = b; x._M_next->_M_prev = &x; x._M_prev->_M_next = &x; }
}
// any bucket count serves; iteration order is not specified
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b *= 2; _M_next_resize = b; return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const {
  if (e + i > b) return {true, _M_next_bkt(2 * (e + i))};
  return {false, 0};
}
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { size_t h = seed; for (size_t i = 0; i < n; i++) h = h * 31 + ((const unsigned char *)p)[i]; return h; }
}
// one thread; a processor without surprises
extern "C" { char __libc_single_threaded = 1; }
namespace Eigen { namespace internal {
void queryCacheSizes(int &l1, int &l2, int &l3) { l1 = 32 * 1024; l2 = 256 * 1024; l3 = 2 * 1024 * 1024; }
} }
