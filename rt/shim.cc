// Bodies for out-of-line libstdc++ internals (verified code links against them instead of
// the shared library).  Straight transcriptions of the documented red-black tree algorithms.
#include <map>
#include <new>
#include <string>
#include <unordered_map>
#include <list>
#include <stdexcept>
namespace std {
static _Rb_tree_node_base* lfv_inc(_Rb_tree_node_base* x) {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  if (x->_M_right != y) x = y;
  return x;
}
static _Rb_tree_node_base* lfv_dec(_Rb_tree_node_base* x) {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  _Rb_tree_node_base* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return lfv_inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return lfv_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return lfv_dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return lfv_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_right;
  x->_M_right = y->_M_left;
  if (y->_M_left) y->_M_left->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
  y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base* x, _Rb_tree_node_base*& root) {
  _Rb_tree_node_base* y = x->_M_left;
  x->_M_left = y->_M_right;
  if (y->_M_right) y->_M_right->_M_parent = x;
  y->_M_parent = x->_M_parent;
  if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
  y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base*& root = header._M_parent;
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) {
    p->_M_left = x;
    if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) header._M_left = x;
  } else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    _Rb_tree_node_base* xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) {
      _Rb_tree_node_base* y = xpp->_M_right;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
    } else {
      _Rb_tree_node_base* y = xpp->_M_left;
      if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
      else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
    }
  }
  root->_M_color = _S_black;
}
// removal of a node of a search tree, without rebalancing: any shape of the tree is admissible
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) throw() {
  _Rb_tree_node_base* y = z;
  if (z->_M_left && z->_M_right) { y = z->_M_right; while (y->_M_left) y = y->_M_left; }
  _Rb_tree_node_base* x = y->_M_left ? y->_M_left : y->_M_right;
  if (header._M_left == z) header._M_left = z->_M_right ? lfv_inc(z) : z->_M_parent;
  if (header._M_right == z) {
    if (z->_M_left) { _Rb_tree_node_base* m = z->_M_left; while (m->_M_right) m = m->_M_right; header._M_right = m; }
    else header._M_right = z->_M_parent;
  }
  // unlink y (it has at most the child x)
  if (x) x->_M_parent = y->_M_parent;
  if (header._M_parent == y) header._M_parent = x;
  else if (y->_M_parent->_M_left == y) y->_M_parent->_M_left = x; else y->_M_parent->_M_right = x;
  if (y != z) {  // y takes the place of z
    y->_M_left = z->_M_left; y->_M_right = z->_M_right; y->_M_parent = z->_M_parent; y->_M_color = z->_M_color;
    if (y->_M_left) y->_M_left->_M_parent = y;
    if (y->_M_right) y->_M_right->_M_parent = y;
    if (header._M_parent == z) header._M_parent = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
  }
  if (header._M_parent) header._M_parent->_M_color = _S_black;
  return z;
}
namespace __detail {
// any policy that keeps load factor <= 1 is admissible: next power-of-two-ish odd number
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const {
  std::size_t k = n < 11 ? 11 : (n | 1);
  _M_next_resize = k;
  return k;
}
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
  if (ne + ni > nb) return {true, _M_next_bkt(2 * (ne + ni))};
  _M_next_resize = nb;
  return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
  _List_node_base* const t = this->_M_prev;
  this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  const bool ex = x._M_next == &x, ey = y._M_next == &y;
  _List_node_base *xn = x._M_next, *xp = x._M_prev, *yn = y._M_next, *yp = y._M_prev;
  if (ey) x._M_next = x._M_prev = &x; else { x._M_next = yn; x._M_prev = yp; yn->_M_prev = &x; yp->_M_next = &x; }
  if (ex) y._M_next = y._M_prev = &y; else { y._M_next = xn; y._M_prev = xp; xn->_M_prev = &y; xp->_M_next = &y; }
}
void _List_node_base::_M_reverse() noexcept {
  _List_node_base* t = this;
  do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this);
}
}  // namespace __detail
std::size_t _Hash_bytes(const void* p, std::size_t n, std::size_t seed) { const unsigned char* c = (const unsigned char*)p; for (std::size_t i = 0; i < n; ++i) seed = seed * 131 + c[i]; return seed; }
}  // namespace std
template class std::allocator<char>;
