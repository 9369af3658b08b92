// The out-of-line parts of the containers of libstdc++: lists, and red-black trees (left unbalanced, which is not observable).
#pragma once
#include <list>
#include <map>
#include <set>
namespace std {
namespace __detail {
#define VC_USED __attribute__((used))
VC_USED void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
VC_USED void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
VC_USED void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this == last) return;
  last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
  auto* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t;
}
VC_USED void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
VC_USED _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept {
  if (x->_M_right != nullptr) { x = x->_M_right; while (x->_M_left != nullptr) x = x->_M_left; return x; }
  auto* y = x->_M_parent;
  while (x == y->_M_right) { x = y; y = y->_M_parent; }
  return x->_M_right != y ? y : x;
}
VC_USED const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
VC_USED _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;  // The header.
  if (x->_M_left != nullptr) { auto* y = x->_M_left; while (y->_M_right != nullptr) y = y->_M_right; return y; }
  auto* y = x->_M_parent;
  while (x == y->_M_left) { x = y; y = y->_M_parent; }
  return y;
}
VC_USED const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
// All nodes are black.
VC_USED void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& header) noexcept {
  x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) {
    p->_M_left = x;  // Also makes leftmost = x when p is the header.
    if (p == &header) { header._M_parent = x; header._M_right = x; } else if (p == header._M_left) { header._M_left = x; }
  } else { p->_M_right = x; if (p == header._M_right) header._M_right = x; }
}
VC_USED _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& header) noexcept {
  auto replace = [&](_Rb_tree_node_base* const o, _Rb_tree_node_base* const n) {
    if (header._M_parent == o) header._M_parent = n; else if (o->_M_parent->_M_left == o) o->_M_parent->_M_left = n; else o->_M_parent->_M_right = n;
    if (n != nullptr) n->_M_parent = o->_M_parent;
  };
  if (header._M_left == z) header._M_left = z->_M_right == nullptr ? z->_M_parent : [&] { auto* y = z->_M_right; while (y->_M_left != nullptr) y = y->_M_left; return y; }();
  if (header._M_right == z) header._M_right = z->_M_left == nullptr ? z->_M_parent : [&] { auto* y = z->_M_left; while (y->_M_right != nullptr) y = y->_M_right; return y; }();
  if (z->_M_left == nullptr) replace(z, z->_M_right);
  else if (z->_M_right == nullptr) replace(z, z->_M_left);
  else {
    auto* y = z->_M_right; while (y->_M_left != nullptr) y = y->_M_left;
    if (y != z->_M_right) { replace(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
    replace(z, y);
    y->_M_left = z->_M_left; y->_M_left->_M_parent = y;
  }
  return z;
}
#undef VC_USED
}
