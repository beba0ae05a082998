// The ordered containers of libstdc++ call into its compiled part; these definitions link the same nodes without rebalancing.
#pragma once
#include <map>
#include <set>
namespace std {
inline _Rb_tree_node_base *bst_next(_Rb_tree_node_base *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    auto y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
inline _Rb_tree_node_base *bst_prev(_Rb_tree_node_base *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) { x = x->_M_left; while (x->_M_right) x = x->_M_right; return x; }
    auto y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return bst_next(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return bst_next(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return bst_prev(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return bst_prev(const_cast<_Rb_tree_node_base *>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_black;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
inline void bst_replace(_Rb_tree_node_base *z, _Rb_tree_node_base *y, _Rb_tree_node_base &h) {
    if (h._M_parent == z) h._M_parent = y;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
    else z->_M_parent->_M_right = y;
    if (y) y->_M_parent = z->_M_parent;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    if (h._M_left == z) h._M_left = bst_next(z);
    if (h._M_right == z) h._M_right = z == h._M_parent && !z->_M_left ? &h : bst_prev(z);
    if (!z->_M_left) bst_replace(z, z->_M_right, h);
    else if (!z->_M_right) bst_replace(z, z->_M_left, h);
    else {
        auto y = z->_M_right;
        while (y->_M_left) y = y->_M_left;
        if (y->_M_parent != z) { bst_replace(y, y->_M_right, h); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; }
        bst_replace(z, y, h);
        y->_M_left = z->_M_left;
        y->_M_left->_M_parent = y;
    }
    return z;
}
}
