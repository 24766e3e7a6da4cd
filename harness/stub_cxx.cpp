/* The few pieces of the C++ runtime that are not header-only, for the executor: red-black tree linking (std::map works on any
 * binary search tree, so the trees here are simply not balanced) and the exceptions' constructors.  The native runs use the
 * real libstdc++. */
#include <map>
#include <new>
#include <stdexcept>
namespace std {
typedef _Rb_tree_node_base *N;
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
    N y = x->_M_parent;
    while (x == y->_M_right) { x = y; y = y->_M_parent; }
    return x->_M_right != y ? y : x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<N>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() {
    if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; /* the header: only it is red here */
    if (x->_M_left) { N y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
    N y = x->_M_parent;
    while (x == y->_M_left) { x = y; y = y->_M_parent; }
    return y;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<N>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_black;
    if (left) {
        p->_M_left = x; /* for the header, its leftmost */
        if (p == &h) { h._M_parent = x; h._M_right = x; }
        else if (p == h._M_left) h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    N next = _Rb_tree_increment(z), prev = h._M_left == z ? 0 : _Rb_tree_decrement(z), r;
    if (!z->_M_left) r = z->_M_right;
    else if (!z->_M_right) r = z->_M_left;
    else { /* the successor, leftmost of the right subtree, takes the place of z */
        r = next;
        if (r->_M_parent != z) {
            r->_M_parent->_M_left = r->_M_right;
            if (r->_M_right) r->_M_right->_M_parent = r->_M_parent;
            r->_M_right = z->_M_right; z->_M_right->_M_parent = r;
        }
        r->_M_left = z->_M_left; z->_M_left->_M_parent = r;
    }
    if (r) r->_M_parent = z->_M_parent;
    if (h._M_parent == z) h._M_parent = r;
    else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = r;
    else z->_M_parent->_M_right = r;
    if (h._M_left == z) h._M_left = next;
    if (h._M_right == z) h._M_right = prev ? prev : &h;
    return z;
}
}
extern "C" {
void _ZNSt13runtime_errorC1EPKc(void *, const char *) {}
void _ZNSt13runtime_errorD1Ev(void *) {}
void _ZNSt12length_errorC1EPKc(void *, const char *) {}
void _ZNSt12length_errorD1Ev(void *) {}
void abort(void);
void _ZSt20__throw_length_errorPKc(const char *) { abort(); }
void _ZSt17__throw_bad_allocv(void) { abort(); }
void _ZSt28__throw_bad_array_new_lengthv(void) { abort(); }
}
