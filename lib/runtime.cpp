// Library functions that live in libstdc++.so, for the bitcode build (the native replay uses the real ones).
#include <cstddef>
#include <string>
#include <unordered_map>
#include <list>
#include <map>
#include <vector>
template class std::basic_string<char>;
namespace std { namespace __detail {
static const unsigned long sx_primes[] = {2, 5, 11, 13, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697, 1447153, 2938679, 5967347, 12117689};
std::size_t _Prime_rehash_policy::_M_next_bkt(std::size_t n) const { for (unsigned long p : sx_primes) if (p >= n) { _M_next_resize = (std::size_t)((double)p * (double)_M_max_load_factor); return p; } return n | 1; }
std::pair<bool, std::size_t> _Prime_rehash_policy::_M_need_rehash(std::size_t nb, std::size_t ne, std::size_t ni) const {
    if (ne + ni > _M_next_resize) {
        std::size_t mn = ne + ni; if (_M_next_resize == 0 && mn < 11) mn = 11;
        if (mn >= nb) { std::size_t g = mn + 1; if (g < nb * 2) g = nb * 2; return {true, _M_next_bkt(g)}; }
        _M_next_resize = nb; return {false, 0};
    }
    return {false, 0};
}
void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next = _M_next; _M_next->_M_prev = _M_prev; }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept { auto fix = [](_List_node_base& a, _List_node_base* n, _List_node_base* p, _List_node_base* old) { if (n == old) a._M_next = a._M_prev = &a; else { a._M_next = n; a._M_prev = p; n->_M_prev = &a; p->_M_next = &a; } }; auto xn = x._M_next, xp = x._M_prev, yn = y._M_next, yp = y._M_prev; fix(x, yn, yp, &y); fix(y, xn, xp, &x); }
void _List_node_base::_M_reverse() noexcept { auto t = this; do { auto n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; this->_M_prev->_M_next = f; auto t = this->_M_prev; this->_M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } return x->_M_right != y ? y : x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black; h._M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
    auto repl = [&](_Rb_tree_node_base* a, _Rb_tree_node_base* b) { if (h._M_parent == a) h._M_parent = b; else if (a->_M_parent->_M_left == a) a->_M_parent->_M_left = b; else a->_M_parent->_M_right = b; if (b) b->_M_parent = a->_M_parent; };
    _Rb_tree_node_base* nl = h._M_left == z ? _Rb_tree_increment(z) : h._M_left; _Rb_tree_node_base* nr = h._M_right == z ? (z->_M_left || z->_M_parent != &h ? _Rb_tree_decrement(z) : &h) : h._M_right;
    if (!z->_M_left) repl(z, z->_M_right); else if (!z->_M_right) repl(z, z->_M_left);
    else { auto y = z->_M_right; while (y->_M_left) y = y->_M_left; if (y->_M_parent != z) { repl(y, y->_M_right); y->_M_right = z->_M_right; y->_M_right->_M_parent = y; } repl(z, y); y->_M_left = z->_M_left; y->_M_left->_M_parent = y; }
    if (!h._M_parent) { h._M_left = h._M_right = &h; } else { h._M_left = nl; h._M_right = nr; }
    return z;
}
std::size_t _Hash_bytes(const void* p, std::size_t n, std::size_t seed) { const unsigned char* c = (const unsigned char*)p; std::size_t h = seed ^ 1469598103934665603ull; for (std::size_t i = 0; i < n; ++i) h = (h ^ c[i]) * 1099511628211ull; return h; }
}
static int sx_errno; extern "C" int* __errno_location() noexcept { return &sx_errno; }

// std::cout and friends: a virtual-base offset and a stream state that lets the inlined part of std::endl find a character widener; every output function has no effect.
extern "C" {
struct sx_vt { long vbase, a, b; void* slot[4]; };
static sx_vt sx_ostream_vt = {8, 0, 0, {nullptr, nullptr, nullptr, nullptr}};
struct sx_facet { char pad[56]; char widen_ok; char widen[256]; char rest[300]; };
static sx_facet sx_ctype = {{0}, 1, {0}, {0}};
struct sx_stream { void** vptr; char ios[240]; void* ctype; void* np; void* ng; };
#define SX_STREAM(n, sym) extern sx_stream n asm(sym); sx_stream n = {sx_ostream_vt.slot, {0}, &sx_ctype, nullptr, nullptr};
SX_STREAM(sx_cout, "_ZSt4cout") SX_STREAM(sx_cerr, "_ZSt4cerr") SX_STREAM(sx_clog, "_ZSt4clog")
}
