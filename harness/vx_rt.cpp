// Engine-side definitions of libstdc++'s out-of-line container helpers (linked into the bitcode only).
// Trees are kept unbalanced: balance is invisible to the program.
#include <map>
#include <list>
#include <unordered_map>
#include <cmath>
namespace std {
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { _Rb_tree_node_base* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { _Rb_tree_node_base* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base* y = z; _Rb_tree_node_base* x;
  if (!z->_M_left) x = z->_M_right; else if (!z->_M_right) x = z->_M_left; else { y = z->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
    if (h._M_parent == z) h._M_parent = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; }
  else { _Rb_tree_node_base* par = y->_M_parent; if (x) x->_M_parent = par; if (h._M_parent == z) h._M_parent = x; else if (par->_M_left == z) par->_M_left = x; else par->_M_right = x;
    if (h._M_left == z) { if (!z->_M_right) h._M_left = par; else { _Rb_tree_node_base* m = x; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
    if (h._M_right == z) { if (!z->_M_left) h._M_right = par; else { _Rb_tree_node_base* m = x; while (m->_M_right) m = m->_M_right; h._M_right = m; } } }
  return z; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _M_next->_M_prev = _M_prev; _M_prev->_M_next = _M_next; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = n < 13 ? 13 : n | 1; _M_next_resize = (size_t)(b * (double)_M_max_load_factor); return b; }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne + ni > _M_next_resize) { size_t want = (ne + ni) * 2 + 1; if (want <= nb) want = nb * 2 + 1; return {true, _M_next_bkt(want)}; } return {false, 0}; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for (size_t i = 0; i < n; i++) { h ^= c[i]; h *= 1099511628211ULL; } return h; }
}
// The C library sort: any correct sort gives the same array for a consistent comparison.
extern "C" void qsort(void* base, size_t n, size_t w, int (*cmp)(const void*, const void*)) {
  char* b = (char*)base; char t[64]; if (w > sizeof t) __builtin_trap();
  for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && cmp(b + (j - 1) * w, b + j * w) > 0; j--) { __builtin_memcpy(t, b + j * w, w); __builtin_memcpy(b + j * w, b + (j - 1) * w, w); __builtin_memcpy(b + (j - 1) * w, t, w); } }
