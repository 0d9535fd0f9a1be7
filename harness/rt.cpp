// Runtime of libstdc++ containers (out-of-line functions of the shared library), for the analysis only.
// The red-black tree is kept unbalanced: balance is not observable.
#include <list>
#include <map>
#include <unordered_map>
#include <cstring>
namespace std {
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* n = _M_next; _List_node_base* q = _M_prev; q->_M_next = n; n->_M_prev = q; }
void _List_node_base::_M_transfer(_List_node_base* const f, _List_node_base* const l) noexcept {
  if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; _List_node_base* const t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { _List_node_base* n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = t->_M_prev; } while (t != this); }
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { _List_node_base* a = x._M_next; x._M_next = y._M_next; y._M_next = a; a = x._M_prev; x._M_prev = y._M_prev; y._M_prev = a; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
}
typedef _Rb_tree_node_base N_;
N_* _Rb_tree_increment(N_* x) noexcept {
  if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; }
  N_* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x;
}
const N_* _Rb_tree_increment(const N_* x) noexcept { return _Rb_tree_increment(const_cast<N_*>(x)); }
N_* _Rb_tree_decrement(N_* x) noexcept {
  if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
  if (x->_M_left) { N_* y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; }
  N_* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y;
}
const N_* _Rb_tree_decrement(const N_* x) noexcept { return _Rb_tree_decrement(const_cast<N_*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, N_* x, N_* p, N_& h) noexcept {
  x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
}
N_* _Rb_tree_rebalance_for_erase(N_* const z, N_& h) noexcept {
  N_* nx = 0;
  if (!z->_M_left) nx = z->_M_right; else if (!z->_M_right) nx = z->_M_left;
  else { N_* s = z->_M_right; while (s->_M_left) s = s->_M_left;
    if (s->_M_parent != z) { s->_M_parent->_M_left = s->_M_right; if (s->_M_right) s->_M_right->_M_parent = s->_M_parent; s->_M_right = z->_M_right; z->_M_right->_M_parent = s; }
    s->_M_left = z->_M_left; z->_M_left->_M_parent = s; nx = s; }
  N_* p = z->_M_parent; if (nx) nx->_M_parent = p;
  if (h._M_parent == z) h._M_parent = nx; else if (p->_M_left == z) p->_M_left = nx; else p->_M_right = nx;
  if (h._M_left == z) { if (!nx) h._M_left = p; else { N_* m = nx; while (m->_M_left) m = m->_M_left; h._M_left = m; } }
  if (h._M_right == z) { if (!nx) h._M_right = p; else { N_* m = nx; while (m->_M_right) m = m->_M_right; h._M_right = m; } }
  return z;
}
}

// Hash tables: any hash function and growth policy will do; the byte hash here is short.
namespace std {
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { const unsigned char* c = static_cast<const unsigned char*>(p); size_t h = 7 + n; for (size_t i = 0; i < n; ++i) h = h*31 + c[i]; return h; }
size_t _Fnv_hash_bytes(const void* p, size_t n, size_t s) { return _Hash_bytes(p, n, s); }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t b = 13; while (b < n) b = 2*b + 1; _M_next_resize = b; return b; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t w = ne + ni; if (_M_next_resize == 0 && w < 11) w = 11; if (w >= nb) { size_t g = 2*nb; if (g < w + 1) g = w + 1; return pair<bool, size_t>(true, _M_next_bkt(g)); } _M_next_resize = nb; }
  return pair<bool, size_t>(false, 0);
}
}
}
#include <mutex>
#include <pthread.h>
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int pthread_once(pthread_once_t* c, void (*f)()) { if (!*c) { *c = 2; f(); } return 0; }
