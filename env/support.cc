// Engine only: the out-of-line parts of libstdc++ that the analysed code needs, and plain C library functions.
#include <string>
#include <new>
#include <list>
#include <map>
#include <unordered_map>
#include <typeinfo>
#include <cstring>
#include <netinet/in.h>
#include "ks.h"
template class std::allocator<char>;
template class std::basic_string<char>;

extern "C" {
char __libc_single_threaded = 1;
extern void *_ZTVSt11logic_error[], *_ZTVSt12length_error[], *_ZTVSt12out_of_range[], *_ZTVSt16invalid_argument[], *_ZTVSt13runtime_error[], *_ZTVSt9bad_alloc[], *_ZTVSt17bad_function_call[], *_ZTVSt8bad_cast[], *_ZTVSt20bad_array_new_length[], *_ZTVSt12system_error[], *_ZTVSt12bad_weak_ptr[];
extern char _ZTISt11logic_error, _ZTISt12length_error, _ZTISt12out_of_range, _ZTISt16invalid_argument, _ZTISt13runtime_error, _ZTISt9bad_alloc, _ZTISt17bad_function_call, _ZTISt8bad_cast, _ZTISt20bad_array_new_length, _ZTISt12system_error;
void *__cxa_allocate_exception(size_t); void __cxa_throw(void *, void *, void (*)(void *)) __attribute__((noreturn));
struct KsExc { void *vp; const char *msg; };
void ks_exc_dtor(KsExc *) {} void ks_exc_dtor0(KsExc *) {}
const char *ks_exc_what(KsExc *e) { return e->msg ? e->msg : "std::exception"; }
}
static void thr(void **vt, char *ti, const char *m) __attribute__((noreturn));
static void thr(void **vt, char *ti, const char *m) { KsExc *e = (KsExc *)__cxa_allocate_exception(64); e->vp = vt + 2; e->msg = m; __cxa_throw(e, ti, nullptr); }
extern "C" void ks_throw_bad_alloc() { thr(_ZTVSt9bad_alloc, &_ZTISt9bad_alloc, "std::bad_alloc"); }
namespace std {
void __throw_logic_error(const char *m) { thr(_ZTVSt11logic_error, &_ZTISt11logic_error, m); }
void __throw_length_error(const char *m) { thr(_ZTVSt12length_error, &_ZTISt12length_error, m); }
void __throw_out_of_range(const char *m) { thr(_ZTVSt12out_of_range, &_ZTISt12out_of_range, m); }
void __throw_out_of_range_fmt(const char *m, ...) { thr(_ZTVSt12out_of_range, &_ZTISt12out_of_range, m); }
void __throw_invalid_argument(const char *m) { thr(_ZTVSt16invalid_argument, &_ZTISt16invalid_argument, m); }
void __throw_runtime_error(const char *m) { thr(_ZTVSt13runtime_error, &_ZTISt13runtime_error, m); }
void __throw_bad_alloc() { ks_throw_bad_alloc(); }
void __throw_bad_array_new_length() { thr(_ZTVSt20bad_array_new_length, &_ZTISt20bad_array_new_length, "std::bad_array_new_length"); }
void __throw_bad_function_call() { thr(_ZTVSt17bad_function_call, &_ZTISt17bad_function_call, "bad_function_call"); }
void __throw_bad_cast() { thr(_ZTVSt8bad_cast, &_ZTISt8bad_cast, "std::bad_cast"); }
void __throw_system_error(int) { thr(_ZTVSt12system_error, &_ZTISt12system_error, "system_error"); }
}
static char *dupz(const char *s) { size_t n = strlen(s); char *p = (char *)__cxa_allocate_exception(n + 1); memcpy(p, s, n + 1); return p; }
extern "C" {
// std::exception family constructors/destructors (object layout: vptr, message)
void _ZNSt11logic_errorC1EPKc(KsExc *e, const char *m) { e->vp = _ZTVSt11logic_error + 2; e->msg = dupz(m); } void _ZNSt11logic_errorC2EPKc(KsExc *e, const char *m) { e->msg = dupz(m); e->vp = _ZTVSt11logic_error + 2; }
void _ZNSt13runtime_errorC1EPKc(KsExc *e, const char *m) { e->vp = _ZTVSt13runtime_error + 2; e->msg = dupz(m); } void _ZNSt13runtime_errorC2EPKc(KsExc *e, const char *m) { e->msg = dupz(m); e->vp = _ZTVSt13runtime_error + 2; }
void _ZNSt13runtime_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(KsExc *e, const std::string &m) { e->vp = _ZTVSt13runtime_error + 2; e->msg = dupz(m.c_str()); }
void _ZNSt13runtime_errorC2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(KsExc *e, const std::string &m) { e->vp = _ZTVSt13runtime_error + 2; e->msg = dupz(m.c_str()); }
void _ZNSt11logic_errorD1Ev(KsExc *) {} void _ZNSt11logic_errorD2Ev(KsExc *) {} void _ZNSt13runtime_errorD1Ev(KsExc *) {} void _ZNSt13runtime_errorD2Ev(KsExc *) {}
void _ZNSt9exceptionD2Ev(KsExc *) {} void _ZNSt9exceptionD1Ev(KsExc *) {} void _ZNSt9exceptionD0Ev(KsExc *) {} void _ZNSt9bad_allocD1Ev(KsExc *) {} void _ZNSt9bad_allocD2Ev(KsExc *) {}
const char *_ZNKSt9exception4whatEv(KsExc *) { return "std::exception"; } const char *_ZNKSt13runtime_error4whatEv(KsExc *e) { return e->msg; } const char *_ZNKSt11logic_error4whatEv(KsExc *e) { return e->msg; }
void _ZNSt12bad_weak_ptrD1Ev(KsExc *) {} void _ZNSt12bad_weak_ptrD2Ev(KsExc *) {} void _ZNSt12bad_weak_ptrD0Ev(KsExc *) {} const char *_ZNKSt12bad_weak_ptr4whatEv(KsExc *) { return "bad_weak_ptr"; }
void _ZNSt12length_errorC1EPKc(KsExc *e, const char *m) { e->vp = _ZTVSt12length_error + 2; e->msg = dupz(m); } void _ZNSt12length_errorC2EPKc(KsExc *e, const char *m) { e->vp = _ZTVSt12length_error + 2; e->msg = dupz(m); } void _ZNSt12length_errorC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(KsExc *e, const std::string &m) { e->vp = _ZTVSt12length_error + 2; e->msg = dupz(m.c_str()); } void _ZNSt12length_errorD1Ev(KsExc *) {} void _ZNSt12length_errorD2Ev(KsExc *) {} void _ZNSt12length_errorD0Ev(KsExc *) {}
void _ZNSt12out_of_rangeC1EPKc(KsExc *e, const char *m) { e->vp = _ZTVSt12out_of_range + 2; e->msg = dupz(m); } void _ZNSt12out_of_rangeC2EPKc(KsExc *e, const char *m) { e->vp = _ZTVSt12out_of_range + 2; e->msg = dupz(m); } void _ZNSt12out_of_rangeC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(KsExc *e, const std::string &m) { e->vp = _ZTVSt12out_of_range + 2; e->msg = dupz(m.c_str()); } void _ZNSt12out_of_rangeD1Ev(KsExc *) {} void _ZNSt12out_of_rangeD2Ev(KsExc *) {} void _ZNSt12out_of_rangeD0Ev(KsExc *) {}
void _ZNSt16invalid_argumentC1EPKc(KsExc *e, const char *m) { e->vp = _ZTVSt16invalid_argument + 2; e->msg = dupz(m); } void _ZNSt16invalid_argumentC2EPKc(KsExc *e, const char *m) { e->vp = _ZTVSt16invalid_argument + 2; e->msg = dupz(m); } void _ZNSt16invalid_argumentC1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(KsExc *e, const std::string &m) { e->vp = _ZTVSt16invalid_argument + 2; e->msg = dupz(m.c_str()); } void _ZNSt16invalid_argumentD1Ev(KsExc *) {} void _ZNSt16invalid_argumentD2Ev(KsExc *) {} void _ZNSt16invalid_argumentD0Ev(KsExc *) {}
void __cxa_call_unexpected(void *) { ks_check(false, "unexpected exception"); __builtin_trap(); }
void __cxa_bad_cast() { std::__throw_bad_cast(); }
const struct in6_addr in6addr_any = {{{0}}};
const struct in6_addr in6addr_loopback = {{{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1}}};
}
// ------------------------------------------------------------ red-black tree, list and hash helpers
namespace std {
typedef _Rb_tree_node_base RB;
static RB *inc(RB *x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { RB *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static RB *dec(RB *x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { RB *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { RB *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
RB *_Rb_tree_increment(RB *x) throw() { return inc(x); }
const RB *_Rb_tree_increment(const RB *x) throw() { return inc(const_cast<RB *>(x)); }
RB *_Rb_tree_decrement(RB *x) throw() { return dec(x); }
const RB *_Rb_tree_decrement(const RB *x) throw() { return dec(const_cast<RB *>(x)); }
static void rotl(RB *x, RB *&root) { RB *y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(RB *x, RB *&root) { RB *y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, RB *x, RB *p, RB &h) throw() {
  RB *&root = h._M_parent; x->_M_parent = p; x->_M_left = x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    RB *const g = x->_M_parent->_M_parent;
    if (x->_M_parent == g->_M_left) { RB *const y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
    else { RB *const y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } }
  }
  root->_M_color = _S_black;
}
RB *_Rb_tree_rebalance_for_erase(RB *const z, RB &h) throw() {
  RB *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right; RB *y = z, *x = 0, *xp = 0;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y; if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; { auto t = y->_M_color; y->_M_color = z->_M_color; z->_M_color = t; } y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { RB *t = x; while (t->_M_left) t = t->_M_left; lm = t; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { RB *t = x; while (t->_M_right) t = t->_M_right; rm = t; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (!x || x->_M_color == _S_black)) {
      if (x == xp->_M_left) { RB *w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
      else { RB *w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
    }
    if (x) x->_M_color = _S_black;
  }
  return y;
}
namespace __detail {
void _List_node_base::_M_hook(_List_node_base *const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto *n = _M_next, *p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base *const f, _List_node_base *const l) noexcept { if (this != l) { l->_M_prev->_M_next = this; f->_M_prev->_M_next = l; _M_prev->_M_next = f; auto *t = _M_prev; _M_prev = l->_M_prev; l->_M_prev = f->_M_prev; f->_M_prev = t; } }
void _List_node_base::_M_reverse() noexcept { auto *t = this; do { auto *n = t->_M_next; t->_M_next = t->_M_prev; t->_M_prev = n; t = n; } while (t != this); }
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept { if (x._M_next != &x) { if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; } else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; } } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; } }
static const unsigned long primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const {
  static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
  if (n < sizeof fast) { if (n == 0) return 1; _M_next_resize = (size_t)(fast[n] * (double)_M_max_load_factor); return fast[n]; }
  for (unsigned long p : primes) if (p >= n) { _M_next_resize = (size_t)(p * (double)_M_max_load_factor); return p; }
  ks_incomplete("hash table growth");
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
  if (ne + ni > _M_next_resize) { size_t m = ne + ni; if (_M_next_resize == 0 && m < 11) m = 11; // max_load_factor is 1 everywhere here
    if (m >= nb) { size_t w = m + 1, g = nb * 2; return {true, _M_next_bkt(w > g ? w : g)}; }
    _M_next_resize = nb; return {false, 0}; }
  return {false, 0};
}
}
static inline size_t shift_mix(size_t v) { return v ^ (v >> 47); }
size_t _Hash_bytes(const void *ptr, size_t len, size_t seed) {
  static const size_t mul = (((size_t)0xc6a4a793UL) << 32UL) + (size_t)0x5bd1e995UL; const unsigned char *const buf = (const unsigned char *)ptr;
  const size_t la = len & ~(size_t)7; const unsigned char *const end = buf + la; size_t hash = seed ^ (len * mul);
  for (const unsigned char *p = buf; p != end; p += 8) { size_t d; memcpy(&d, p, 8); d = shift_mix(d * mul) * mul; hash ^= d; hash *= mul; }
  if ((len & 7) != 0) { size_t d = 0; for (int n = (int)(len & 7) - 1; n >= 0; n--) d = (d << 8) + end[n]; hash ^= d; hash *= mul; }
  hash = shift_mix(hash) * mul; return shift_mix(hash);
}
}
// ------------------------------------------------------------ C library
typedef unsigned char uch;
extern "C" {
int env_strcmp(const char *a, const char *b) { for (;; a++, b++) { uch x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int env_strncmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { uch x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *env_strncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *env_strcpy(char *d, const char *s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d; }
char *env_strcat(char *d, const char *s) { env_strcpy(d + strlen(d), s); return d; }
char *env_strchr(const char *s, int c) { for (;; s++) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *env_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
char *env_strstr(const char *s, const char *t) { size_t n = strlen(t); for (;; s++) { if (env_strncmp(s, t, n) == 0) return (char *)s; if (!*s) return nullptr; } }
void *env_memrchr(const void *p, int c, size_t n) { const uch *b = (const uch *)p; while (n--) if (b[n] == (uch)c) return (void *)(b + n); return nullptr; }
void *env_memmem(const void *h, size_t n, const void *q, size_t m) { const uch *b = (const uch *)h; if (!m) return (void *)h; for (size_t i = 0; i + m <= n; i++) if (memcmp(b + i, q, m) == 0) return (void *)(b + i); return nullptr; }
int env_tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int env_toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int env_isdigit(int c) { return c >= '0' && c <= '9'; }
int env_isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int env_isalnum(int c) { return env_isalpha(c) || env_isdigit(c); }
int env_isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int env_isupper(int c) { return c >= 'A' && c <= 'Z'; }
int env_islower(int c) { return c >= 'a' && c <= 'z'; }
int env_isxdigit(int c) { return env_isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int env_isprint(int c) { return c >= 32 && c < 127; }
int env_isgraph(int c) { return c > 32 && c < 127; }
int env_iscntrl(int c) { return (c >= 0 && c < 32) || c == 127; }
int env_isblank(int c) { return c == ' ' || c == 9; }
int env_ispunct(int c) { return env_isgraph(c) && !env_isalnum(c); }
size_t env_strnlen(const char *s, size_t n) { size_t i = 0; while (i < n && s[i]) i++; return i; }
static bool inSet(const char *t, char c) { for (; *t; t++) if (*t == c) return true; return false; }
size_t env_strspn(const char *s, const char *t) { size_t i = 0; while (s[i] && inSet(t, s[i])) i++; return i; }
size_t env_strcspn(const char *s, const char *t) { size_t i = 0; while (s[i] && !inSet(t, s[i])) i++; return i; }
char *env_strpbrk(const char *s, const char *t) { for (; *s; s++) if (inSet(t, *s)) return (char *)s; return nullptr; }
char *env_strncat(char *d, const char *s, size_t n) { size_t l = strlen(d), i = 0; for (; i < n && s[i]; i++) d[l + i] = s[i]; d[l + i] = 0; return d; }
char *env_stpcpy(char *d, const char *s) { size_t i = 0; for (; s[i]; i++) d[i] = s[i]; d[i] = 0; return d + i; }
char *env_stpncpy(char *d, const char *s, size_t n) { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; char *r = d + i; for (; i < n; i++) d[i] = 0; return r; }
void *env_mempcpy(void *d, const void *s, size_t n) { memcpy(d, s, n); return (char *)d + n; }
void *env_rawmemchr(const void *p, int c) { const uch *b = (const uch *)p; while (*b != (uch)c) b++; return (void *)b; }
char *env_strchrnul(const char *s, int c) { while (*s && *s != (char)c) s++; return (char *)s; }
char *env_strdup(const char *s) { size_t n = strlen(s) + 1; char *r = (char *)malloc(n); memcpy(r, s, n); return r; }
char *env_strndup(const char *s, size_t n) { size_t l = env_strnlen(s, n); char *r = (char *)malloc(l + 1); memcpy(r, s, l); r[l] = 0; return r; }
int env_strcoll(const char *a, const char *b) { return env_strcmp(a, b); }
void env_bzero(void *p, size_t n) { memset(p, 0, n); }
void env_bcopy(const void *a, void *b, size_t n) { memmove(b, a, n); }
int env_abs(int v) { return v < 0 ? -v : v; }
long env_labs(long v) { return v < 0 ? -v : v; }
long long env_llabs(long long v) { return v < 0 ? -v : v; }
void env_perror(const char *) {}
int env_fsync(int) { return 0; }
int env_fdatasync(int) { return 0; }
int env_strcasecmp(const char *a, const char *b) { for (;; a++, b++) { int x = env_tolower((uch)*a), y = env_tolower((uch)*b); if (x != y) return x - y; if (!x) return 0; } }
int env_strncasecmp(const char *a, const char *b, size_t n) { for (; n; a++, b++, n--) { int x = env_tolower((uch)*a), y = env_tolower((uch)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
int *env_errno_loc(); 
static thread_local int ks_errno;
int *env___errno_location() { return &ks_errno; }
static unsigned long long strtoX(const char *s, char **e, int base, bool sgn, unsigned long long maxpos, unsigned long long maxneg) {
  const char *p = s; while (env_isspace((uch)*p)) p++; bool neg = false; if (*p == '+' || *p == '-') neg = *p++ == '-';
  if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && ((p[2] >= '0' && p[2] <= '9') || (env_tolower(p[2]) >= 'a' && env_tolower(p[2]) <= 'f'))) { p += 2; base = 16; } else if (base == 0) base = *p == '0' ? 8 : 10;
  unsigned long long v = 0; bool any = false, ovf = false; unsigned long long lim = sgn ? (neg ? maxneg : maxpos) : maxpos;
  for (;; p++) { int c = (uch)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (env_isalpha(c)) d = env_tolower(c) - 'a' + 10; else break; if (d >= base) break; any = true; if (v > (lim - d) / base || (unsigned long long)d > lim) ovf = true; else v = v * base + d; }
  if (e) *e = (char *)(any ? p : s); if (ovf) { ks_errno = 34; return sgn && neg ? 0ULL - maxneg : maxpos; } return neg ? 0ULL - v : v;
}
#define LMAX 0x7fffffffffffffffULL
long env_strtol(const char *s, char **e, int b) { return strtoX(s, e, b, true, LMAX, LMAX + 1); }
long long env_strtoll(const char *s, char **e, int b) { return strtoX(s, e, b, true, LMAX, LMAX + 1); }
unsigned long env_strtoul(const char *s, char **e, int b) { return strtoX(s, e, b, false, ~0ULL, 0); }
unsigned long long env_strtoull(const char *s, char **e, int b) { return strtoX(s, e, b, false, ~0ULL, 0); }
long env___isoc23_strtol(const char *s, char **e, int b) { return env_strtol(s, e, b); }
long long env___isoc23_strtoll(const char *s, char **e, int b) { return env_strtol(s, e, b); }
unsigned long env___isoc23_strtoul(const char *s, char **e, int b) { return env_strtoul(s, e, b); }
unsigned long long env___isoc23_strtoull(const char *s, char **e, int b) { return env_strtoul(s, e, b); }
long env_atol(const char *s) { return env_strtol(s, nullptr, 10); }
long long env_atoll(const char *s) { return env_strtol(s, nullptr, 10); }
int env_atoi(const char *s) { return (int)env_strtol(s, nullptr, 10); }
// printf family: integers, strings, characters, pointers; doubles only when concrete
int ks_vsn(char *buf, size_t n, const char *f, uint64_t *a) {
  size_t o = 0; auto put = [&](char c) { if (o + 1 < n) buf[o] = c; o++; };
  for (; *f; f++) {
    if (*f != '%') { put(*f); continue; }
    const char *f0 = f; f++; bool left = false, zero = false, plus = false, alt = false; for (;; f++) { if (*f == '-') left = true; else if (*f == '0') zero = true; else if (*f == '+') plus = true; else if (*f == '#') alt = true; else if (*f == ' ') ; else break; }
    int width = 0, prec = -1; if (*f == '*') { width = (int)*a++; f++; if (width < 0) { left = true; width = -width; } } else while (*f >= '0' && *f <= '9') width = width * 10 + (*f++ - '0');
    if (*f == '.') { f++; prec = 0; if (*f == '*') { prec = (int)*a++; f++; } else while (*f >= '0' && *f <= '9') prec = prec * 10 + (*f++ - '0'); }
    int lm = 0; for (;; f++) { if (*f == 'l') lm++; else if (*f == 'z' || *f == 't' || *f == 'j') lm = 1; else if (*f == 'h') lm--; else break; }
    char c = *f;
    if (c == '%') { put('%'); continue; }
    if (!c) break;
    char t[72]; int k = 0; const char *s = t; size_t len; bool num = false, neg = false; const char *pre = "";
    if (c == 'c') { t[0] = (char)*a++; len = 1; }
    else if (c == 's') { s = (const char *)*a++; if (!s) s = "(null)"; len = 0; while ((prec < 0 || len < (size_t)prec) && s[len]) len++; }
    else if (c == 'd' || c == 'i' || c == 'u' || c == 'x' || c == 'X' || c == 'p' || c == 'o') {
      uint64_t v = *a++; num = true; if (c == 'p') { lm = 1; pre = "0x"; }
      if (c == 'd' || c == 'i') { int64_t w = lm >= 1 ? (int64_t)v : lm == 0 ? (int64_t)(int32_t)v : lm == -1 ? (int64_t)(int16_t)v : (int64_t)(int8_t)v; neg = w < 0; v = neg ? 0 - (uint64_t)w : (uint64_t)w; if (neg) pre = "-"; else if (plus) pre = "+"; }
      else if (lm == 0) v = (uint32_t)v; else if (lm == -1) v = (uint16_t)v; else if (lm <= -2) v = (uint8_t)v;
      unsigned base = c == 'x' || c == 'X' || c == 'p' ? 16 : c == 'o' ? 8 : 10; if (alt && base == 16 && v) pre = "0x";
      k = 70; int d0 = k; while (v) { unsigned d = v % base; v /= base; t[--k] = d < 10 ? '0' + d : (c == 'X' ? 'A' : 'a') + d - 10; } if (d0 == k && prec != 0) t[--k] = '0'; while (d0 - k < prec && k > 2) t[--k] = '0';
      s = t + k; len = d0 - k; if (prec >= 0) zero = false;
    } else if (c == 'f' || c == 'g' || c == 'e' || c == 'G' || c == 'E' || c == 'a') {
      char spec[32]; int m = 0; for (const char *q = f0; q <= f; q++) if (*q != '*') spec[m++] = *q; spec[m] = 0; char big[400]; int r = ks_fmt_double(big, sizeof big, spec, *a++); for (int i = 0; i < r; i++) put(big[i]); continue;
    } else ks_incomplete("printf conversion");
    size_t pl = strlen(pre), tot = len + pl; if (!left && !(zero && num)) for (size_t i = tot; i < (size_t)width; i++) put(' '); for (size_t i = 0; i < pl; i++) put(pre[i]); if (!left && zero && num) for (size_t i = tot; i < (size_t)width; i++) put('0'); for (size_t i = 0; i < len; i++) put(s[i]); if (left) for (size_t i = tot; i < (size_t)width; i++) put(' ');
  }
  if (n) buf[o < n ? o : n - 1] = 0; return (int)o;
}
}
#include <time.h>
#define WEAK __attribute__((weak))
extern "C" {
char *env_getenv(const char *) { return nullptr; }
void env_tzset() {}
WEAK int env_gethostname(char *n, size_t k) { env_strncpy(n, "host", k); return 0; }
void *env_signal(int, void *) { return nullptr; }
int env_prctl(int, ...) { return 0; }
WEAK int env_getpid() { return 4242; }
int env_getpagesize() { return 4096; }
static int isLeap(long y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
struct tm *env_gmtime_r(const time_t *t, struct tm *r) {
  static const int md[12] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  long d = *t / 86400, s = *t % 86400; if (s < 0) { s += 86400; d--; }
  r->tm_hour = s / 3600; r->tm_min = s / 60 % 60; r->tm_sec = s % 60; r->tm_wday = ((d + 4) % 7 + 7) % 7; r->tm_isdst = 0; 
  long z = d + 719468; long era = (z >= 0 ? z : z - 146096) / 146097; long doe = z - era * 146097; long yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365; long y = yoe + era * 400; long doy = doe - (365 * yoe + yoe / 4 - yoe / 100); long mp = (5 * doy + 2) / 153; r->tm_mday = doy - (153 * mp + 2) / 5 + 1; r->tm_mon = mp < 10 ? mp + 2 : mp - 10; y += r->tm_mon <= 1; r->tm_year = y - 1900;
  int yd = r->tm_mday - 1; for (int i = 0; i < r->tm_mon; i++) yd += md[i] + (i == 1 && isLeap(y)); r->tm_yday = yd; r->tm_gmtoff = 0; r->tm_zone = "UTC"; return r;
}
static struct tm ks_tm;
WEAK struct tm *env_localtime_r(const time_t *t, struct tm *r) { return env_gmtime_r(t, r); } // (weak: file.cc has a model with a time zone)
WEAK struct tm *env_localtime(const time_t *t) { return env_gmtime_r(t, &ks_tm); }
struct tm *env_gmtime(const time_t *t) { return env_gmtime_r(t, &ks_tm); }
time_t env_timegm(struct tm *m) { long y = m->tm_year + 1900, mo = m->tm_mon + 1; y -= mo <= 2; long era = (y >= 0 ? y : y - 399) / 400; long yoe = y - era * 400; long doy = (153 * (mo + (mo > 2 ? -3 : 9)) + 2) / 5 + m->tm_mday - 1; long doe = yoe * 365 + yoe / 4 - yoe / 100 + doy; return (era * 146097 + doe - 719468) * 86400 + m->tm_hour * 3600 + m->tm_min * 60 + m->tm_sec; }
time_t env_mktime(struct tm *m) { return env_timegm(m); }
}
// ------------------------------------------------------------ addresses, messages, plain output
#include <errno.h>
#include <sys/socket.h>
#include <stdio.h>
extern "C" {
static int pton4(const char *s, uch *dst) { // glibc: strict dotted decimal
  int saw = 0, oct = 0; uch tmp[4], *tp = tmp; *tp = 0;
  while (*s) { uch c = *s++; if (c >= '0' && c <= '9') { unsigned nw = *tp * 10 + (c - '0'); if (saw && *tp == 0) return 0; if (nw > 255) return 0; *tp = nw; if (!saw) { if (++oct > 4) return 0; saw = 1; } } else if (c == '.' && saw) { if (oct == 4) return 0; *++tp = 0; saw = 0; } else return 0; }
  if (oct < 4) return 0; memcpy(dst, tmp, 4); return 1;
}
static int hexv(int c) { if (c >= '0' && c <= '9') return c - '0'; if (c >= 'a' && c <= 'f') return c - 'a' + 10; if (c >= 'A' && c <= 'F') return c - 'A' + 10; return -1; }
static int pton6(const char *s, uch *dst) {
  uch tmp[16], *tp = tmp, *end = tmp + 16, *colon = nullptr; memset(tmp, 0, 16); if (!*s) return 0; if (*s == ':') { if (*++s != ':') return 0; }
  const char *cur = s; int saw = 0; unsigned val = 0;
  while (*s) { int ch = (uch)*s++; int d = hexv(ch); if (d >= 0) { if (saw == 4) return 0; val = val << 4 | d; if (val > 0xffff) return 0; saw++; continue; }
    if (ch == ':') { cur = s; if (!saw) { if (colon) return 0; colon = tp; continue; } else if (!*s) return 0; if (end - tp < 2) return 0; *tp++ = val >> 8; *tp++ = val; saw = 0; val = 0; continue; }
    if (ch == '.' && end - tp >= 4) { if (!pton4(cur, tp)) return 0; tp += 4; saw = 0; break; }
    return 0; }
  if (saw) { if (end - tp < 2) return 0; *tp++ = val >> 8; *tp++ = val; }
  if (colon) { if (tp == end) return 0; size_t n = tp - colon; for (size_t i = 1; i <= n; i++) { end[-(long)i] = colon[n - i]; colon[n - i] = 0; } tp = end; }
  if (tp != end) return 0; memcpy(dst, tmp, 16); return 1;
}
int env_inet_pton(int af, const char *s, void *d) { if (af == AF_INET) return pton4(s, (uch *)d); if (af == AF_INET6) return pton6(s, (uch *)d); errno = EAFNOSUPPORT; return -1; }
static char *dec(char *p, unsigned v) { if (v >= 100) { *p++ = '0' + v / 100; } if (v >= 10) *p++ = '0' + v / 10 % 10; *p++ = '0' + v % 10; return p; }
static char *ntop4(const uch *a, char *p) { for (int i = 0; i < 4; i++) { if (i) *p++ = '.'; p = dec(p, a[i]); } *p = 0; return p; }
const char *env_inet_ntop(int af, const void *src, char *dst, socklen_t size) {
  const uch *a = (const uch *)src; char t[64], *p = t;
  if (af == AF_INET) p = ntop4(a, t);
  else if (af == AF_INET6) {
    unsigned w[8]; for (int i = 0; i < 8; i++) w[i] = a[2 * i] << 8 | a[2 * i + 1]; int bb = -1, bl = 0, cb = -1, cl = 0;
    for (int i = 0; i < 8; i++) { if (w[i] == 0) { if (cb < 0) cb = i, cl = 1; else cl++; } else if (cb >= 0) { if (bb < 0 || cl > bl) bb = cb, bl = cl; cb = -1; } } if (cb >= 0 && (bb < 0 || cl > bl)) bb = cb, bl = cl; if (bb >= 0 && bl < 2) bb = -1;
    for (int i = 0; i < 8; i++) { if (bb >= 0 && i >= bb && i < bb + bl) { if (i == bb) *p++ = ':'; continue; } if (i) *p++ = ':'; if (i == 6 && bb == 0 && (bl == 6 || (bl == 5 && w[5] == 0xffff))) { p = ntop4(a + 12, p); break; } bool on = false; for (int sh = 12; sh >= 0; sh -= 4) { unsigned d = w[i] >> sh & 15; if (d || on || sh == 0) { on = true; *p++ = d < 10 ? '0' + d : 'a' + d - 10; } } }
    if (bb >= 0 && bb + bl == 8) *p++ = ':'; *p = 0;
  } else { errno = EAFNOSUPPORT; return nullptr; }
  if ((size_t)(p - t) + 1 > size) { errno = ENOSPC; return nullptr; } memcpy(dst, t, p - t + 1); return dst;
}
WEAK char *env_strerror(int) { return (char *)"Error text"; }
WEAK char *env_strerror_r(int, char *b, size_t n) { (void)b; (void)n; return (char *)"Error text"; }
WEAK int env___xpg_strerror_r(int, char *b, size_t n) { env_strncpy(b, "Error text", n); return 0; }
size_t __attribute__((weak)) env_fwrite(const void *, size_t, size_t n, FILE *) { return n; }
int __attribute__((weak)) env_fflush(FILE *) { return 0; }
int __attribute__((weak)) env_fputs(const char *, FILE *) { return 1; }
int __attribute__((weak)) env_setvbuf(FILE *, char *, int, size_t) { return 0; }
}

// ---- dynamic_cast, over the run-time type information the compiler emits
extern "C" char _ZTVN10__cxxabiv120__si_class_type_infoE[], _ZTVN10__cxxabiv121__vmi_class_type_infoE[];
namespace {
struct KTi { void *vt; const char *name; };
struct KSi { KTi t; KTi const *base; };
struct KVmi { KTi t; unsigned flags, n; struct { KTi const *base; long of; } b[1]; };
void *k_find(char *obj, KTi const *t, KTi const *dst)
{
  if (t == dst) return obj;
  if (t->vt == (void *)(_ZTVN10__cxxabiv120__si_class_type_infoE + 16)) return k_find(obj, ((KSi const *)t)->base, dst);
  if (t->vt == (void *)(_ZTVN10__cxxabiv121__vmi_class_type_infoE + 16)) {
    KVmi const *v = (KVmi const *)t;
    for (unsigned i = 0; i < v->n; i++) {
      long of = v->b[i].of;
      if (!(of & 2)) continue; // not a public base
      char *b = obj + ((of & 1) ? *(long *)(*(char **)obj + (of >> 8)) : (of >> 8));
      if (void *r = k_find(b, v->b[i].base, dst)) return r;
    }
  }
  return nullptr;
}
}
extern "C" void *__dynamic_cast(const void *sub, void const *, void const *dst, long)
{
  long *vt = *(long **)sub;
  return k_find((char *)sub + vt[-2], (KTi const *)vt[-1], (KTi const *)dst);
}
