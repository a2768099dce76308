// Run-time support that is compiled both into the IR and into the native replay binary.
#include "vf.h"
#include <new>
#include <exception>
#include <typeinfo>
#include <list>
#include <map>
#include <stdexcept>
#include <unordered_map>
#include <condition_variable>
#include <functional>

extern "C" { int (*vf_fault)(void) = nullptr; void (*vf_on_assert)(const char*) = nullptr; }
namespace boost {
void assertion_failed(char const* e, char const*, char const*, long) { if (vf_on_assert) { vf_on_assert(e); return; } vf_fail(e); }
void assertion_failed_msg(char const* e, char const*, char const*, char const*, long) { if (vf_on_assert) { vf_on_assert(e); return; } vf_fail(e); }
}
// out-of-line parts of Boost.Thread that the headers refer to (no boost::thread is ever interrupted here)
namespace boost { namespace detail { struct thread_data_base; thread_data_base* get_current_thread_data() { return 0; } } namespace this_thread { void interruption_point() {} } }
static void* vnew(size_t n, int k) { if (vf_fault && vf_fault()) throw std::bad_alloc(); return vf_alloc(n, k); }
void* operator new(size_t n) { return vnew(n, 3); }
void* operator new[](size_t n) { return vnew(n, 4); }
void* operator new(size_t n, const std::nothrow_t&) noexcept { if (vf_fault && vf_fault()) return nullptr; return vf_alloc(n, 3); }
void* operator new[](size_t n, const std::nothrow_t&) noexcept { return vf_alloc(n, 4); }
void operator delete(void* p) noexcept { vf_dealloc(p, (size_t)-1, 3); }
void operator delete[](void* p) noexcept { vf_dealloc(p, (size_t)-1, 4); }
void operator delete(void* p, size_t n) noexcept { vf_dealloc(p, n, 3); }
void operator delete[](void* p, size_t n) noexcept { vf_dealloc(p, n, 4); }
void operator delete(void* p, const std::nothrow_t&) noexcept { vf_dealloc(p, (size_t)-1, 3); }

#ifdef VF_IR
extern "C" void* malloc(size_t n) { return vf_alloc(n, 2); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }
extern "C" void free(void* p) { vf_dealloc(p, (size_t)-1, 2); }
namespace std {
exception::~exception() noexcept {} const char* exception::what() const noexcept { return "exception"; }
bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "bad_exception"; }
bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "bad_typeid"; }
namespace __detail {
void _List_node_base::swap(_List_node_base& x, _List_node_base& y) noexcept {
  if (x._M_next != &x) {
    if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
    else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
  } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; _List_node_base* const t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base* t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base* const n = this->_M_next; _List_node_base* const p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
}
typedef _Rb_tree_node_base N; typedef const _Rb_tree_node_base CN;
N* _Rb_tree_increment(N* x) noexcept { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { N* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
CN* _Rb_tree_increment(CN* x) noexcept { return _Rb_tree_increment(const_cast<N*>(x)); }
N* _Rb_tree_decrement(N* x) noexcept { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { N* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { N* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
CN* _Rb_tree_decrement(CN* x) noexcept { return _Rb_tree_decrement(const_cast<N*>(x)); }
static void rotl(N* const x, N*& root) { N* const y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(N* const x, N*& root) { N* const y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, N* x, N* p, N& h) noexcept {
  N*& root = h._M_parent; x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
  while (x != root && x->_M_parent->_M_color == _S_red) {
    N* const xpp = x->_M_parent->_M_parent;
    if (x->_M_parent == xpp->_M_left) { N* const y = xpp->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); } }
    else { N* const y = xpp->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); } }
  }
  root->_M_color = _S_black;
}
N* _Rb_tree_rebalance_for_erase(N* const z, N& h) noexcept {
  N*& root = h._M_parent; N*& leftmost = h._M_left; N*& rightmost = h._M_right; N* y = z; N* x = 0; N* xp = 0;
  if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { N* q = x; while (q->_M_left) q = q->_M_left; leftmost = q; } }
    if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { N* q = x; while (q->_M_right) q = q->_M_right; rightmost = q; } } }
  if (y->_M_color != _S_red) {
    while (x != root && (x == 0 || x->_M_color == _S_black))
      if (x == xp->_M_left) { N* w = xp->_M_right; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
        if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; } }
      else { N* w = xp->_M_left; if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
        if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
        else { if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; } w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; } }
    if (x) x->_M_color = _S_black; }
  return y;
}
// further out-of-line parts of the standard library, so that a library that starts to use them can still be executed
size_t _Hash_bytes(const void* p, size_t n, size_t h) { const unsigned char* c = (const unsigned char*)p; while (n--) h = (h ^ *c++) * 1099511628211ull; return h; }
namespace __detail {
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { static const size_t pr[] = {2, 5, 11, 23, 47, 97, 199, 409, 823, 1741, 3739, 7517, 15173}; for (size_t p : pr) if (p >= n) { _M_next_resize = p; return p; } return n | 1; }
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t b, size_t e, size_t i) const { if (e + i > b || (b == 1 && i)) return {true, _M_next_bkt(e + i > 2 * b ? e + i : 2 * b)}; return {false, 0}; }
}
__cow_string::__cow_string() : _M_p("error") {} __cow_string::__cow_string(const char* p, size_t) : _M_p(p) {} __cow_string::__cow_string(const __cow_string& o) noexcept : _M_p(o._M_p) {} __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; } __cow_string::~__cow_string() {} 
logic_error::logic_error(const char* t) : _M_msg(t, 0) {} logic_error::logic_error(const string&) {} logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return ((const __cow_string&)_M_msg)._M_p; } logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
runtime_error::runtime_error(const char* t) : _M_msg(t, 0) {} runtime_error::runtime_error(const string&) {} runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return ((const __cow_string&)_M_msg)._M_p; } runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {}
#define VF_ERR(c, b) c::c(const char* t) : b(t) {} c::c(const string& t) : b(t) {} c::~c() noexcept {}
VF_ERR(domain_error, logic_error) VF_ERR(invalid_argument, logic_error) VF_ERR(length_error, logic_error) VF_ERR(out_of_range, logic_error) VF_ERR(range_error, runtime_error) VF_ERR(overflow_error, runtime_error) VF_ERR(underflow_error, runtime_error)
bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
void __throw_length_error(const char* t) { throw length_error(t); } void __throw_logic_error(const char* t) { throw logic_error(t); } void __throw_out_of_range(const char* t) { throw out_of_range(t); } void __throw_out_of_range_fmt(const char* t, ...) { throw out_of_range(t); } void __throw_bad_function_call() { throw bad_function_call(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_alloc(); } void __throw_invalid_argument(const char* t) { throw invalid_argument(t); } void __throw_runtime_error(const char* t) { throw runtime_error(t); } void __throw_bad_cast() { throw bad_cast(); }
#ifdef _GLIBCXX_HAS_GTHREADS
condition_variable::condition_variable() noexcept {} condition_variable::~condition_variable() noexcept {} void condition_variable::notify_one() noexcept { _M_cond.notify_one(); } void condition_variable::notify_all() noexcept { _M_cond.notify_all(); } void condition_variable::wait(unique_lock<mutex>& l) { _M_cond.wait(*l.mutex()); }
#endif
}
#endif
