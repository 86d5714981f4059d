// Models of the out-of-line libstdc++ functions harness code reaches (linked as bitcode for nbsym).
// Unordered containers keep a single bucket, ordered ones an unbalanced tree: container semantics
// are unchanged, only the internal layout differs.
#include <bits/stl_tree.h>
#include <bits/stl_list.h>
#include <unordered_map>
#include <stdexcept>
#include <new>
#include <system_error>
#include <functional>
#include <typeinfo>
#include <cstring>
extern "C" { extern char __libc_single_threaded_model; }
namespace std {
exception::~exception() noexcept {}
const char* exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char* bad_alloc::what() const noexcept { return "bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char* bad_array_new_length::what() const noexcept { return "bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char* bad_cast::what() const noexcept { return "bad_cast"; }
bad_function_call::~bad_function_call() noexcept {}
const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const char* s, size_t) { _M_p = s; }
__cow_string::__cow_string(const __cow_string& o) noexcept { _M_p = o._M_p; }
__cow_string& __cow_string::operator=(const __cow_string& o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
logic_error::logic_error(const char* s) : exception(), _M_msg("logic_error", 11) { (void)s; }
logic_error::logic_error(const string& s) : exception(), _M_msg("logic_error", 11) {}
logic_error::~logic_error() noexcept {}
logic_error::logic_error(const logic_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
const char* logic_error::what() const noexcept { return "logic_error"; }
runtime_error::runtime_error(const char* s) : exception(), _M_msg("runtime_error", 13) {}
runtime_error::runtime_error(const string& s) : exception(), _M_msg("runtime_error", 13) {}
runtime_error::~runtime_error() noexcept {}
runtime_error::runtime_error(const runtime_error& o) noexcept : exception(), _M_msg(o._M_msg) {}
const char* runtime_error::what() const noexcept { return "runtime_error"; }
length_error::length_error(const char* s) : logic_error(s) {}
length_error::length_error(const string& s) : logic_error(s) {}
length_error::~length_error() noexcept {}
out_of_range::out_of_range(const char* s) : logic_error(s) {}
out_of_range::out_of_range(const string& s) : logic_error(s) {}
out_of_range::~out_of_range() noexcept {}
invalid_argument::invalid_argument(const char* s) : logic_error(s) {}
invalid_argument::invalid_argument(const string& s) : logic_error(s) {}
invalid_argument::~invalid_argument() noexcept {}
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_function_call() { throw bad_function_call(); }
namespace __detail {
pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t, size_t, size_t) const { return {false, 0}; }
size_t _Prime_rehash_policy::_M_next_bkt(size_t) const { return 1; }
}
size_t _Hash_bytes(const void* p, size_t n, size_t seed) { auto* c = (const unsigned char*)p; size_t h = seed + n; for (size_t i = 0; i < n; i++) h += (size_t)c[i] << (8 * (i % 7)); return h; }
namespace __detail {
void _List_node_base::_M_hook(_List_node_base* const p) noexcept { _M_next = p; _M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { auto* n = _M_next; auto* p = _M_prev; p->_M_next = n; n->_M_prev = p; }
void _List_node_base::_M_transfer(_List_node_base* const first, _List_node_base* const last) noexcept {
  if (this != last) { last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first; auto* t = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = t; } }
}
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; } else { auto* y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; } return x; }
static _Rb_tree_node_base* dec(_Rb_tree_node_base* x) { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right; else if (x->_M_left) { auto* y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; } else { auto* y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; } return x; }
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
  x->_M_parent = p; x->_M_left = x->_M_right = nullptr; x->_M_color = _S_black;
  if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
  else { p->_M_right = x; if (p == h._M_right) h._M_right = x; } }
_Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) throw() {
  _Rb_tree_node_base *&root = h._M_parent, *&lm = h._M_left, *&rm = h._M_right; _Rb_tree_node_base *y = z, *x = nullptr, *xp = nullptr;
  if (!y->_M_left) x = y->_M_right; else if (!y->_M_right) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
  if (y != z) { z->_M_left->_M_parent = y; y->_M_left = z->_M_left; if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; } else xp = y;
    if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y; y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z; }
  else { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
    if (lm == z) { if (!z->_M_right) lm = z->_M_parent; else { auto* m = x; while (m->_M_left) m = m->_M_left; lm = m; } }
    if (rm == z) { if (!z->_M_left) rm = z->_M_parent; else { auto* m = x; while (m->_M_right) m = m->_M_right; rm = m; } } }
  (void)xp; return y; }
}

extern "C" void nb_throw_bad_alloc() { throw std::bad_alloc(); }
namespace std { inline namespace _V2 {
error_category::~error_category() {}
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code& e, int i) const noexcept { return *this == e.category() && e.value() == i; }
__cow_string error_category::_M_message(int) const { return __cow_string("error", 5); }
namespace { struct plain_category final : error_category { const char* n; constexpr plain_category(const char* n_) : n(n_) {} const char* name() const noexcept override { return n; } string message(int) const override { return n; } };
plain_category generic_cat("generic"), system_cat("system"); }
const error_category& generic_category() noexcept { return generic_cat; }
const error_category& system_category() noexcept { return system_cat; }
} }
