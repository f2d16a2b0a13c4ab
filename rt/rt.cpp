// Models of the parts of libstdc++ / libc that live in shared libraries (everything that is in a header is executed as it is).
#include "sx.h"
#include <cerrno>
#include <condition_variable>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <future>
#include <iomanip>
#include <ios>
#include <iostream>
#include <istream>
#include <list>
#include <locale>
#include <map>
#include <mutex>
#include <new>
#include <ostream>
#include <sstream>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <thread>
#include <typeinfo>

extern "C" {
    int sx_rt_format_double(char *buf, size_t n, const char *fmt, int prec, double v);
    void sx_rt_bad_alloc() { throw std::bad_alloc(); }
}

// ---------------------------------------------------------------------------------------------------- exceptions
namespace std {
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_exception::~bad_exception() noexcept {}
const char *bad_exception::what() const noexcept { return "std::bad_exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }

static char *dupstr(const char *s, size_t n) { char *p = (char*)__builtin_malloc(n + 1 + 8) ; *(int*)p = 1; p += 8; __builtin_memcpy(p, s, n); p[n] = 0; return p; }
static void unref(char *p) { int *r = (int*)(p - 8); if (--*r == 0) free(p - 8); }
__cow_string::__cow_string() : _M_p(dupstr("", 0)) {}
__cow_string::__cow_string(const std::string &s) : _M_p(dupstr(s.c_str(), s.size())) {}
__cow_string::__cow_string(const char *s, size_t n) : _M_p(dupstr(s, n)) {}
__cow_string::__cow_string(const __cow_string &o) noexcept : _M_p(o._M_p) { ++*(int*)(const_cast<char*>(_M_p) - 8); }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { ++*(int*)(const_cast<char*>(o._M_p) - 8); unref(const_cast<char*>(_M_p)); _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() { unref(const_cast<char*>(_M_p)); }
__cow_string::__cow_string(__cow_string &&o) noexcept : _M_p(o._M_p) { o._M_p = dupstr("", 0); }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { const char *t = _M_p; _M_p = o._M_p; o._M_p = t; return *this; }
#define MSG(e) (*(const char *const *)&(e))

logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, __builtin_strlen(s)) {}
logic_error::logic_error(logic_error &&o) noexcept : exception(), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; }
logic_error::logic_error(const logic_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return MSG(_M_msg); }
#define DERIVED_L(N) N::N(const string &s) : logic_error(s) {} N::N(const char *s) : logic_error(s) {} N::~N() noexcept {}
DERIVED_L(domain_error) DERIVED_L(invalid_argument) DERIVED_L(length_error) DERIVED_L(out_of_range)
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, __builtin_strlen(s)) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : exception(), _M_msg(static_cast<__cow_string&&>(o._M_msg)) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = static_cast<__cow_string&&>(o._M_msg); return *this; }
runtime_error::runtime_error(const runtime_error &o) noexcept : exception(), _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return MSG(_M_msg); }
#define DERIVED_R(N) N::N(const string &s) : runtime_error(s) {} N::N(const char *s) : runtime_error(s) {} N::~N() noexcept {}
DERIVED_R(range_error) DERIVED_R(overflow_error) DERIVED_R(underflow_error)

void __throw_bad_exception() { throw bad_exception(); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
void __throw_ios_failure(const char *s, int) { throw runtime_error(s); }
const nothrow_t nothrow{};
}
// type infos of fundamental types are emitted with the (fake) key function of __fundamental_type_info
namespace __cxxabiv1 {
class __fundamental_type_info : public std::type_info { public: virtual ~__fundamental_type_info(); };
__fundamental_type_info::~__fundamental_type_info() {}
class __pointer_type_info : public std::type_info { public: virtual ~__pointer_type_info(); };
__pointer_type_info::~__pointer_type_info() {}
class __array_type_info : public std::type_info { public: virtual ~__array_type_info(); };
__array_type_info::~__array_type_info() {}
class __function_type_info : public std::type_info { public: virtual ~__function_type_info(); };
__function_type_info::~__function_type_info() {}
class __enum_type_info : public std::type_info { public: virtual ~__enum_type_info(); };
__enum_type_info::~__enum_type_info() {}
class __class_type_info : public std::type_info { public: virtual ~__class_type_info(); };
__class_type_info::~__class_type_info() {}
class __si_class_type_info : public __class_type_info { public: virtual ~__si_class_type_info(); };
__si_class_type_info::~__si_class_type_info() {}
class __vmi_class_type_info : public __class_type_info { public: virtual ~__vmi_class_type_info(); };
__vmi_class_type_info::~__vmi_class_type_info() {}
}
namespace std {
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
}

// ---------------------------------------------------------------------------------------------------- containers
namespace std {
namespace __detail {
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept {
    if (x._M_next != &x) {
        if (y._M_next != &y) { std::swap(x._M_next, y._M_next); std::swap(x._M_prev, y._M_prev); x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next->_M_prev = y._M_prev->_M_next = &y; }
        else { y._M_next = x._M_next; y._M_prev = x._M_prev; y._M_next->_M_prev = y._M_prev->_M_next = &y; x._M_next = x._M_prev = &x; }
    } else if (y._M_next != &y) { x._M_next = y._M_next; x._M_prev = y._M_prev; x._M_next->_M_prev = x._M_prev->_M_next = &x; y._M_next = y._M_prev = &y; }
}
void _List_node_base::_M_transfer(_List_node_base *first, _List_node_base *last) noexcept {
    if (this != last) {
        last->_M_prev->_M_next = this; first->_M_prev->_M_next = last; this->_M_prev->_M_next = first;
        _List_node_base *tmp = this->_M_prev; this->_M_prev = last->_M_prev; last->_M_prev = first->_M_prev; first->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept { _List_node_base *t = this; do { std::swap(t->_M_next, t->_M_prev); t = t->_M_prev; } while (t != this); }
void _List_node_base::_M_hook(_List_node_base *p) noexcept { this->_M_next = p; this->_M_prev = p->_M_prev; p->_M_prev->_M_next = this; p->_M_prev = this; }
void _List_node_base::_M_unhook() noexcept { _List_node_base *n = this->_M_next, *p = this->_M_prev; p->_M_next = n; n->_M_prev = p; }
}
static _Rb_tree_node_base *rb_inc(_Rb_tree_node_base *x) {
    if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; }
    return x;
}
static _Rb_tree_node_base *rb_dec(_Rb_tree_node_base *x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left) { _Rb_tree_node_base *y = x->_M_left; while (y->_M_right) y = y->_M_right; x = y; }
    else { _Rb_tree_node_base *y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } x = y; }
    return x;
}
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { return rb_inc(x); }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return rb_inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { return rb_dec(x); }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return rb_dec(const_cast<_Rb_tree_node_base*>(x)); }
static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y;
    y->_M_left = x; x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) {
    auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent;
    if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y;
    y->_M_right = x; x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *&root = h._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; }
    else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        auto xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            auto y = xpp->_M_right;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root); }
        } else {
            auto y = xpp->_M_left;
            if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp; }
            else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root); }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &h) throw() {
    _Rb_tree_node_base *&root = h._M_parent, *&leftmost = h._M_left, *&rightmost = h._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (y->_M_left == 0) x = y->_M_right; else if (y->_M_right == 0) x = y->_M_left; else { y = y->_M_right; while (y->_M_left) y = y->_M_left; x = y->_M_right; }
    if (y != z) {
        z->_M_left->_M_parent = y; y->_M_left = z->_M_left;
        if (y != z->_M_right) { xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent; y->_M_parent->_M_left = x; y->_M_right = z->_M_right; z->_M_right->_M_parent = y; }
        else xp = y;
        if (root == z) root = y; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y; else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent; std::swap(y->_M_color, z->_M_color); y = z;
    } else {
        xp = y->_M_parent; if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x; else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x; else z->_M_parent->_M_right = x;
        if (leftmost == z) { if (z->_M_right == 0) leftmost = z->_M_parent; else { auto t = x; while (t->_M_left) t = t->_M_left; leftmost = t; } }
        if (rightmost == z) { if (z->_M_left == 0) rightmost = z->_M_parent; else { auto t = x; while (t->_M_right) t = t->_M_right; rightmost = t; } }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                auto w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((!w->_M_left || w->_M_left->_M_color == _S_black) && (!w->_M_right || w->_M_right->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_right || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_right) w->_M_right->_M_color = _S_black; rotl(xp, root); break; }
            } else {
                auto w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((!w->_M_right || w->_M_right->_M_color == _S_black) && (!w->_M_left || w->_M_left->_M_color == _S_black)) { w->_M_color = _S_red; x = xp; xp = xp->_M_parent; }
                else { if (!w->_M_left || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black; if (w->_M_left) w->_M_left->_M_color = _S_black; rotr(xp, root); break; }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
}

// ---------------------------------------------------------------------------------------------------- locale, iostreams
namespace std {
locale::locale() throw() : _M_impl(nullptr) {}
locale::locale(const locale &o) throw() : _M_impl(o._M_impl) {}
locale::~locale() throw() {}
const locale &locale::operator=(const locale &o) throw() { _M_impl = o._M_impl; return *this; }
bool locale::operator==(const locale &) const throw() { return true; }
static locale *classic_loc() { static locale l; return &l; }
const locale &locale::classic() { return *classic_loc(); }
size_t locale::id::_M_id() const throw() { return 0; }
void ios_base_library_init() {}

ios_base::ios_base() throw() : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale() {}
ios_base::~ios_base() {}
void ios_base::_M_init() throw() { _M_precision = 6; _M_width = 0; _M_flags = skipws | dec; }
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale ios_base::imbue(const locale &l) throw() { return l; }
int ios_base::xalloc() throw() { return 0; }
bool ios_base::sync_with_stdio(bool) { return true; }

template<> void basic_ios<char>::_M_cache_locale(const locale &) { _M_ctype = nullptr; _M_num_put = nullptr; _M_num_get = nullptr; }
template<> char basic_ios<char>::widen(char c) const { return c; }
template<> char basic_ios<char>::narrow(char c, char) const { return c; }

static ostream &padput(ostream &os, const char *s, size_t n, bool numeric) {
    ostream::sentry ok(os);
    if (ok) {
        streamsize w = os.width(), len = n; char f = os.fill(); size_t head = 0;
        bool left = (os.flags() & ios_base::adjustfield) == ios_base::left, internal = (os.flags() & ios_base::adjustfield) == ios_base::internal;
        streambuf *b = os.rdbuf(); bool good = true;
        if (internal && numeric && n && (s[0] == '-' || s[0] == '+')) { good &= b->sputc(s[0]) != EOF; head = 1; }
        if (!left) for (streamsize i = len; i < w; i++) good &= b->sputc(f) != EOF;
        for (size_t i = head; i < n; i++) good &= b->sputc(s[i]) != EOF;
        if (left) for (streamsize i = len; i < w; i++) good &= b->sputc(f) != EOF;
        os.width(0);
        if (!good) os.setstate(ios_base::badbit);
    }
    return os;
}
static ostream &putint(ostream &os, unsigned long long v, bool neg) {
    char buf[72]; int p = 72; auto bf = os.flags() & ios_base::basefield; unsigned base = bf == ios_base::hex ? 16 : bf == ios_base::oct ? 8 : 10; bool up = os.flags() & ios_base::uppercase;
    unsigned long long o = v;
    do { unsigned d = v % base; v /= base; buf[--p] = d < 10 ? '0' + d : (up ? 'A' : 'a') + d - 10; } while (v);
    if ((os.flags() & ios_base::showbase) && o) { if (base == 16) { buf[--p] = up ? 'X' : 'x'; buf[--p] = '0'; } else if (base == 8) buf[--p] = '0'; }
    if (neg) buf[--p] = '-'; else if ((os.flags() & ios_base::showpos) && base == 10) buf[--p] = '+';
    return padput(os, buf + p, 72 - p, true);
}
template<typename T> static ostream &putsigned(ostream &os, T v) { auto bf = os.flags() & ios_base::basefield; if (v < 0 && bf != ios_base::hex && bf != ios_base::oct) return putint(os, 0ull - (unsigned long long)(long long)v, true); return putint(os, (make_unsigned_t<T>)v, false); }
template<> template<> ostream &ostream::_M_insert<long>(long v) { return putsigned(*this, v); }
template<> template<> ostream &ostream::_M_insert<long long>(long long v) { return putsigned(*this, v); }
template<> template<> ostream &ostream::_M_insert<unsigned long>(unsigned long v) { return putint(*this, v, false); }
template<> template<> ostream &ostream::_M_insert<unsigned long long>(unsigned long long v) { return putint(*this, v, false); }
template<> template<> ostream &ostream::_M_insert<bool>(bool v) { if (flags() & ios_base::boolalpha) return v ? padput(*this, "true", 4, false) : padput(*this, "false", 5, false); return putint(*this, v, false); }
template<> template<> ostream &ostream::_M_insert<const void*>(const void *v) { auto f = flags(); flags((f & ~(ios_base::basefield | ios_base::uppercase)) | ios_base::hex | ios_base::showbase); putint(*this, (unsigned long)v, false); flags(f); return *this; }
template<> template<> ostream &ostream::_M_insert<double>(double v) {
    char buf[512]; auto ff = flags() & ios_base::floatfield; char fmt[8]; int p = 0; fmt[p++] = '%'; if (flags() & ios_base::showpos) fmt[p++] = '+'; if (flags() & ios_base::showpoint) fmt[p++] = '#'; fmt[p++] = '.'; fmt[p++] = '*';
    fmt[p++] = ff == ios_base::fixed ? 'f' : ff == ios_base::scientific ? 'e' : ff == (ios_base::fixed | ios_base::scientific) ? 'a' : 'g'; fmt[p] = 0;
    int n = sx_rt_format_double(buf, sizeof buf, fmt, (int)precision(), v);
    return padput(*this, buf, n, true);
}
template<> template<> ostream &ostream::_M_insert<long double>(long double v) { return _M_insert<double>((double)v); }

static bool is_sp(int c) { return c == ' ' || (c >= 9 && c <= 13); }
template<> istream::sentry::sentry(istream &in, bool noskip) : _M_ok(false) {
    if (in.good()) {
        if (in.tie()) in.tie()->flush();
        if (!noskip && (in.flags() & ios_base::skipws)) { streambuf *b = in.rdbuf(); int c = b->sgetc(); while (c != EOF && is_sp(c)) c = b->snextc(); if (c == EOF) { in.setstate(ios_base::eofbit | ios_base::failbit); } }
    }
    if (in.good()) _M_ok = true; else in.setstate(ios_base::failbit);
}
template<typename T> static istream &getint(istream &in, T &out, bool sgn) {
    istream::sentry ok(in, false);
    if (ok) {
        streambuf *b = in.rdbuf(); int c = b->sgetc(); bool neg = false, any = false, ovf = false; unsigned __int128 v = 0;
        if (c == '-' || c == '+') { neg = c == '-'; c = b->snextc(); }
        unsigned base = (in.flags() & ios_base::basefield) == ios_base::hex ? 16 : (in.flags() & ios_base::basefield) == ios_base::oct ? 8 : 10;
        for (;;) { unsigned d; if (c >= '0' && c <= '9') d = c - '0'; else if (base == 16 && c >= 'a' && c <= 'f') d = c - 'a' + 10; else if (base == 16 && c >= 'A' && c <= 'F') d = c - 'A' + 10; else break; if (d >= base) break; any = true; if (v >> 70) ovf = true; else v = v * base + d; c = b->snextc(); }
        if (c == EOF) in.setstate(ios_base::eofbit);
        if (!any) { out = 0; in.setstate(ios_base::failbit); }
        else if (sgn) {
            __int128 x = neg ? -(__int128)v : (__int128)v; __int128 mx = numeric_limits<T>::max(), mn = numeric_limits<T>::min();
            if (ovf || x > mx || x < mn) { out = (T)(neg ? mn : mx); in.setstate(ios_base::failbit); } else out = (T)x;
        } else { if (ovf || v > (unsigned __int128)numeric_limits<T>::max()) { out = numeric_limits<T>::max(); in.setstate(ios_base::failbit); } else out = (T)(neg ? 0 - (T)v : (T)v); }
    }
    return in;
}
template<> template<> istream &istream::_M_extract<long>(long &v) { return getint(*this, v, true); }
template<> template<> istream &istream::_M_extract<long long>(long long &v) { return getint(*this, v, true); }
template<> template<> istream &istream::_M_extract<unsigned long>(unsigned long &v) { return getint(*this, v, false); }
template<> template<> istream &istream::_M_extract<unsigned long long>(unsigned long long &v) { return getint(*this, v, false); }
template<> template<> istream &istream::_M_extract<unsigned int>(unsigned int &v) { return getint(*this, v, false); }
template<> template<> istream &istream::_M_extract<unsigned short>(unsigned short &v) { return getint(*this, v, false); }
template<> istream &istream::operator>>(int &v) { return getint(*this, v, true); }
template<> istream &istream::operator>>(short &v) { return getint(*this, v, true); }
template<> istream &istream::ignore(streamsize n, int delim) { for (streamsize i = 0; n == numeric_limits<streamsize>::max() || i < n; i++) { int c = get(); if (c == EOF) { clear(rdstate() & ~failbit); break; } if (c == delim) break; } return *this; }   // gcount() is not kept

// the standard streams discard what is written to them
struct nullbuf : streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } streamsize xsputn(const char *, streamsize n) override { return n; } };
}
extern "C" {
alignas(std::ostream) char _ZSt4cout[sizeof(std::ostream)];
alignas(std::ostream) char _ZSt4cerr[sizeof(std::ostream)];
alignas(std::ostream) char _ZSt4clog[sizeof(std::ostream)];
alignas(std::istream) char _ZSt3cin[sizeof(std::istream)];
FILE *stdout = nullptr, *stderr = nullptr, *stdin = nullptr;
char **environ = nullptr;
}
namespace {
alignas(std::nullbuf) char g_nb[sizeof(std::nullbuf)];
struct IosInit { IosInit() { auto nb = new (g_nb) std::nullbuf; new (_ZSt4cout) std::ostream(nb); new (_ZSt4cerr) std::ostream(nb); new (_ZSt4clog) std::ostream(nb); new (_ZSt3cin) std::istream(nb); } };
[[gnu::init_priority(101)]] IosInit g_iosinit;
}
namespace std { void __ios_base_library_init_dummy() {} }
extern "C" void _ZNSt8ios_base4InitC1Ev(void *) {}
extern "C" void _ZNSt8ios_base4InitD1Ev(void *) {}

// ---------------------------------------------------------------------------------------------------- threads
extern "C" { int pthread_mutex_lock(pthread_mutex_t *); int pthread_mutex_unlock(pthread_mutex_t *); int pthread_cond_wait(pthread_cond_t *, pthread_mutex_t *); int pthread_cond_signal(pthread_cond_t *); int pthread_cond_broadcast(pthread_cond_t *); }
namespace std {
condition_variable::condition_variable() noexcept {}
condition_variable::~condition_variable() noexcept {}
void condition_variable::wait(unique_lock<mutex> &l) { pthread_cond_wait(native_handle(), l.mutex()->native_handle()); }
void condition_variable::notify_one() noexcept { pthread_cond_signal(native_handle()); }
void condition_variable::notify_all() noexcept { pthread_cond_broadcast(native_handle()); }
thread::_State::~_State() {}
void thread::_M_start_thread(_State_ptr st, void (*)()) { *(unsigned long*)&_M_id = sx_spawn([](void *p) { auto s = (_State*)p; s->_M_run(); delete s; }, st.release()); }
void thread::join() { sx_join((int)*(unsigned long*)&_M_id); _M_id = id(); }
void thread::detach() { _M_id = id(); }
namespace chrono { inline namespace _V2 {
static long sx_ticks = 1000;
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(++sx_ticks)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(++sx_ticks)); }
} }
namespace __exception_ptr {
// NB: exception_ptr is modelled only as far as destructors of empty pointers go
void exception_ptr::_M_addref() noexcept {}
void exception_ptr::_M_release() noexcept {}
}
}
// promises and futures: only futures that are ready are waited for
namespace std {
__future_base::_Result_base::_Result_base() = default;
__future_base::_Result_base::~_Result_base() = default;
__thread void *__once_callable; __thread void (*__once_call)();
extern "C" void __once_proxy() { __once_call(); }
bool __atomic_futex_unsigned_base::_M_futex_wait_until(unsigned *, unsigned, bool, chrono::seconds, chrono::nanoseconds) { sx_assert_(false, "a future that is not ready is waited for"); return false; }
void __atomic_futex_unsigned_base::_M_futex_notify_all(unsigned *) {}
}
extern "C" int pthread_once(pthread_once_t *o, void (*f)()) { if (!*o) { *o = 1; f(); } return 0; }
extern "C" pthread_t pthread_self(void) noexcept { return (pthread_t)(sx_self() + 1); }

// ---------------------------------------------------------------------------------------------------- libc
static int g_errno;
extern "C" {
char __libc_single_threaded = 1;
int *__errno_location() noexcept { return &g_errno; }
size_t strlen(const char *s) noexcept { size_t n = 0; while (s[n]) n++; return n; }
size_t strnlen(const char *s, size_t m) noexcept { size_t n = 0; while (n < m && s[n]) n++; return n; }
int strcmp(const char *a, const char *b) noexcept { for (;; a++, b++) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } }
int strncmp(const char *a, const char *b, size_t n) noexcept { for (; n; a++, b++, n--) { unsigned char x = *a, y = *b; if (x != y) return x < y ? -1 : 1; if (!x) return 0; } return 0; }
char *strcpy(char *d, const char *s) noexcept { char *r = d; while ((*d++ = *s++)) ; return r; }
char *stpcpy(char *d, const char *s) noexcept { while ((*d = *s)) { d++; s++; } return d; }
char *strncpy(char *d, const char *s, size_t n) noexcept { size_t i = 0; for (; i < n && s[i]; i++) d[i] = s[i]; for (; i < n; i++) d[i] = 0; return d; }
char *strcat(char *d, const char *s) noexcept { strcpy(d + strlen(d), s); return d; }
char *strdup(const char *s) noexcept { size_t n = strlen(s) + 1; char *p = (char*)malloc(n); __builtin_memcpy(p, s, n); return p; }
char *strndup(const char *s, size_t m) noexcept { size_t n = strnlen(s, m); char *p = (char*)malloc(n + 1); __builtin_memcpy(p, s, n); p[n] = 0; return p; }
}
static const void *memchr_(const void *s, int c, size_t n) { auto p = (const unsigned char*)s; for (; n; n--, p++) if (*p == (unsigned char)c) return p; return nullptr; }
static const char *strchr_(const char *s, int c) { for (;; s++) { if (*s == (char)c) return s; if (!*s) return nullptr; } }
extern "C" {
void *sx_memchr(const void *s, int c, size_t n) __asm__("memchr"); void *sx_memchr(const void *s, int c, size_t n) { return (void*)memchr_(s, c, n); }
char *sx_strchr(const char *s, int c) __asm__("strchr"); char *sx_strchr(const char *s, int c) { return (char*)strchr_(s, c); }
char *sx_strrchr(const char *s, int c) __asm__("strrchr"); char *sx_strrchr(const char *s, int c) { const char *r = nullptr; for (;; s++) { if (*s == (char)c) r = s; if (!*s) return (char*)r; } }
char *sx_strstr(const char *h, const char *n) __asm__("strstr"); char *sx_strstr(const char *h, const char *n) { size_t l = strlen(n); for (;; h++) { if (strncmp(h, n, l) == 0) return (char*)h; if (!*h) return nullptr; } }
// sscanf with %d conversions and literal characters; the engine passes the variable arguments positionally
int sx_sscanf(const char *in, const char *fmt, int *a, int *b, int *c, int *d, int *e, int *f) __asm__("__isoc23_sscanf");
int sx_sscanf(const char *in, const char *fmt, int *a, int *b, int *c, int *d, int *e, int *f) {
    int *o[6] = {a, b, c, d, e, f}, n = 0;
    auto sp = [](char ch) { return ch == ' ' || (ch >= 9 && ch <= 13); };
    for (; *fmt; fmt++) {
        if (*fmt == '%') {
            if (*++fmt != 'd' || n == 6) __builtin_trap();
            while (sp(*in)) in++;
            if (!*in && n == 0) return -1;
            bool neg = false; if (*in == '-' || *in == '+') neg = *in++ == '-';
            if (*in < '0' || *in > '9') return n;
            long v = 0; while (*in >= '0' && *in <= '9') { if (v < (1l << 40)) v = v * 10 + (*in - '0'); in++; }
            *o[n++] = (int)(neg ? -v : v);
        } else if (sp(*fmt)) { while (sp(*in)) in++; }
        else { if (!*in && n == 0) return -1; if (*in != *fmt) return n; in++; }
    }
    return n;
}
int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
int isalpha(int c) noexcept { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalnum(int c) noexcept { return isdigit(c) || isalpha(c); }
int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
int isxdigit(int c) noexcept { return isdigit(c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isprint(int c) noexcept { return c >= 32 && c < 127; }
int isgraph(int c) noexcept { return c > 32 && c < 127; }
int ispunct(int c) noexcept { return isgraph(c) && !isalnum(c); }
int iscntrl(int c) noexcept { return (c >= 0 && c < 32) || c == 127; }
int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }

static unsigned long long conv(const char *s, char **end, int base, bool sgn, long long smin, unsigned long long smax) {
    const char *p = s; while (isspace((unsigned char)*p)) p++;
    bool neg = false; if (*p == '-' || *p == '+') { neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = p[0] == '0' ? 8 : 10;
    unsigned long long v = 0; bool any = false, ovf = false;
    for (;; p++) {
        int c = (unsigned char)*p, d; if (c >= '0' && c <= '9') d = c - '0'; else if (c >= 'a' && c <= 'z') d = c - 'a' + 10; else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10; else break;
        if (d >= base) break; any = true;
        unsigned long long t; if (__builtin_mul_overflow(v, (unsigned long long)base, &t) | __builtin_add_overflow(t, (unsigned long long)d, &v)) ovf = true;
    }
    if (end) *end = (char*)(any ? p : s);
    if (sgn) {
        unsigned long long lim = neg ? 0ull - (unsigned long long)smin : smax;
        if (ovf || v > lim) { g_errno = ERANGE; return neg ? (unsigned long long)smin : smax; }
        return neg ? 0ull - v : v;
    }
    if (ovf) { g_errno = ERANGE; return ~0ull; }
    return neg ? 0ull - v : v;
}
long strtol(const char *s, char **e, int b) noexcept { return (long)conv(s, e, b, true, INT64_MIN, INT64_MAX); }
long long strtoll(const char *s, char **e, int b) noexcept { return (long long)conv(s, e, b, true, INT64_MIN, INT64_MAX); }
unsigned long strtoul(const char *s, char **e, int b) noexcept { return conv(s, e, b, false, 0, 0); }
unsigned long long strtoull(const char *s, char **e, int b) noexcept { return conv(s, e, b, false, 0, 0); }
long sx_c23a(const char *s, char **e, int b) __asm__("strtol"); long sx_c23a(const char *s, char **e, int b) { return (long)conv(s, e, b, true, INT64_MIN, INT64_MAX); }
long sx_c23b(const char *s, char **e, int b) __asm__("strtoll"); long sx_c23b(const char *s, char **e, int b) { return (long)conv(s, e, b, true, INT64_MIN, INT64_MAX); }
long sx_c23c(const char *s, char **e, int b) __asm__("strtoul"); long sx_c23c(const char *s, char **e, int b) { return (long)conv(s, e, b, false, 0, 0); }
long sx_c23d(const char *s, char **e, int b) __asm__("strtoull"); long sx_c23d(const char *s, char **e, int b) { return (long)conv(s, e, b, false, 0, 0); }
int sx_atoi(const char *s) __asm__("atoi"); int sx_atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
long sx_atol(const char *s) __asm__("atol"); long sx_atol(const char *s) { return strtol(s, nullptr, 10); }
// filesystem paths are carried as their text only
void _ZNSt10filesystem7__cxx114path5_ListC1Ev(void **p) { *p = nullptr; }
void _ZNSt10filesystem7__cxx114path5_ListC1ERKS2_(void **p, void **) { *p = nullptr; }
void _ZNKSt10filesystem7__cxx114path5_List13_Impl_deleterclEPNS2_5_ImplE(void *, void *) {}
void _ZNSt10filesystem7__cxx114path14_M_split_cmptsEv(void *) {}
// memory files and mappings: every mapping is fresh zeroed memory; only its first bytes are backed (an access beyond shows as a memory error)
int sx_memfd_create(const char *, unsigned) __asm__("memfd_create"); int sx_memfd_create(const char *, unsigned) { return 1000; }
int sx_ftruncate(int, long) __asm__("ftruncate"); int sx_ftruncate(int, long) { return 0; }
int sx_close(int) __asm__("close"); int sx_close(int) { return 0; }
void *sx_mmap_(void *, size_t n, int, int, int, long) __asm__("mmap"); void *sx_mmap_(void *, size_t n, int, int, int, long) { return calloc(1, n < 65536 ? n : 65536); }
int sx_munmap_(void *p, size_t) __asm__("munmap"); int sx_munmap_(void *p, size_t) { free(p); return 0; }
char *getenv(const char *) noexcept { return nullptr; }
int getpid_() __asm__("getpid"); int getpid_() { return 4242; }
}

// boost.container is linked as a library, too
namespace boost::container { void *dlmalloc_malloc(size_t n) { return malloc(n); } void dlmalloc_free(void *p) { free(p); } }
