// Models of the libc / libstdc++ functions that live outside the headers, for symbolic execution.
#include <bits/hashtable_policy.h>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ios>
#include <list>
#include <locale>
#include <map>
#include <new>
#include <optional>
#include <set>
#include <stdexcept>
#include <streambuf>
#include <string>
#include <system_error>
#include <typeinfo>
#include <functional>
#include <variant>
#include <any>
#include <memory>
#include <iostream>
#include <unordered_map>
#include "sx.h"
#define USED __attribute__((used))

// ---- libc -----------------------------------------------------------------
extern "C" {
USED size_t strlen(const char *s) { size_t n = 0; while (s[n]) n++; return n; }
USED size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) n++; return n; }
USED int strcmp(const char *a, const char *b)
{
    for (;; a++, b++) {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
}
USED int strncmp(const char *a, const char *b, size_t n)
{
    for (; n; a++, b++, n--) {
        unsigned char x = *a, y = *b;
        if (x != y) return x < y ? -1 : 1;
        if (!x) return 0;
    }
    return 0;
}
USED int tolower(int c) { return c + (((unsigned)(c - 'A') < 26u) ? 32 : 0); }
USED int toupper(int c) { return c - (((unsigned)(c - 'a') < 26u) ? 32 : 0); }
USED int isupper(int c) { return (unsigned)(c - 'A') < 26u; }
USED int islower(int c) { return (unsigned)(c - 'a') < 26u; }
USED int isalpha(int c) { return ((unsigned)((c | 32) - 'a') < 26u); }
USED int isdigit(int c) { return (unsigned)(c - '0') < 10u; }
USED int isalnum(int c) { return isalpha(c) | isdigit(c); }
USED int isspace(int c) { return (c == ' ') | ((unsigned)(c - 9) < 5u); }
USED int isprint(int c) { return (unsigned)(c - 32) < 95u; }
USED int isxdigit(int c) { return isdigit(c) | ((unsigned)((c | 32) - 'a') < 6u); }
USED int isblank(int c) { return (c == 32) | (c == 9); }
USED int iscntrl(int c) { return ((unsigned)c < 32u) | (c == 127); }
USED int isgraph(int c) { return (unsigned)(c - 33) < 94u; }
USED int ispunct(int c) { return isgraph(c) & !isalnum(c); }
USED int strcasecmp(const char *a, const char *b)
{
    for (;; a++, b++) {
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if (x != y) return x - y;
        if (!x) return 0;
    }
}
USED int strncasecmp(const char *a, const char *b, size_t n)
{
    for (; n; a++, b++, n--) {
        int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b);
        if (x != y) return x - y;
        if (!x) return 0;
    }
    return 0;
}
USED void *sxl_memchr(const void *p, int c, size_t n) __asm__("memchr");
USED void *sxl_memchr(const void *p, int c, size_t n)
{
    const unsigned char *s = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++)
        if (s[i] == (unsigned char)c) return (void *)(s + i);
    return nullptr;
}
USED char *sxl_strchr(const char *s, int c) __asm__("strchr");
USED char *sxl_strchr(const char *s, int c)
{
    for (;; s++) {
        if (*s == (char)c) return (char *)s;
        if (!*s) return nullptr;
    }
}
USED char *sxl_strrchr(const char *s, int c) __asm__("strrchr");
USED char *sxl_strrchr(const char *s, int c)
{
    char *r = nullptr;
    for (;; s++) {
        if (*s == (char)c) r = (char *)s;
        if (!*s) return r;
    }
}
USED char *sxl_strstr(const char *h, const char *n) __asm__("strstr");
USED char *sxl_strstr(const char *h, const char *n)
{
    for (;; h++) {
        size_t i = 0;
        while (n[i] && h[i] == n[i]) i++;
        if (!n[i]) return (char *)h;
        if (!*h) return nullptr;
    }
}
USED char *strcpy(char *d, const char *s) { char *r = d; while ((*d++ = *s++)) {} return r; }
USED char *strncpy(char *d, const char *s, size_t n)
{
    size_t i = 0;
    for (; i < n && s[i]; i++) d[i] = s[i];
    for (; i < n; i++) d[i] = 0;
    return d;
}
USED char *strcat(char *d, const char *s) { strcpy(d + strlen(d), s); return d; }
static int sx_errno;
USED int *__errno_location() { return &sx_errno; }
static unsigned long long strtoull_(const char *s, char **end, int base, bool &neg, bool &over)
{
    const char *p = s;
    while (isspace((unsigned char)*p)) p++;
    neg = false;
    over = false;
    if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
    if ((base == 0 || base == 16) && p[0] == '0' && (p[1] | 32) == 'x' && isxdigit((unsigned char)p[2])) { p += 2; base = 16; }
    else if (base == 0) base = *p == '0' ? 8 : 10;
    unsigned long long v = 0;
    bool any = false;
    for (;; p++) {
        int d;
        unsigned char c = *p;
        if (isdigit(c)) d = c - '0';
        else if (isalpha(c)) d = (c | 32) - 'a' + 10;
        else break;
        if (d >= base) break;
        any = true;
        unsigned long long nv;
        if (__builtin_mul_overflow(v, (unsigned long long)base, &nv) || __builtin_add_overflow(nv, (unsigned long long)d, &nv)) over = true;
        v = nv;
    }
    if (end) *end = (char *)(any ? p : s);
    return any ? v : 0;
}
USED long strtol(const char *s, char **e, int b)
{
    bool n, o;
    unsigned long long v = strtoull_(s, e, b, n, o);
    if (o || v > (n ? 0x8000000000000000ull : 0x7fffffffffffffffull)) { sx_errno = 34; return n ? (long)0x8000000000000000ull : 0x7fffffffffffffffl; }
    return n ? (long)-v : (long)v;
}
USED long long strtoll(const char *s, char **e, int b) { return strtol(s, e, b); }
USED unsigned long strtoul(const char *s, char **e, int b)
{
    bool n, o;
    unsigned long long v = strtoull_(s, e, b, n, o);
    if (o) { sx_errno = 34; return ~0ul; }
    return n ? -v : v;
}
USED unsigned long long strtoull(const char *s, char **e, int b) { return strtoul(s, e, b); }
USED int atoi(const char *s) { return (int)strtol(s, nullptr, 10); }
USED long atol(const char *s) { return strtol(s, nullptr, 10); }
double sx_dec2d(unsigned long long m, int exp);
USED double strtod(const char *s, char **end)
{
    static const double p10[] = {1e0, 1e1, 1e2, 1e3, 1e4, 1e5, 1e6, 1e7, 1e8, 1e9, 1e10, 1e11, 1e12, 1e13, 1e14, 1e15, 1e16, 1e17, 1e18, 1e19, 1e20, 1e21, 1e22};
    const char *p = s;
    while (isspace((unsigned char)*p)) p++;
    bool neg = false;
    if (*p == '+' || *p == '-') { neg = *p == '-'; p++; }
    unsigned long long m = 0;
    int exp = 0, digits = 0;
    bool any = false;
    while (isdigit((unsigned char)*p)) { any = true; if (m || *p != '0') digits++; m = m * 10 + (*p - '0'); p++; }
    if (*p == '.') {
        const char *q = p + 1;
        bool a2 = false;
        while (isdigit((unsigned char)*q)) { a2 = true; if (m || *q != '0') digits++; m = m * 10 + (*q - '0'); exp--; q++; }
        if (any || a2) p = q;
        any |= a2;
    }
    if (!any) { 
        auto word = [](const char *q, const char *w) {
            size_t n = 0;
            for (; w[n]; n++)
                if ((q[n] | 32) != w[n]) return (size_t)0;
            return n;
        };
        if (size_t n = word(p, "inf")) {
            p += n;
            p += word(p, "inity");
            if (end) *end = (char *)p;
            return neg ? -__builtin_inf() : __builtin_inf();
        }
        if (size_t n = word(p, "nan")) {
            p += n;
            if (*p == '(') {
                const char *q = p + 1;
                while (isalnum((unsigned char)*q) || *q == '_') q++;
                if (*q == ')') p = q + 1;
            }
            if (end) *end = (char *)p;
            return neg ? -__builtin_nan("") : __builtin_nan("");
        }
        if (end) *end = (char *)s; 
        return 0; 
    }
    if ((*p | 32) == 'x' && !m && digits == 0) sx_bound(); // hexadecimal is outside the model
    if ((*p | 32) == 'e') {
        const char *q = p + 1;
        bool en = false;
        if (*q == '+' || *q == '-') { en = *q == '-'; q++; }
        if (isdigit((unsigned char)*q)) {
            int x = 0;
            while (isdigit((unsigned char)*q)) { x = x * 10 + (*q - '0'); if (x > 400) x = 400; q++; }
            exp += en ? -x : x;
            p = q;
        }
    }
    double r = (double)(long long)m;
    if (digits > 15 || exp > 22 || exp < -22) {
        if (m != 0) {
            if (digits > 19 || sx_is_symbolic(m)) sx_bound();
            r = sx_dec2d(m, exp);
            if (r == __builtin_inf() || r < 2.2250738585072014e-308) sx_errno = 34;
        }
        exp = 0;
    }
    if (exp > 0) r *= p10[exp];
    else if (exp < 0) r /= p10[-exp];
    if (end) *end = (char *)p;
    return neg ? -r : r;
}
USED float strtof(const char *s, char **e) { return (float)strtod(s, e); }
USED double atof(const char *s) { return strtod(s, nullptr); }
USED int abs(int x) { return x < 0 ? -x : x; }
void sx_throw_bad_alloc() { throw std::bad_alloc(); }
USED int puts(const char *) { return 0; }
USED int putchar(int c) { return c; }
USED void *sx_keep_bad_alloc() { return (void *)&sx_throw_bad_alloc; }
}

// ---- qsort: insertion sort with the caller's comparator ----------------------
extern "C" USED void qsort(void *base, size_t n, size_t sz, int (*cmp)(const void *, const void *))
{
    char *b = (char *)base;
    for (size_t i = 1; i < n; i++)
        for (size_t j = i; j > 0 && cmp(b + (j - 1) * sz, b + j * sz) > 0; j--)
            for (size_t k = 0; k < sz; k++) { char t = b[(j - 1) * sz + k]; b[(j - 1) * sz + k] = b[j * sz + k]; b[j * sz + k] = t; }
}

// ---- exceptions -----------------------------------------------------------------
namespace std
{
exception::~exception() noexcept {}
const char *exception::what() const noexcept { return "std::exception"; }
bad_alloc::~bad_alloc() noexcept {}
const char *bad_alloc::what() const noexcept { return "std::bad_alloc"; }
bad_array_new_length::~bad_array_new_length() noexcept {}
const char *bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
bad_cast::~bad_cast() noexcept {}
const char *bad_cast::what() const noexcept { return "std::bad_cast"; }
bad_typeid::~bad_typeid() noexcept {}
const char *bad_typeid::what() const noexcept { return "std::bad_typeid"; }
bad_function_call::~bad_function_call() noexcept {}
const char *bad_function_call::what() const noexcept { return "bad_function_call"; }
bad_weak_ptr::~bad_weak_ptr() noexcept {}
const char *bad_weak_ptr::what() const noexcept { return "bad_weak_ptr"; }
static const char *dupstr(const char *s)
{
    size_t n = strlen(s);
    char *p = (char *)malloc(n + 1);
    for (size_t i = 0; i <= n; i++) p[i] = s[i];
    return p;
}
__cow_string::__cow_string() { _M_p = ""; }
__cow_string::__cow_string(const std::string &s) { _M_p = dupstr(s.c_str()); }
__cow_string::__cow_string(const char *s, size_t) { _M_p = dupstr(s); }
__cow_string::__cow_string(const __cow_string &o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(const __cow_string &o) noexcept { _M_p = o._M_p; return *this; }
__cow_string::~__cow_string() {}
__cow_string::__cow_string(__cow_string &&o) noexcept { _M_p = o._M_p; }
__cow_string &__cow_string::operator=(__cow_string &&o) noexcept { _M_p = o._M_p; return *this; }
#define EXC(cls, base)                                        \
    cls::cls(const string &s) : base(s) {}                    \
    cls::cls(const char *s) : base(s) {}                      \
    cls::~cls() noexcept {}
logic_error::logic_error(const string &s) : _M_msg(s) {}
logic_error::logic_error(const char *s) : _M_msg(s, 0) {}
logic_error::logic_error(logic_error &&o) noexcept : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(logic_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::logic_error(const logic_error &o) noexcept : _M_msg(o._M_msg) {}
logic_error &logic_error::operator=(const logic_error &o) noexcept { _M_msg = o._M_msg; return *this; }
logic_error::~logic_error() noexcept {}
const char *logic_error::what() const noexcept { return _M_msg._M_p; }
runtime_error::runtime_error(const string &s) : _M_msg(s) {}
runtime_error::runtime_error(const char *s) : _M_msg(s, 0) {}
runtime_error::runtime_error(runtime_error &&o) noexcept : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(runtime_error &&o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::runtime_error(const runtime_error &o) noexcept : _M_msg(o._M_msg) {}
runtime_error &runtime_error::operator=(const runtime_error &o) noexcept { _M_msg = o._M_msg; return *this; }
runtime_error::~runtime_error() noexcept {}
const char *runtime_error::what() const noexcept { return _M_msg._M_p; }
EXC(domain_error, logic_error)
EXC(invalid_argument, logic_error)
EXC(length_error, logic_error)
EXC(out_of_range, logic_error)
EXC(range_error, runtime_error)
EXC(overflow_error, runtime_error)
EXC(underflow_error, runtime_error)
void __throw_bad_exception() { throw runtime_error("bad_exception"); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_cast() { throw bad_cast(); }
void __throw_bad_typeid() { throw bad_typeid(); }
void __throw_logic_error(const char *s) { throw logic_error(s); }
void __throw_domain_error(const char *s) { throw domain_error(s); }
void __throw_invalid_argument(const char *s) { throw invalid_argument(s); }
void __throw_length_error(const char *s) { throw length_error(s); }
void __throw_out_of_range(const char *s) { throw out_of_range(s); }
void __throw_out_of_range_fmt(const char *s, ...) { throw out_of_range(s); }
void __throw_runtime_error(const char *s) { throw runtime_error(s); }
void __throw_range_error(const char *s) { throw range_error(s); }
void __throw_overflow_error(const char *s) { throw overflow_error(s); }
void __throw_underflow_error(const char *s) { throw underflow_error(s); }
void __throw_bad_function_call() { throw bad_function_call(); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
void __throw_ios_failure(const char *s) { throw runtime_error(s); }
} // namespace std
extern "C" void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
extern "C" void __cxa_bad_cast() { throw std::bad_cast(); }
extern "C" void __cxa_bad_typeid() { throw std::bad_typeid(); }

// ---- type_info -------------------------------------------------------------------
namespace std
{
type_info::~type_info() {}
bool type_info::__is_pointer_p() const { return false; }
bool type_info::__is_function_p() const { return false; }
bool type_info::__do_catch(const type_info *, void **, unsigned) const { return false; }
bool type_info::__do_upcast(const __cxxabiv1::__class_type_info *, void **) const { return false; }
} // namespace std

// ---- containers --------------------------------------------------------------------
namespace std
{
namespace __detail
{
void _List_node_base::swap(_List_node_base &x, _List_node_base &y) noexcept
{
    if (x._M_next != &x) {
        if (y._M_next != &y) {
            std::swap(x._M_next, y._M_next);
            std::swap(x._M_prev, y._M_prev);
            x._M_next->_M_prev = x._M_prev->_M_next = &x;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
        } else {
            y._M_next = x._M_next; y._M_prev = x._M_prev;
            y._M_next->_M_prev = y._M_prev->_M_next = &y;
            x._M_next = x._M_prev = &x;
        }
    } else if (y._M_next != &y) {
        x._M_next = y._M_next; x._M_prev = y._M_prev;
        x._M_next->_M_prev = x._M_prev->_M_next = &x;
        y._M_next = y._M_prev = &y;
    }
}
void _List_node_base::_M_transfer(_List_node_base *const first, _List_node_base *const last) noexcept
{
    if (this != last) {
        last->_M_prev->_M_next = this;
        first->_M_prev->_M_next = last;
        this->_M_prev->_M_next = first;
        _List_node_base *const tmp = this->_M_prev;
        this->_M_prev = last->_M_prev;
        last->_M_prev = first->_M_prev;
        first->_M_prev = tmp;
    }
}
void _List_node_base::_M_reverse() noexcept
{
    _List_node_base *tmp = this;
    do {
        std::swap(tmp->_M_next, tmp->_M_prev);
        tmp = tmp->_M_prev;
    } while (tmp != this);
}
void _List_node_base::_M_hook(_List_node_base *const p) noexcept
{
    this->_M_next = p;
    this->_M_prev = p->_M_prev;
    p->_M_prev->_M_next = this;
    p->_M_prev = this;
}
void _List_node_base::_M_unhook() noexcept
{
    _M_prev->_M_next = _M_next;
    _M_next->_M_prev = _M_prev;
}
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const
{
    static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53, 59, 61, 67, 71, 73, 79, 83, 89, 97, 103, 109, 113, 127, 137, 139, 149, 157, 167, 179, 193, 199, 211, 227, 241, 257, 277, 293, 313, 337, 359, 383, 409, 439, 467, 503, 541, 577, 619, 661, 709, 761, 823, 887, 953, 1031, 1109, 1193, 1289, 1381, 1493, 1613, 1741, 1879, 2029, 2179, 2357, 2549, 2753, 2971, 3209, 3469, 3739, 4027, 4349, 4703, 5087, 5503, 5953, 6427, 6949, 7517, 8123, 8783, 9497, 10273, 11113, 12011, 12983, 14033, 15173};
    if (n < 14) {
        static const unsigned char fast[] = {2, 2, 2, 3, 5, 5, 7, 7, 11, 11, 11, 11, 13, 13};
        if (n == 0) return 1;
        _M_next_resize = fast[n];
        return fast[n];
    }
    for (size_t p : primes)
        if (p >= n) { _M_next_resize = p; return p; }
    sx_bound();
}
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nbkt, size_t nelt, size_t nins) const
{
    if (nelt + nins > _M_next_resize) {
        size_t min = nelt + nins > (_M_next_resize ? 0 : 11) ? nelt + nins : 11;
        if (min >= nbkt) {
            size_t want = min + 1 > nbkt * 2 ? min + 1 : nbkt * 2;
            return {true, _M_next_bkt(want)};
        }
        _M_next_resize = nbkt;
        return {false, 0};
    }
    return {false, 0};
}
} // namespace __detail
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw()
{
    if (x->_M_right != 0) {
        x = x->_M_right;
        while (x->_M_left != 0) x = x->_M_left;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_right) { x = y; y = y->_M_parent; }
        if (x->_M_right != y) x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw()
{
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) x = x->_M_right;
    else if (x->_M_left != 0) {
        _Rb_tree_node_base *y = x->_M_left;
        while (y->_M_right != 0) y = y->_M_right;
        x = y;
    } else {
        _Rb_tree_node_base *y = x->_M_parent;
        while (x == y->_M_left) { x = y; y = y->_M_parent; }
        x = y;
    }
    return x;
}
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotl(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root)
{
    _Rb_tree_node_base *const y = x->_M_right;
    x->_M_right = y->_M_left;
    if (y->_M_left != 0) y->_M_left->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y;
    else x->_M_parent->_M_right = y;
    y->_M_left = x;
    x->_M_parent = y;
}
static void rotr(_Rb_tree_node_base *const x, _Rb_tree_node_base *&root)
{
    _Rb_tree_node_base *const y = x->_M_left;
    x->_M_left = y->_M_right;
    if (y->_M_right != 0) y->_M_right->_M_parent = x;
    y->_M_parent = x->_M_parent;
    if (x == root) root = y;
    else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y;
    else x->_M_parent->_M_left = y;
    y->_M_right = x;
    x->_M_parent = y;
}
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &header) throw()
{
    _Rb_tree_node_base *&root = header._M_parent;
    x->_M_parent = p; x->_M_left = 0; x->_M_right = 0; x->_M_color = _S_red;
    if (left) {
        p->_M_left = x;
        if (p == &header) { header._M_parent = x; header._M_right = x; }
        else if (p == header._M_left) header._M_left = x;
    } else {
        p->_M_right = x;
        if (p == header._M_right) header._M_right = x;
    }
    while (x != root && x->_M_parent->_M_color == _S_red) {
        _Rb_tree_node_base *const xpp = x->_M_parent->_M_parent;
        if (x->_M_parent == xpp->_M_left) {
            _Rb_tree_node_base *const y = xpp->_M_right;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
            } else {
                if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotr(xpp, root);
            }
        } else {
            _Rb_tree_node_base *const y = xpp->_M_left;
            if (y && y->_M_color == _S_red) {
                x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; xpp->_M_color = _S_red; x = xpp;
            } else {
                if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); }
                x->_M_parent->_M_color = _S_black; xpp->_M_color = _S_red; rotl(xpp, root);
            }
        }
    }
    root->_M_color = _S_black;
}
_Rb_tree_node_base *_Rb_tree_rebalance_for_erase(_Rb_tree_node_base *const z, _Rb_tree_node_base &header) throw()
{
    _Rb_tree_node_base *&root = header._M_parent;
    _Rb_tree_node_base *&leftmost = header._M_left;
    _Rb_tree_node_base *&rightmost = header._M_right;
    _Rb_tree_node_base *y = z, *x = 0, *xp = 0;
    if (y->_M_left == 0) x = y->_M_right;
    else if (y->_M_right == 0) x = y->_M_left;
    else {
        y = y->_M_right;
        while (y->_M_left != 0) y = y->_M_left;
        x = y->_M_right;
    }
    if (y != z) {
        z->_M_left->_M_parent = y;
        y->_M_left = z->_M_left;
        if (y != z->_M_right) {
            xp = y->_M_parent;
            if (x) x->_M_parent = y->_M_parent;
            y->_M_parent->_M_left = x;
            y->_M_right = z->_M_right;
            z->_M_right->_M_parent = y;
        } else
            xp = y;
        if (root == z) root = y;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = y;
        else z->_M_parent->_M_right = y;
        y->_M_parent = z->_M_parent;
        std::swap(y->_M_color, z->_M_color);
        y = z;
    } else {
        xp = y->_M_parent;
        if (x) x->_M_parent = y->_M_parent;
        if (root == z) root = x;
        else if (z->_M_parent->_M_left == z) z->_M_parent->_M_left = x;
        else z->_M_parent->_M_right = x;
        if (leftmost == z) {
            if (z->_M_right == 0) leftmost = z->_M_parent;
            else { leftmost = x; while (leftmost->_M_left) leftmost = leftmost->_M_left; }
        }
        if (rightmost == z) {
            if (z->_M_left == 0) rightmost = z->_M_parent;
            else { rightmost = x; while (rightmost->_M_right) rightmost = rightmost->_M_right; }
        }
    }
    if (y->_M_color != _S_red) {
        while (x != root && (x == 0 || x->_M_color == _S_black))
            if (x == xp->_M_left) {
                _Rb_tree_node_base *w = xp->_M_right;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotl(xp, root); w = xp->_M_right; }
                if ((w->_M_left == 0 || w->_M_left->_M_color == _S_black) && (w->_M_right == 0 || w->_M_right->_M_color == _S_black)) {
                    w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
                } else {
                    if (w->_M_right == 0 || w->_M_right->_M_color == _S_black) { w->_M_left->_M_color = _S_black; w->_M_color = _S_red; rotr(w, root); w = xp->_M_right; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_right) w->_M_right->_M_color = _S_black;
                    rotl(xp, root);
                    break;
                }
            } else {
                _Rb_tree_node_base *w = xp->_M_left;
                if (w->_M_color == _S_red) { w->_M_color = _S_black; xp->_M_color = _S_red; rotr(xp, root); w = xp->_M_left; }
                if ((w->_M_right == 0 || w->_M_right->_M_color == _S_black) && (w->_M_left == 0 || w->_M_left->_M_color == _S_black)) {
                    w->_M_color = _S_red; x = xp; xp = xp->_M_parent;
                } else {
                    if (w->_M_left == 0 || w->_M_left->_M_color == _S_black) { w->_M_right->_M_color = _S_black; w->_M_color = _S_red; rotl(w, root); w = xp->_M_left; }
                    w->_M_color = xp->_M_color; xp->_M_color = _S_black;
                    if (w->_M_left) w->_M_left->_M_color = _S_black;
                    rotr(xp, root);
                    break;
                }
            }
        if (x) x->_M_color = _S_black;
    }
    return y;
}
size_t _Hash_bytes(const void *p, size_t n, size_t seed)
{
    // any deterministic function of the bytes is a valid std::hash
    size_t h = seed;
    const unsigned char *s = (const unsigned char *)p;
    for (size_t i = 0; i < n; i++) h = h * 31 + s[i];
    return h;
}
size_t _Fnv_hash_bytes(const void *p, size_t n, size_t seed) { return _Hash_bytes(p, n, seed); }
} // namespace std

// ---- streams ------------------------------------------------------------------------
namespace std
{
ios_base::ios_base() noexcept
    : _M_precision(6), _M_width(0), _M_flags(skipws | dec), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(0), _M_word_zero(), _M_word_size(_S_local_word_size), _M_word(_M_local_word), _M_ios_locale()
{
}
ios_base::~ios_base() {}
void ios_base::_M_init() throw()
{
    _M_precision = 6;
    _M_width = 0;
    _M_flags = skipws | dec;
}
int ios_base::xalloc() throw()
{
    static int top = 4;
    return top++;
}
static ios_base::fmtflags dummyflags;
ios_base::_Words &ios_base::_M_grow_words(int ix, bool)
{
    static _Words pool[64];
    static int used = 0;
    if (ix >= 32 || used > 32) sx_bound();
    // one private block per stream, large enough for every xalloc index the program uses
    _Words *w = (_Words *)malloc(sizeof(_Words) * 32);
    for (int i = 0; i < 32; i++) { w[i]._M_pword = nullptr; w[i]._M_iword = 0; }
    for (int i = 0; i < _M_word_size; i++) w[i] = _M_word[i];
    _M_word = w;
    _M_word_size = 32;
    (void)pool;
    used++;
    return _M_word[ix];
}
void ios_base::_M_call_callbacks(event) throw() {}
void ios_base::_M_dispose_callbacks() throw() {}
locale::locale() throw() { _M_impl = nullptr; }
locale::locale(const locale &) throw() { _M_impl = nullptr; }
locale::~locale() throw() {}
const locale &locale::operator=(const locale &) throw() { return *this; }
const locale &locale::classic()
{
    static char buf[sizeof(locale)];
    return *(locale *)buf;
}
bool locale::operator==(const locale &) const throw() { return true; }
} // namespace std
// ---- shared_ptr / misc -----------------------------------------------------------------
extern "C" char __libc_single_threaded;
char __libc_single_threaded = 1;

// the clock: an arbitrary-but-fixed instant (no checked property depends on how time passes)
#include <chrono>
namespace std::chrono
{
inline namespace _V2
{
system_clock::time_point system_clock::now() noexcept { return time_point(duration(1700000000000000000l)); }
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(1000000000l)); }
}
}

namespace
{
struct sx_category : std::error_category
{
    const char *name() const noexcept override { return "system"; }
    std::string message(int) const override { return "error"; }
};
}
// the base class lives in libstdc++.so
namespace std
{
inline namespace _V2
{
error_category::~error_category() noexcept = default;
error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i, *this); }
bool error_category::equivalent(int i, const error_condition &c) const noexcept { return default_error_condition(i) == c; }
bool error_category::equivalent(const error_code &c, int i) const noexcept { return *this == c.category() && c.value() == i; }
const error_category &system_category() noexcept
{
    static sx_category c;
    return c;
}
}
}
extern "C" void *aligned_alloc(size_t, size_t);
extern "C" __attribute__((used)) int posix_memalign(void **p, size_t align, size_t n)
{
    *p = aligned_alloc(align, n ? n : 1);
    return *p ? 0 : 12;
}
#include <clocale>
extern "C" __attribute__((used)) struct lconv *localeconv()
{
    static char dot[] = ".", none[] = "";
    static struct lconv l;
    l.decimal_point = dot;
    l.thousands_sep = l.grouping = none;
    return &l;
}

#include <cstdarg>
extern "C" __attribute__((used)) int __isoc23_sscanf(const char *s, const char *f, ...)
{
    va_list ap;
    va_start(ap, f);
    int n = 0;
    const char *p = s;
    for (; *f; f++) {
        if (*f == ' ') {
            while (*p == ' ' || (*p >= 9 && *p <= 13)) p++;
            continue;
        }
        if (*f != '%') {
            if (*p != *f) break;
            p++;
            continue;
        }
        f++;
        bool l = *f == 'l';
        if (l) f++;
        char *end = nullptr;
        if (*f == 'f') {
            double d = strtod(p, &end);
            if (end == p) break;
            if (l) *va_arg(ap, double *) = d;
            else *va_arg(ap, float *) = (float)d;
        } else if (*f == 'd' && !l) {
            long d = strtol(p, &end, 10);
            if (end == p) break;
            *va_arg(ap, int *) = (int)d;
        } else
            sx_bound();
        p = end;
        n++;
    }
    va_end(ap);
    return n ? n : *p ? 0 : -1;
}
