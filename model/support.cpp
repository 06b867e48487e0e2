// Parts of the C and C++ run-time libraries that are not in headers, for the executor of the intermediate representation.
#include <bits/ios_base.h>
#include <bits/stl_tree.h>

#include <cstddef>
#include <cstdint>
#include <string>
#include <cstdlib>
#include <locale>
#include <new>

namespace std {
locale::locale() noexcept : _M_impl(nullptr) {}
locale::locale(const locale&) noexcept : _M_impl(nullptr) {}
locale::~locale() noexcept {}
ios_base::ios_base() noexcept
    : _M_precision(6), _M_width(0), _M_flags(dec | skipws), _M_exception(goodbit), _M_streambuf_state(goodbit), _M_callbacks(nullptr),
      _M_word_size(0), _M_word(nullptr) {}
ios_base::~ios_base() {}

// red-black trees, here without balancing
static _Rb_tree_node_base* inc(_Rb_tree_node_base* x) {
    if (x->_M_right) {
        x = x->_M_right;
        while (x->_M_left) x = x->_M_left;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_right) {
        x = y;
        y = y->_M_parent;
    }
    return x->_M_right != y ? y : x;
}
static _Rb_tree_node_base* dec_(_Rb_tree_node_base* x) {
    if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right;
    if (x->_M_left) {
        x = x->_M_left;
        while (x->_M_right) x = x->_M_right;
        return x;
    }
    _Rb_tree_node_base* y = x->_M_parent;
    while (x == y->_M_left) {
        x = y;
        y = y->_M_parent;
    }
    return y;
}
_Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) throw() { return inc(x); }
const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) throw() { return inc(const_cast<_Rb_tree_node_base*>(x)); }
_Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) throw() { return dec_(x); }
const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) throw() { return dec_(const_cast<_Rb_tree_node_base*>(x)); }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) throw() {
    x->_M_parent = p;
    x->_M_left = x->_M_right = nullptr;
    x->_M_color = _S_black;
    if (left) {
        p->_M_left = x;
        if (p == &h) {
            h._M_parent = x;
            h._M_right = x;
        } else if (p == h._M_left)
            h._M_left = x;
    } else {
        p->_M_right = x;
        if (p == h._M_right) h._M_right = x;
    }
}
template class basic_string<char>;
}  // namespace std

extern "C" {
// what the cpuid instruction answers: leaf, subleaf (all ones for any), eax, ebx, ecx, edx
std::uint32_t verif_cpuid_table[3][6] = {{0, ~0u, 7, 0, 0, 0}, {1, ~0u, 0, 0, 0x18180201u, 0}, {7, 0, 0, 0x20u, 0, 0}};
std::uint32_t verif_backends = 0;  // the hashing functions that ran
std::size_t strlen(const char* s) {
    std::size_t n = 0;
    while (s[n]) ++n;
    return n;
}
int strcmp(const char* a, const char* b) {
    while (*a && *a == *b) ++a, ++b;
    return (unsigned char)*a - (unsigned char)*b;
}
void* memchr(const void* p, int c, std::size_t n) {
    auto* s = (const unsigned char*)p;
    for (std::size_t k = 0; k < n; ++k)
        if (s[k] == (unsigned char)c) return (void*)(s + k);
    return nullptr;
}
unsigned long strtoul(const char* s, char** end, int base) {
    const char* b = s;
    unsigned long v = 0;
    while (*s == ' ') ++s;
    if (base == 0) base = 10;
    if (base == 16 && s[0] == '0' && (s[1] == 'x' || s[1] == 'X')) s += 2;
    bool any = false;
    for (;; ++s) {
        unsigned char c = (unsigned char)*s;
        int d;
        if (c >= '0' && c <= '9') d = c - '0';
        else if (c >= 'a' && c <= 'z') d = c - 'a' + 10;
        else if (c >= 'A' && c <= 'Z') d = c - 'A' + 10;
        else break;
        if (d >= base) break;
        v = v * base + d;
        any = true;
    }
    if (end) *end = (char*)(any ? s : b);
    return v;
}
unsigned long long strtoull(const char* s, char** e, int base) { return strtoul(s, e, base); }
long strtol(const char* s, char** e, int base) { return (long)strtoul(s, e, base); }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isupper(int c) { return c >= 'A' && c <= 'Z'; }
int islower(int c) { return c >= 'a' && c <= 'z'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
int isalnum(int c) { return isalpha(c) || isdigit(c); }
int tolower(int c) { return isupper(c) ? c + 32 : c; }
int toupper(int c) { return islower(c) ? c - 32 : c; }
int* __errno_location() {
    static int e;
    return &e;
}
}
