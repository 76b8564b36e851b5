// Library functions that are not header-only, as code the executor can run (bitcode only, never in native builds).
#include <cstddef>
#include <cstdint>
#include <map>
#include <string>
#include <stdexcept>
#include <unordered_set>
extern "C" void vp_throw(const char *msg);
extern "C" {
size_t strlen(const char *s) { size_t n = 0; while (s[n]) ++n; return n; }
size_t strnlen(const char *s, size_t m) { size_t n = 0; while (n < m && s[n]) ++n; return n; }
int strcmp(const char *a, const char *b) { while (*a && *a == *b) { ++a; ++b; } return (int)(unsigned char)*a - (int)(unsigned char)*b; }
int strncmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { if (*a != *b) return (int)(unsigned char)*a - (int)(unsigned char)*b; if (!*a) return 0; } return 0; }
int tolower(int c) { return c + ((c >= 'A') & (c <= 'Z')) * 32; }
int toupper(int c) { return c - ((c >= 'a') & (c <= 'z')) * 32; }
int strcasecmp(const char *a, const char *b) { while (true) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; ++a; ++b; } }
int strncasecmp(const char *a, const char *b, size_t n) { for (; n; --n, ++a, ++b) { int x = tolower((unsigned char)*a), y = tolower((unsigned char)*b); if (x != y) return x - y; if (!x) return 0; } return 0; }
void *memchr(const void *p, int c, size_t n) { const unsigned char *s = (const unsigned char *)p; for (size_t i = 0; i < n; ++i) if (s[i] == (unsigned char)c) return (void *)(s + i); return nullptr; }
char *strchr(const char *s, int c) { for (;; ++s) { if (*s == (char)c) return (char *)s; if (!*s) return nullptr; } }
char *strrchr(const char *s, int c) { const char *r = nullptr; for (;; ++s) { if (*s == (char)c) r = s; if (!*s) return (char *)r; } }
int isalnum(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isalpha(int c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
int isspace(int c) { return c == ' ' || (c >= 9 && c <= 13); }
static int errnoCell = 0; int *__errno_location() { return &errnoCell; }
static double bitsd(uint64_t u) { double d; __builtin_memcpy(&d, &u, 8); return d; }
static uint64_t dbits(double d) { uint64_t u; __builtin_memcpy(&u, &d, 8); return u; }
static double ldexpSlow(double x, int e) { // exact power-of-two steps, correct for results that stay normal; gradual otherwise
	for (int i = 0; i < 3; ++i) { int k = e > 1000 ? 1000 : e < -1000 ? -1000 : e; x *= bitsd((uint64_t)(1023 + k) << 52); e -= k; }
	return x; }
double ldexp(double x, int e) {
	uint64_t u = dbits(x); int be = (int)(u >> 52) & 0x7ff;
	if ((u << 1) == 0) return x;
	if (((unsigned)be - 1u < 0x7feu) & (e < 4096) & (e > -4096) & ((unsigned)(be + e) - 1u < 0x7feu)) return bitsd(u + ((uint64_t)(int64_t)e << 52)); // normal in, normal out
	return ldexpSlow(x, e); }
double scalbn(double x, int e) { return ldexp(x, e); }
double frexp(double x, int *e) {
	uint64_t u = dbits(x); int be = (int)(u >> 52) & 0x7ff;
	if (be == 0x7ff || (u << 1) == 0) { *e = 0; return x; }
	if (be == 0) { x *= bitsd((uint64_t)(1023 + 64) << 52); u = dbits(x); *e = ((int)(u >> 52) & 0x7ff) - 1022 - 64; }
	else *e = be - 1022;
	return bitsd((u & 0x800fffffffffffffULL) | (1022ULL << 52)); }
int ilogb(double x) { int e; frexp(x, &e); return e - 1; }
float ldexpf(float x, int e) { return (float)ldexp((double)x, e); }
float frexpf(float x, int *e) { return (float)frexp((double)x, e); }
}
template class std::basic_string<char>; // every member, for whoever calls it
namespace std {
void __throw_bad_alloc() { vp_throw("bad_alloc"); __builtin_trap(); } void __throw_bad_array_new_length() { vp_throw("bad_array_new_length"); __builtin_trap(); }
void __throw_length_error(const char *) { vp_throw("length_error"); __builtin_trap(); } void __throw_logic_error(const char *) { vp_throw("logic_error"); __builtin_trap(); }
void __throw_out_of_range(const char *) { vp_throw("out_of_range"); __builtin_trap(); } void __throw_out_of_range_fmt(const char *, ...) { vp_throw("out_of_range"); __builtin_trap(); }
void __throw_invalid_argument(const char *) { vp_throw("invalid_argument"); __builtin_trap(); } void __throw_bad_function_call() { vp_throw("bad_function_call"); __builtin_trap(); }
void __throw_bad_cast() { vp_throw("bad_cast"); __builtin_trap(); }
size_t _Hash_bytes(const void *p, size_t n, size_t seed) { const unsigned char *s = (const unsigned char *)p; size_t h = seed ^ n; for (size_t i = 0; i < n; ++i) h = (h ^ s[i]) * 0x100000001b3ULL; return h; }
namespace __detail {
static const size_t primes[] = {2, 3, 5, 7, 11, 13, 17, 29, 59, 127, 257, 541, 1109, 2357, 5087, 10273, 20753, 42043, 85229, 172933, 351061, 712697};
size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { for (size_t p : primes) if (p >= n) { _M_next_resize = (size_t)(p * _M_max_load_factor); return p; } vp_throw("rehash bound"); __builtin_trap(); }
std::pair<bool, size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const {
	if (ne + ni > _M_next_resize) { double m = (double)(ne + ni) / (double)_M_max_load_factor; if ((size_t)m + 1 > nb) { size_t want = (size_t)m + 1; if (want < nb * 2) want = nb * 2; if (want < 13) want = 13; return {true, _M_next_bkt(want)}; } _M_next_resize = (size_t)((float)nb * _M_max_load_factor); return {false, 0}; }
	return {false, 0}; }
}
// red-black tree operations used by std::map/std::set (textbook algorithms)
_Rb_tree_node_base *_Rb_tree_increment(_Rb_tree_node_base *x) throw() { if (x->_M_right) { x = x->_M_right; while (x->_M_left) x = x->_M_left; return x; } auto y = x->_M_parent; while (x == y->_M_right) { x = y; y = y->_M_parent; } if (x->_M_right != y) x = y; return x; }
const _Rb_tree_node_base *_Rb_tree_increment(const _Rb_tree_node_base *x) throw() { return _Rb_tree_increment(const_cast<_Rb_tree_node_base *>(x)); }
_Rb_tree_node_base *_Rb_tree_decrement(_Rb_tree_node_base *x) throw() { if (x->_M_color == _S_red && x->_M_parent->_M_parent == x) return x->_M_right; if (x->_M_left) { auto y = x->_M_left; while (y->_M_right) y = y->_M_right; return y; } auto y = x->_M_parent; while (x == y->_M_left) { x = y; y = y->_M_parent; } return y; }
const _Rb_tree_node_base *_Rb_tree_decrement(const _Rb_tree_node_base *x) throw() { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base *>(x)); }
static void rotl(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto y = x->_M_right; x->_M_right = y->_M_left; if (y->_M_left) y->_M_left->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_left) x->_M_parent->_M_left = y; else x->_M_parent->_M_right = y; y->_M_left = x; x->_M_parent = y; }
static void rotr(_Rb_tree_node_base *x, _Rb_tree_node_base *&root) { auto y = x->_M_left; x->_M_left = y->_M_right; if (y->_M_right) y->_M_right->_M_parent = x; y->_M_parent = x->_M_parent; if (x == root) root = y; else if (x == x->_M_parent->_M_right) x->_M_parent->_M_right = y; else x->_M_parent->_M_left = y; y->_M_right = x; x->_M_parent = y; }
void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base *x, _Rb_tree_node_base *p, _Rb_tree_node_base &h) throw() {
	_Rb_tree_node_base *&root = h._M_parent; x->_M_parent = p; x->_M_left = nullptr; x->_M_right = nullptr; x->_M_color = _S_red;
	if (left) { p->_M_left = x; if (p == &h) { h._M_parent = x; h._M_right = x; } else if (p == h._M_left) h._M_left = x; } else { p->_M_right = x; if (p == h._M_right) h._M_right = x; }
	while (x != root && x->_M_parent->_M_color == _S_red) { auto g = x->_M_parent->_M_parent;
		if (x->_M_parent == g->_M_left) { auto y = g->_M_right; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_right) { x = x->_M_parent; rotl(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotr(g, root); } }
		else { auto y = g->_M_left; if (y && y->_M_color == _S_red) { x->_M_parent->_M_color = _S_black; y->_M_color = _S_black; g->_M_color = _S_red; x = g; } else { if (x == x->_M_parent->_M_left) { x = x->_M_parent; rotr(x, root); } x->_M_parent->_M_color = _S_black; g->_M_color = _S_red; rotl(g, root); } } }
	root->_M_color = _S_black; }
}
