// Independent description of the element formats: where every component's bits are and what they mean.
#pragma once
#include "vp.h"
#include <VFC/VertexFormat.h>
#include <VFC/VertexValue.h>
#include <cmath>
#include <cstring>
using namespace vfc;
struct Fmt { int n; int bits[4]; int pos[4]; unsigned size; };
static const Fmt FMTS[20] = {
	{1, {8}, {0}, 1}, {2, {8, 8}, {0, 8}, 2}, {3, {8, 8, 8}, {0, 8, 16}, 3}, {4, {8, 8, 8, 8}, {0, 8, 16, 24}, 4},
	{4, {10, 10, 10, 2}, {20, 10, 0, 30}, 4}, {4, {10, 10, 10, 2}, {0, 10, 20, 30}, 4},
	{1, {16}, {0}, 2}, {2, {16, 16}, {0, 16}, 4}, {3, {16, 16, 16}, {0, 16, 32}, 6}, {4, {16, 16, 16, 16}, {0, 16, 32, 48}, 8},
	{1, {32}, {0}, 4}, {2, {32, 32}, {0, 32}, 8}, {3, {32, 32, 32}, {0, 32, 64}, 12}, {4, {32, 32, 32, 32}, {0, 32, 64, 96}, 16},
	{1, {64}, {0}, 8}, {2, {64, 64}, {0, 64}, 16}, {3, {64, 64, 64}, {0, 64, 128}, 24}, {4, {64, 64, 64, 64}, {0, 64, 128, 192}, 32},
	{3, {11, 11, 10}, {0, 11, 22}, 4}, {3, {9, 9, 9}, {0, 9, 18}, 4}};
enum { T_UN, T_SN, T_U, T_S, T_F };
inline bool fmtValid(int l, int t) {
	if (l < 0 || l >= 20 || t < 0 || t > 4) return false;
	if (l >= 18) return t == T_F;
	if (l >= 10) return t >= T_U;
	return l >= 6 || t != T_F;
}
// component i of the element at p, as an unsigned code (little-endian formats)
inline uint64_t fmtCode(const unsigned char *p, int l, int i) {
	const Fmt &f = FMTS[l]; unsigned b = (unsigned)f.pos[i];
	if (f.bits[i] >= 8 && b % 8 == 0 && f.bits[i] % 8 == 0) { uint64_t v = 0; for (int k = 0; k < f.bits[i] / 8; ++k) v |= (uint64_t)p[b / 8 + (unsigned)k] << (8 * k); return v; }
	uint32_t v = (uint32_t)p[0] | (uint32_t)p[1] << 8 | (uint32_t)p[2] << 16 | (uint32_t)p[3] << 24;
	return (v >> b) & ((1u << f.bits[i]) - 1);
}
inline int64_t fmtSigned(uint64_t c, int bits) { return bits == 64 ? (int64_t)c : (int64_t)(c << (64 - bits)) >> (64 - bits); }
inline uint64_t dbits(double d) { uint64_t u; std::memcpy(&u, &d, 8); return u; }
inline double fromBits(uint64_t u) { double d; std::memcpy(&d, &u, 8); return d; }
inline bool same(double a, double b) { return dbits(a) == dbits(b); }
inline bool isNan(double d) { return d != d; }
inline bool isFinite(double d) { return (dbits(d) >> 52 & 0x7FF) != 0x7FF; }
// a equals b up to tol (identical values, infinities included, always do)
inline bool nearTo(double a, double b, double tol) { double d = a - b; return same(a, b) | ((d <= tol) & (d >= -tol)); }
#define LAY(l) static_cast<ElementLayout>(l)
#define TYP(t) static_cast<ElementType>(t)
