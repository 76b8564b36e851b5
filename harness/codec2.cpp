// Half floats, packed small floats, element access, bounds: C04 - C08. params: 0 = CPU has F16C, 1 = layout, 2 = type, 3 = variant
#include "fmt.h"
#include <cstdlib>
extern "C" unsigned vp_cpu_ecx(void) { return vp_param(0) ? 0x20000000u : 0xDFFFFFFFu; }
namespace vfc { extern const bool hasHardwareHalfFloat; }
static double pow2(int e) { return fromBits((uint64_t)(1023 + e) << 52); } // normal results only
static uint32_t fbits(float f) { uint32_t u; std::memcpy(&u, &f, 4); return u; }

// ---- C04: 16-bit floats
static double halfValue(uint32_t c) { // exact value of a half that is not NaN, from its fields
	uint32_t e = c >> 10 & 31, m = c & 1023; uint32_t mm = e ? m | 1024 : m; uint32_t ee = e ? e : 1;
	double v = (double)mm * fromBits((uint64_t)(1023 - 25 + ee) << 52);          // mm * 2^(ee - 25)
	double inf = fromBits(0x7FFull << 52); double r = e == 31 ? inf : v;
	return fromBits(dbits(r) | (uint64_t)(c >> 15 & 1) << 63);
}
static bool halfNan(uint32_t c) { return ((c & 0x7C00) == 0x7C00) & ((c & 0x3FF) != 0); }
extern "C" void h_c04_flag() { vp_assert(vfc::hasHardwareHalfFloat == (vp_param(0) != 0), "hardware half floats are used exactly when the CPU has them"); vp_cover("flag"); }
extern "C" void h_c04_dec() {
	int l = (int)vp_param(1); const Fmt &f = FMTS[l]; unsigned char buf[8]; vp_sym(buf, f.size, "data"); VertexValue v(7, 7, 7, 7);
	vp_assert(v.fromData(buf, LAY(l), TYP(T_F)), "a half float element is read");
	for (int i = 0; i < f.n; ++i) { uint32_t c = (uint32_t)fmtCode(buf, l, i); double d = v[(unsigned)i];
		vp_assert(halfNan(c) ? d != d : same(d, halfValue(c)), "half decodes to its value"); }
	for (int i = f.n; i < 4; ++i) vp_assert(same(v[(unsigned)i], i == 3 ? 1.0 : 0.0), "missing components default");
	vp_cover("half decoded");
}
// is the half c nearest (either one on a tie) to the float f?
static bool halfNearest(float f, uint32_t c) {
	uint32_t u = fbits(f), a = u & 0x7FFFFFFF, mag = c & 0x7FFF; uint32_t e = a >> 23; e = e ? e : 1; uint32_t m = (a & 0x7FFFFF) | (a >> 23 ? 0x800000u : 0u);
	// floor code and what is left, in units of 2^-sh of a code
	uint32_t sh = e >= 113 ? 13 : 13 + (113 - e); sh = sh > 31 ? 31 : sh;
	uint32_t fl = e >= 113 ? ((e - 112) << 10) + ((m >> 13) & 1023) : m >> sh; uint32_t rem = m & ((1u << sh) - 1), half = 1u << (sh - 1);
	uint32_t lo = fl, hi = rem ? fl + 1 : fl;
	bool ok = ((mag == lo) & (rem <= half)) | ((mag == hi) & (rem >= half)) | ((rem == 0) & (mag == lo));
	bool big = a >= 0x47800000;                                             // 65536 and more, infinity included
	ok = big ? mag == 0x7C00 : ok;
	return ok & ((mag == 0) | ((c >> 15) == (u >> 31)));
}
extern "C" void h_c04_enc() {
	int l = (int)vp_param(1); const Fmt &f = FMTS[l]; unsigned char out[16]; std::memset(out, 0xA5, sizeof out); VertexValue v; double in[4]; bool wide = vp_param(2) != 0;
	for (unsigned i = 0; i < 4; ++i) { in[i] = wide ? vp_f64("value") : (double)vp_f32("value"); vp_assume(in[i] == in[i]); v[i] = in[i]; }
	vp_assert(v.toData(out, LAY(l), TYP(T_F)), "a half float element is written");
	for (int i = 0; i < f.n; ++i) vp_assert(halfNearest((float)in[i], (uint32_t)fmtCode(out, l, i)), "nearest half is stored");
	vp_cover("half encoded");
}
extern "C" void h_c04_rt() {
	int l = (int)vp_param(1); const Fmt &f = FMTS[l]; unsigned char a[8], b[16]; std::memset(b, 0xA5, sizeof b); vp_sym(a, f.size, "data"); VertexValue v;
	for (int i = 0; i < f.n; ++i) vp_assume(!halfNan((uint32_t)fmtCode(a, l, i)));
	vp_assert(v.fromData(a, LAY(l), TYP(T_F)) && v.toData(b, LAY(l), TYP(T_F)), "read and written");
	for (int i = 0; i < f.n; ++i) vp_assert(fmtCode(a, l, i) == fmtCode(b, l, i), "half survives decode and encode");
	vp_cover("half round trip");
}

// ---- C05: packed small floats
static double smallFloat(uint32_t c, int mb) { uint32_t e = c >> mb, m = c & ((1u << mb) - 1); uint32_t mm = e ? m | 1u << mb : m; uint32_t ee = e ? e : 1; return (double)mm * fromBits((uint64_t)(1023 - 15 - mb + (int)ee) << 52); }
static int mbOf(int i) { return i == 2 ? 5 : 6; }
extern "C" void h_c05_dec() {
	int l = (int)vp_param(1); unsigned char buf[4]; vp_sym(buf, 4, "data"); VertexValue v(7, 7, 7, 7); uint32_t u; std::memcpy(&u, buf, 4);
	vp_assert(v.fromData(buf, LAY(l), TYP(T_F)), "a packed float element is read");
	for (int i = 0; i < 3; ++i) { uint32_t c = (uint32_t)fmtCode(buf, l, i); double d = v[(unsigned)i];
		if (l == 18) { uint32_t e = c >> mbOf(i); vp_assert((e == 31) | same(d, smallFloat(c, mbOf(i))), "component decodes to its value"); }
		else { double w = (double)c * fromBits((uint64_t)(1023 - 24 + (u >> 27)) << 52); vp_assert(same(d, w), "component decodes to its value"); } }
	vp_assert(same(v[3], 1.0), "W is 1"); vp_cover("packed float decoded");
}
// c is a representable neighbour of the finite v (v itself if representable, 0 below, the largest finite value above)
static bool smallNeighbour(double v, uint32_t c, int mb) {
	uint64_t u = dbits(v); int E = (int)(u >> 52 & 0x7FF) - 1023; uint64_t m = (u & 0xFFFFFFFFFFFFFull) | 0x10000000000000ull; uint32_t top = (31u << mb) - 1;
	bool den = E < -14; int sh = den ? 52 - mb + (-14 - E) : 52 - mb; sh = sh > 63 ? 63 : sh;
	uint64_t q = m >> sh; bool exact = (q << sh) == m;
	uint32_t fl = den ? (uint32_t)q : ((uint32_t)(E + 15) << mb) + ((uint32_t)q & ((1u << mb) - 1));
	bool mid = (c == fl) | (!exact & (c == fl + 1) & (fl + 1 <= top));
	bool big = v >= smallFloat(top, mb);
	return v <= 0 ? c == 0 : big ? c == top : mid;
}
extern "C" void h_c05_enc() {
	unsigned char out[4] = {0xA5, 0xA5, 0xA5, 0xA5}; VertexValue v; double in[4];
	long only = vp_param(3); // the component that takes every value (-1: all of them); the others are in [1, 2)
	for (unsigned i = 0; i < 4; ++i) { in[i] = vp_f64("value"); vp_assume(isFinite(in[i])); if (only >= 0 && (unsigned)only != i) vp_assume(dbits(in[i]) >> 52 == 1023); v[i] = in[i]; }
	vp_assert(v.toData(out, LAY(18), TYP(T_F)), "a packed float element is written");
	for (int i = 0; i < 3; ++i) vp_assert(smallNeighbour(in[i], (uint32_t)fmtCode(out, 18, i), mbOf(i)), "a neighbour of the value is stored");
	vp_cover("packed float encoded");
}
static bool gridNeighbour(double x, uint32_t c, int e) { // is c * 2^(e - 24) next to x, 0 <= x < 65536?
	uint64_t b = dbits(x); int E = (int)(b >> 52 & 0x7FF) - 1023; uint64_t m = (b & 0xFFFFFFFFFFFFFull) | 0x10000000000000ull; int sh = 28 + e - E; sh = sh > 63 ? 63 : sh < 0 ? 0 : sh;
	uint64_t q = m >> sh; bool exact = (q << sh) == m; return (b << 1) == 0 ? c == 0 : (c == q) | (!exact & (c == q + 1));
}
extern "C" void h_c05_shared() {
	unsigned char out[4] = {0xA5, 0xA5, 0xA5, 0xA5}; VertexValue v; double in[4];
	unsigned big0 = (unsigned)vp_param(3), other = (unsigned)vp_param(4); long e0 = vp_param(5), e1 = vp_param(6); // which component is the largest, and the exponents it takes
	for (unsigned i = 0; i < 4; ++i) { in[i] = vp_f64("value"); vp_assume(isFinite(in[i])); }
	if (other < 3) in[3 - big0 - other] = in[other]; // two different values only
	for (unsigned i = 0; i < 3; ++i) vp_assume(in[i] <= in[big0]);
	uint64_t e = dbits(in[big0]) >> 52; // sign and exponent
	if (e0 == 0) vp_assume((e >= 2048) | (e < (uint64_t)e1)); else vp_assume((e >= (uint64_t)e0) & (e < (uint64_t)e1));
	if (e0 && e1 < 2000) { e = vp_fork(e); uint64_t u = (e << 52) | (dbits(in[big0]) & 0xFFFFFFFFFFFFFull); in[big0] = fromBits(u); }
	for (unsigned i = 0; i < 4; ++i) v[i] = in[i];
	vp_assert(v.toData(out, LAY(19), TYP(T_F)), "a shared exponent element is written");
	uint32_t u, big = 0; std::memcpy(&u, out, 4); u = (uint32_t)vp_fork(u >> 27) << 27;
	for (int i = 0; i < 3; ++i) { uint32_t c = (uint32_t)fmtCode(out, 19, i); double x = in[i]; x = x < 0 ? 0.0 : x; x = x > 65408.0 ? 65408.0 : x; big |= c;
		vp_assert(gridNeighbour(x, c, (int)(u >> 27)), "a neighbour of the value is stored in every component"); }
	vp_assert(((big & 256) != 0) | (u >> 27 == 0), "no precision is given away by the shared exponent");
	vp_cover("shared exponent encoded");
}
extern "C" void h_c05_rt() { // every element without infinity/NaN codes keeps its value
	int l = (int)vp_param(1); unsigned char a[4], b[4] = {0xA5, 0xA5, 0xA5, 0xA5}; vp_sym(a, 4, "data"); VertexValue v; uint32_t ua, ub, big = 0; std::memcpy(&ua, a, 4);
	for (int i = 0; i < 3; ++i) { uint32_t c = (uint32_t)fmtCode(a, l, i); big |= c; if (l == 18) vp_assume((c >> mbOf(i)) != 31 || (c & ((1u << mbOf(i)) - 1)) == 0); }
	vp_assert(v.fromData(a, LAY(l), TYP(T_F)) && v.toData(b, LAY(l), TYP(T_F)), "read and written"); std::memcpy(&ub, b, 4);
	if (l == 18) vp_assert(ua == ub, "element survives decode and encode");
	else { vp_assert(((big & 256) == 0) & (ua >> 27 != 0) | (ua == ub), "canonical element survives decode and encode");
		bool ok = true; uint32_t ea = ua >> 27, eb = ub >> 27; for (int i = 0; i < 3; ++i) ok = ok & ((fmtCode(a, l, i) << ea) == (fmtCode(b, l, i) << eb));
		vp_assert(ok, "element keeps its value"); }
	vp_cover("packed round trip");
}

// ---- C06: what is touched
extern "C" void h_c06() {
	int l = (int)vp_param(1); const Fmt &f = FMTS[l]; unsigned off = (unsigned)vp_param(2);
	for (int t = 0; t < 5; ++t) { if (!fmtValid(l, t)) continue;
		// exactly the element's bytes, in memory of its own
		unsigned char *p = (unsigned char *)std::malloc(f.size), *q = (unsigned char *)std::malloc(f.size + 24); VertexValue a, b;
		double in[4]; for (unsigned i = 0; i < 4; ++i) { in[i] = vp_f64("value"); if (t != T_F) vp_assume(in[i] == in[i]); a[i] = in[i]; b[i] = (int)i < f.n ? in[i] : 0.25; }
		// branching encoders: few symbolic components
		bool few = (l >= 6 && l < 10 && t == T_F && !vp_param(0)); if (few) for (unsigned i = 0; i < 4; ++i) if ((int)i != f.n - 1) a[i] = 1.5 + i, b[i] = (int)i < f.n ? 1.5 + i : 0.25;
		if (l >= 18) for (unsigned i = 0; i < 3; ++i) vp_assume(dbits(in[i]) >> 52 == 1023);
		std::memset(p, 0x5A, f.size); vp_sym(q, f.size + 24, "before"); unsigned char keep[80]; std::memcpy(keep, q, f.size + 24);
		vp_assert(a.toData(p, LAY(l), TYP(t)), "written"); vp_assert(b.toData(q + off, LAY(l), TYP(t)), "written");
		bool same_ = true, rest = true; for (unsigned i = 0; i < f.size; ++i) same_ = same_ & (p[i] == q[off + i]);
		for (unsigned i = 0; i < f.size + 24; ++i) if (i < off || i >= off + f.size) rest = rest & (q[i] == keep[i]);
		vp_assert(same_, "all bytes are set from the stored components only"); vp_assert(rest, "neighbouring bytes are left alone");
		if (few) { std::memset(p, 0x3C, f.size); vp_sym(p + f.size - 2, 2, "data"); } else vp_sym(p, f.size, "data"); std::memcpy(q + off, p, f.size); unsigned char was[32]; std::memcpy(was, p, f.size); VertexValue x(1, 2, 3, 4), y(5, 6, 7, 8);
		vp_assert(x.fromData(p, LAY(l), TYP(t)) && y.fromData(q + off, LAY(l), TYP(t)), "read");
		for (unsigned i = 0; i < 4; ++i) vp_assert(same(x[i], y[i]) | (isNan(x[i]) & isNan(y[i])), "the value read is a function of the element's bytes");
		bool un = true; for (unsigned i = 0; i < f.size; ++i) un = un & (was[i] == p[i]); vp_assert(un, "reading changes nothing"); std::free(p); std::free(q); }
	vp_cover("touched");
}
extern "C" void h_c06_bad() { // refused: null data, unknown layouts, types the layout cannot hold
	int l = (int)vp_param(1); unsigned char g[40]; vp_sym(g, 40, "before"); unsigned char keep[40]; std::memcpy(keep, g, 40);
	for (int t = -2; t < 9; ++t) { VertexValue v(1, 2, 3, 4); bool ok = fmtValid(l, t); if (!ok && l >= 10 && l < 18 && t >= 0 && t < 2) continue; // normalized 32/64-bit values are beyond what is promised
		if (ok) { vp_assert(!v.fromData(nullptr, LAY(l), TYP(t)), "null data is refused"); vp_assert(!v.toData(nullptr, LAY(l), TYP(t)), "null data is refused"); continue; }
		vp_assert(!v.fromData(g + 4, LAY(l), TYP(t)), "an invalid format is not read"); vp_assert(!v.toData(g + 4, LAY(l), TYP(t)), "an invalid format is not written");
		VertexValue lo(0, 0, 0, 0), hi(4, 4, 4, 4); vp_assert(!v.toData(g + 4, LAY(l), TYP(t), lo, hi), "an invalid format is not written with bounds");
		char none; vp_assert(!v.toData((&none) + 1, LAY(l), TYP(t)), "memory is not touched"); }
	bool un = true; for (int i = 0; i < 40; ++i) un = un & (g[i] == keep[i]); vp_assert(un, "a refused write leaves memory alone"); vp_cover("refused");
}

// ---- C07: bounds-normalized encoding
struct Box { double lo, hi; };
static const Box BOXES[] = {{0, 1}, {-1, 1}, {-2.5, 3.25}, {0.1, 0.7}, {-1000, -999.5}, {1e6, 3e6}, {5, 5}, {-0.25, -0.25}, {-3e38, 3e38}, {1e-3, 2e-3}, {-7, 0}, {0, 1e-13}, {0, 65535}};
static double normOf(double v, double lo, double hi) { return (v - lo) / (hi - lo); }
static bool normOk(double t01, uint64_t c, int bits, int t) { // t01 is where the value lies in the box
	double top = (double)((1u << bits) - 1); uint32_t u = t == T_SN ? (uint32_t)c ^ (1u << (bits - 1)) : (uint32_t)c; double x = t01 < 0 ? 0.0 : t01 > 1 ? 1.0 : t01;
	double d = x * top - (double)u; return (d <= 0.5 + 1e-6) & (d >= -0.5 - 1e-6);
}
static bool mid(double x) { return (x <= 1e100) & (x >= -1e100); }
extern "C" void h_c07_undo() { // concrete boxes, any value inside: the nearest code; interpolating with the decoded value gives the value back within half a step
	int l = (int)vp_param(1), t = (int)vp_param(2); const Fmt &f = FMTS[l]; Box bx[4]; for (unsigned i = 0; i < 4; ++i) bx[i] = BOXES[((unsigned)vp_param(3) + i) % (sizeof BOXES / sizeof *BOXES)];
	VertexValue v, lo, hi; for (unsigned i = 0; i < 4; ++i) { double x = bx[i].lo; if (bx[i].lo != bx[i].hi) { x = vp_f64("value"); vp_assume((x >= bx[i].lo) & (x <= bx[i].hi)); } v[i] = x; lo[i] = bx[i].lo; hi[i] = bx[i].hi; }
	unsigned char out[48]; std::memset(out, 0xA5, sizeof out); vp_assert(v.toData(out, LAY(l), TYP(t), lo, hi), "written");
	for (int i = 0; i < f.n; ++i) { double a = bx[i].lo, b = bx[i].hi, top = (double)((1u << f.bits[i]) - 1); uint64_t c = fmtCode(out, l, i); if (a == b) continue;
		vp_assert(normOk(normOf(v[(unsigned)i], a, b), c, f.bits[i], t), "code nearest to the place in the box");
		uint32_t u = t == T_SN ? (uint32_t)c ^ (1u << (f.bits[i] - 1)) : (uint32_t)c; double x = a + (b - a) * ((double)u / top), d = v[(unsigned)i] - x, tol = (b - a) * (0.5 + 1e-6) / top;
		vp_assert((d <= tol) & (d >= -tol), "interpolating the box gives the value back within half a step"); }
	vp_cover("undone");
}
extern "C" void h_c07_ends() { // any box: its corners, and values outside
	int l = (int)vp_param(1), t = (int)vp_param(2), what = (int)vp_param(3); const Fmt &f = FMTS[l]; VertexValue v, lo, hi;
	for (unsigned i = 0; i < 4; ++i) { double a = vp_f64("min"), b = vp_f64("max"); vp_assume(mid(a) & mid(b)); if (what == 4) vp_assume(a == b); else { vp_assume(b > a); vp_assume(b - a > 1e-15); } lo[i] = a; hi[i] = b;
		double x = what == 0 || what == 4 ? a : what == 1 ? b : vp_f64("value"); if (what == 2) vp_assume(mid(x) & (x < a)); if (what == 3) vp_assume(mid(x) & (x > b)); v[i] = x; }
	unsigned char out[48]; std::memset(out, 0xA5, sizeof out); vp_assert(v.toData(out, LAY(l), TYP(t), lo, hi), "written");
	for (int i = 0; i < f.n; ++i) { uint64_t c = fmtCode(out, l, i); uint32_t u = t == T_SN ? (uint32_t)c ^ (1u << (f.bits[i] - 1)) : (uint32_t)c, top = (1u << f.bits[i]) - 1;
		if (what == 0 || what == 2) vp_assert(u == 0, "the minimum and what lies below map to the lowest code");
		else if (what != 4) vp_assert(u == top, "the maximum and what lies above map to the highest code"); }
	vp_cover("ends");
}
extern "C" void h_c07_any() { // any box, any value: the code of the place in the box
	int l = (int)vp_param(1), t = (int)vp_param(2); const Fmt &f = FMTS[l]; VertexValue v, lo, hi, n; double place[4];
	for (unsigned i = 0; i < 4; ++i) { double a = vp_f64("min"), b = vp_f64("max"), x = vp_f64("value"); vp_assume(mid(a) & mid(b) & mid(x)); vp_assume(b > a); vp_assume(b - a > 1e-15); lo[i] = a; hi[i] = b; v[i] = x;
		place[i] = normOf(x, a, b); n[i] = t == T_SN ? place[i] * 2.0 - 1.0 : place[i]; }
	unsigned char out[48], ref[48]; std::memset(out, 0xA5, sizeof out); std::memset(ref, 0xA5, sizeof ref);
	vp_assert(v.toData(out, LAY(l), TYP(t), lo, hi), "written"); vp_assert(n.toData(ref, LAY(l), TYP(t)), "written");
	for (int i = 0; i < f.n; ++i) { uint64_t c = fmtCode(out, l, i), r = fmtCode(ref, l, i); // the same code as storing the place itself (see C02), or as near
		vp_assert((c == r) | normOk(place[i], c, f.bits[i], t), "code nearest to the place in the box"); }
	vp_cover("any box");
}
extern "C" void h_c07_plain() { // no effect on other types
	int l = (int)vp_param(1), t = (int)vp_param(2); VertexValue v, lo, hi; for (unsigned i = 0; i < 4; ++i) { double x = vp_f64("value"); if (t != T_F) vp_assume(x == x); v[i] = x; lo[i] = vp_f64("min"); hi[i] = vp_f64("max"); if (l >= 18) vp_assume(dbits(x) >> 52 == 1023); }
	unsigned char a[48], b[48]; std::memset(a, 0xA5, sizeof a); std::memset(b, 0xA5, sizeof b);
	vp_assert(v.toData(a, LAY(l), TYP(t), lo, hi) && v.toData(b, LAY(l), TYP(t)), "written"); bool eq = true; for (unsigned i = 0; i < 48; ++i) eq = eq & (a[i] == b[i]);
	vp_assert(eq, "bounds have no effect"); vp_cover("plain");
}

// ---- C08: expanding bounds
extern "C" void h_c08_step() {
	VertexValue lo, hi, v; double a[4], b[4], x[4];
	for (unsigned i = 0; i < 4; ++i) { a[i] = vp_f64("min"); b[i] = vp_f64("max"); x[i] = vp_f64("value"); vp_assume((a[i] == a[i]) & (b[i] == b[i])); lo[i] = a[i]; hi[i] = b[i]; v[i] = x[i]; }
	v.expandBounds(lo, hi);
	for (unsigned i = 0; i < 4; ++i) { double wl = x[i] < a[i] ? x[i] : a[i], wh = x[i] > b[i] ? x[i] : b[i];
		vp_assert(lo[i] == wl, "minimum is the smaller of old minimum and value"); vp_assert(hi[i] == wh, "maximum is the larger of old maximum and value");
		vp_assert((lo[i] <= a[i]) & (hi[i] >= b[i]), "the box never shrinks"); vp_assert(same(v[i], x[i]) | isNan(x[i]), "the value is unchanged"); }
	vp_cover("expanded");
}
extern "C" void h_c08_init() {
	int n = (int)vp_param(1); VertexValue lo = VertexValue::initialBoundsMin, hi = VertexValue::initialBoundsMax; double mn[4], mx[4]; bool any[4] = {false, false, false, false}; for (int i = 0; i < 4; ++i) mn[i] = mx[i] = 0;
	for (int k = 0; k < n; ++k) { VertexValue v; for (unsigned i = 0; i < 4; ++i) { double x = vp_f64("value"); vp_assume(isFinite(x) | isNan(x)); v[i] = x; bool num = x == x;
			mn[i] = num & (!any[i] | (x < mn[i])) ? x : mn[i]; mx[i] = num & (!any[i] | (x > mx[i])) ? x : mx[i]; any[i] = any[i] | num; }
		v.expandBounds(lo, hi); }
	for (unsigned i = 0; i < 4; ++i) { vp_assert(!any[i] | (lo[i] == mn[i]), "minimum is the smallest value seen"); vp_assert(!any[i] | (hi[i] == mx[i]), "maximum is the largest value seen"); vp_assert(any[i] | (lo[i] > hi[i]), "nothing seen: empty box"); }
	vp_cover("sequence");
}
