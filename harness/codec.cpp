// Element encoding and decoding: C01 - C08. params: 0 = CPU has F16C, 1 = layout, 2 = type, 3 = component / variant
#include "fmt.h"
extern "C" unsigned vp_cpu_ecx(void) { return vp_param(0) ? 0xFFFFFFFFu : 0xDFFFFFFFu; }

// the value of a code in a non-float or 32/64-bit float format, and whether v equals it
static bool decodedOk(double v, uint64_t c, int bits, int t) { // without branches, so that one query decides it
	switch (t) {
		case T_U: return same(v, (double)c);
		case T_S: return same(v, (double)fmtSigned(c, bits));
		case T_UN: { uint32_t k = (uint32_t)c, max = (1u << bits) - 1; return nearTo(v, (double)k / (double)max, 1e-14) & ((k != 0) | (v == 0.0)) & ((k != max) | (v == 1.0)); }
		case T_SN: { uint32_t max = (1u << bits) - 1, k = (uint32_t)c ^ (1u << (bits - 1)); return nearTo(v, (double)k / (double)max * 2.0 - 1.0, 1e-14) & ((k != 0) | (v == -1.0)) & ((k != max) | (v == 1.0)); }
	}
	if (bits == 32) { uint32_t u = (uint32_t)c; float f; std::memcpy(&f, &u, 4); return (f != f) ? v != v : same(v, (double)f); }
	double d = fromBits(c); return (d != d) ? v != v : same(v, d);
}
static void c01(int l, int t, unsigned align) {
	const Fmt &f = FMTS[l]; unsigned char buf[48]; std::memset(buf, 0xA5, sizeof buf); vp_sym(buf + align, f.size, "data");
	VertexValue v(7, 7, 7, 7);
	vp_assert(v.fromData(buf + align, LAY(l), TYP(t)), "a valid element is read");
	for (int i = 0; i < f.n; ++i) vp_assert(decodedOk(v[(unsigned)i], fmtCode(buf + align, l, i), f.bits[i], t), "component decodes to its value");
	for (int i = f.n; i < 4; ++i) vp_assert(same(v[(unsigned)i], i == 3 ? 1.0 : 0.0), "missing components default");
	vp_cover("decoded");
}
extern "C" void h_c01() { int l = (int)vp_param(1); for (int t = 0; t < 5; ++t) if (fmtValid(l, t) && l < 18 && !(t == T_F && l < 10)) c01(l, t, (unsigned)vp_param(3)); }

// ---- C02
static double clampTo(double v, double lo, double hi) { return v < lo ? lo : v > hi ? hi : v; }
// does code k stand for the value nearest to v?
static bool encodedOk(double v, uint64_t c, int bits, int t) {
	switch (t) {
		case T_UN: { double top = (double)((1u << bits) - 1), p = clampTo(v, 0, 1) * top; double k = (double)(uint32_t)c;
			if ((uint32_t)c == (uint32_t)std::round(p)) return true;
			return p - k <= 0.5 + 1e-9 && k - p <= 0.5 + 1e-9; }
		case T_SN: { double top = (double)((1u << bits) - 1), p = (clampTo(v, -1, 1) * 0.5 + 0.5) * top; uint32_t u = (uint32_t)c ^ (1u << (bits - 1)); double k = (double)u;
			if (u == (uint32_t)std::round(p)) return true;
			return p - k <= 0.5 + 1e-9 && k - p <= 0.5 + 1e-9; }
		case T_U: { double lim = bits == 64 ? 18446744073709551616.0 : (double)(1ull << bits);
			if (v >= lim) return c == (bits == 64 ? ~0ull : (1ull << bits) - 1);
			if (v <= 0) return c == 0;
			if (v >= 4503599627370496.0) return c == (uint64_t)v;   // an integer already
			{ double r = std::round(v); if (r >= lim) r = lim - 1; if (c == (uint64_t)r) return true; }
			if (c >> 53) return false;
			double k = (double)c; if (v >= lim - 1) return k == lim - 1; return v - k <= 0.5 && k - v <= 0.5; }
		case T_S: { double lim = bits == 64 ? 9223372036854775808.0 : (double)(1ull << (bits - 1)); int64_t s = fmtSigned(c, bits);
			if (v >= lim) return s == (bits == 64 ? INT64_MAX : (int64_t)(1ull << (bits - 1)) - 1);
			if (v <= -lim) return s == (bits == 64 ? INT64_MIN : -(int64_t)(1ull << (bits - 1)));
			if (v >= 4503599627370496.0 || v <= -4503599627370496.0) return s == (int64_t)v;
			{ double r = std::round(v); if (r >= lim) r = lim - 1; if (s == (int64_t)r) return true; }
			if (s >= (1ll << 53) || s <= -(1ll << 53)) return false;
			double k = (double)s; if (bits < 64 && v >= lim - 1) return k == lim - 1; return v - k <= 0.5 && k - v <= 0.5; }
	}
	if (bits == 32) { float f = (float)v; uint32_t u; std::memcpy(&u, &f, 4); return u == (uint32_t)c; }
	return c == dbits(v);
}
static void c02(int l, int t) {
	const Fmt &f = FMTS[l]; unsigned char out[48]; std::memset(out, 0xA5, sizeof out);
	double in[4]; VertexValue v; for (unsigned i = 0; i < 4; ++i) { in[i] = vp_f64("value"); if (t != T_F) vp_assume(in[i] == in[i]); v[i] = in[i]; }
	vp_assert(v.toData(out, LAY(l), TYP(t)), "a valid element is written");
	for (int i = 0; i < f.n; ++i) { if (t == T_F && in[i] != in[i]) continue; vp_assert(encodedOk(in[i], fmtCode(out, l, i), f.bits[i], t), "component holds the nearest code"); }
	vp_cover("encoded");
}
extern "C" void h_c02() { c02((int)vp_param(1), (int)vp_param(2)); }
// the reference rounding used above really is the nearest code
extern "C" void h_c02_ref() {
	int bits = (int)vp_param(1); double v = vp_f64("value"); vp_assume(v == v); double top = (double)((1u << bits) - 1);
	double p = clampTo(v, 0, 1) * top; uint32_t k = (uint32_t)std::round(p); vp_assert(k <= (1u << bits) - 1, "code in range");
	double d = p - (double)k; vp_assert(d <= 0.5 && d >= -0.5, "rounding picks the nearest code"); vp_cover("ref");
}
// ---- C03
static void c03(int l, int t) {
	const Fmt &f = FMTS[l]; unsigned char a[48], b[48]; std::memset(b, 0xA5, sizeof b); vp_sym(a, f.size, "data");
	for (int i = 0; i < f.n; ++i) { uint64_t c = fmtCode(a, l, i);
		if (f.bits[i] == 64 && t == T_U) vp_assume(c <= (1ull << 53));
		if (f.bits[i] == 64 && t == T_S) { int64_t s = (int64_t)c; vp_assume(s <= (1ll << 53) && s >= -(1ll << 53)); }
		if (f.bits[i] == 64 && t == T_F) { double d = fromBits(c); vp_assume(d == d); }
		if (f.bits[i] == 32 && t == T_F) { uint32_t u = (uint32_t)c; float d; std::memcpy(&d, &u, 4); vp_assume(d == d); } }
	VertexValue v; vp_assert(v.fromData(a, LAY(l), TYP(t)) && v.toData(b, LAY(l), TYP(t)), "read and written");
	for (int i = 0; i < f.n; ++i) vp_assert(fmtCode(a, l, i) == fmtCode(b, l, i), "component survives decode and encode");
	vp_cover("round trip");
}
extern "C" void h_c03() { int l = (int)vp_param(1), t = (int)vp_param(2); if (t >= 0) { c03(l, t); return; } for (t = 0; t < 5; ++t) if (fmtValid(l, t) && l < 18 && !(t == T_F && l < 10)) c03(l, t); }
