// Conversion scenarios: streams with symbolic contents and an independent account of what each position describes.
#pragma once
#include "fmt.h"
#include <VFC/Converter.h>
#include <memory>
#include <string>
#include <vector>
struct El { const char *name; int l, t; };
struct Fm { int n; El e[9]; };
struct Scn { int nin; Fm in[3]; int nout; Fm out[3]; };
static const Scn SCN[] = {
	{1, {{1, {{"a", 0, T_U}}}}, 1, {{1, {{"a", 0, T_U}}}}},
	{1, {{2, {{"a", 0, T_U}, {"b", 6, T_S}}}}, 2, {{1, {{"b", 0, T_S}}}, {1, {{"a", 6, T_U}}}}},
	{2, {{1, {{"a", 1, T_U}}}, {2, {{"pad", 0, T_U}, {"b", 10, T_U}}}}, 1, {{2, {{"b", 6, T_U}, {"a", 0, T_U}}}}},
	{3, {{1, {{"c", 2, T_U}}}, {2, {{"b", 6, T_S}, {"unused", 0, T_S}}}, {1, {{"a", 0, T_U}}}}, 2, {{2, {{"a", 6, T_U}, {"b", 7, T_S}}}, {1, {{"c", 1, T_U}}}}},
	{1, {{3, {{"x", 0, T_U}, {"a", 0, T_S}, {"b", 1, T_U}}}}, 1, {{2, {{"b", 1, T_U}, {"a", 0, T_S}}}}},
	{2, {{2, {{"a", 14, T_F}, {"n", 0, T_U}}}, {1, {{"b", 15, T_F}}}}, 2, {{2, {{"n", 0, T_UN}, {"a", 14, T_F}}}, {1, {{"b", 15, T_F}}}}},
	{1, {{1, {{"a", 3, T_UN}}}}, 1, {{1, {{"a", 9, T_SN}}}}},
	{2, {{3, {{"a", 0, T_U}, {"b", 10, T_U}, {"c", 6, T_S}}}, {1, {{"d", 2, T_U}}}}, 3, {{1, {{"c", 10, T_S}}}, {2, {{"a", 0, T_U}, {"d", 2, T_U}}}, {1, {{"b", 10, T_U}}}}},
	{1, {{5, {{"p", 13, T_U}, {"q", 13, T_U}, {"a", 0, T_U}, {"r", 13, T_S}, {"b", 13, T_U}}}}, 1, {{4, {{"r", 13, T_S}, {"p", 13, T_U}, {"b", 13, T_U}, {"q", 13, T_U}}}}},
	{1, {{9, {{"p", 17, T_F}, {"q", 17, T_F}, {"r", 17, T_F}, {"s", 17, T_F}, {"t", 17, T_F}, {"u", 17, T_F}, {"v", 17, T_F}, {"w", 17, T_F}, {"a", 0, T_U}}}}, 1, {{9, {{"p", 17, T_F}, {"q", 17, T_F}, {"r", 17, T_F}, {"s", 17, T_F}, {"t", 17, T_F}, {"u", 17, T_F}, {"v", 17, T_F}, {"w", 17, T_F}, {"a", 0, T_U}}}}},
	{1, {{5, {{"p", 13, T_U}, {"q", 13, T_U}, {"a", 0, T_U}, {"r", 13, T_S}, {"b", 13, T_U}}}}, 1, {{4, {{"r", 13, T_S}, {"p", 13, T_U}, {"b", 13, T_U}, {"q", 13, T_U}}}}},
	{1, {{9, {{"p", 17, T_F}, {"q", 17, T_F}, {"r", 17, T_F}, {"s", 17, T_F}, {"t", 17, T_F}, {"u", 17, T_F}, {"v", 17, T_F}, {"w", 17, T_F}, {"a", 0, T_U}}}}, 1, {{9, {{"p", 17, T_F}, {"q", 17, T_F}, {"r", 17, T_F}, {"s", 17, T_F}, {"t", 17, T_F}, {"u", 17, T_F}, {"v", 17, T_F}, {"w", 17, T_F}, {"a", 0, T_U}}}}},
};
inline VertexFormat makeFormat(const Fm &m) { VertexFormat f; for (int i = 0; i < m.n; ++i) f.appendElement(m.e[i].name, LAY(m.e[i].l), TYP(m.e[i].t)); return f; }
inline unsigned offsetOf(const Fm &m, int i) { unsigned o = 0; for (int k = 0; k < i; ++k) o += FMTS[m.e[k].l].size; return o; }
inline unsigned strideOf(const Fm &m) { return offsetOf(m, m.n); }
static unsigned gErrors = 0; static bool gEmptyError = false;
inline Converter::ErrorFunction errorFn() { return [](const char *m) { ++gErrors; if (!m || !m[0]) gEmptyError = true; }; }
static const uint32_t NONE = 0xFFFFFFFFu;
struct Case {
	const Scn *s; int n; int itype[3]; int nv[3]; unsigned char *data[3]; unsigned char *idx[3]; uint32_t at[3][12]; bool restart[12];
	Case() : s(nullptr), n(0) { for (int i = 0; i < 3; ++i) { data[i] = idx[i] = nullptr; } }
	~Case() { for (int i = 0; i < 3; ++i) { delete[] data[i]; delete[] idx[i]; } }
	// itypes, nvs: decimal digits, first stream in the lowest digit; forkIdx: one path per choice of indices
	void make(int scn, int positions, long itypes, long nvs, bool restarts, bool forkIdx, bool identity = false, bool symData = true) {
		s = &SCN[scn]; n = positions;
		for (int p = 0; p < n; ++p) { restart[p] = false; if (restarts) { uint8_t r = vp_u8("restart"); vp_assume(r < 2); restart[p] = vp_fork(r) != 0; } }
		for (int i = 0; i < s->nin; ++i, itypes /= 10, nvs /= 10) {
			itype[i] = (int)(itypes % 10); nv[i] = itype[i] ? (int)(nvs % 10) : n; unsigned st = strideOf(s->in[i]); size_t w = itype[i] == 1 ? 2 : 4;
			data[i] = new unsigned char[(size_t)nv[i] * st]; if (symData && nv[i] && scn < 10) vp_sym(data[i], (size_t)nv[i] * st, "vertices");
			if (symData && scn >= 10) for (unsigned o = 0; o < (unsigned)nv[i] * st; ++o) data[i][o] = o % st % 16 == 3 || o % st == st - 1 ? vp_u8("vertices") : 0; // wide: a few bytes of each vertex
			for (int v = 0; v < nv[i]; ++v) for (int e = 0; e < s->in[i].n; ++e) { const El &el = s->in[i].e[e]; if (el.t != T_F) continue; const Fmt &f = FMTS[el.l]; // floats: numbers
				for (int c = 0; c < f.n; ++c) { double d = fromBits(fmtCode(data[i] + (size_t)v * st + offsetOf(s->in[i], e), el.l, c)); vp_assume((d >= -1e30) & (d <= 1e30)); } }
			if (itype[i]) { idx[i] = new unsigned char[(size_t)n * w];
				for (int p = 0; p < n; ++p) { uint32_t v = itype[i] == 1 ? 0xFFFFu : 0xFFFFFFFFu;
					if (!restart[p] && identity) { v = (uint32_t)p; vp_assume(p < nv[i]); at[i][p] = v; }
					else if (!restart[p]) { v = vp_u8("index"); vp_assume(v < (uint32_t)nv[i]); if (forkIdx) v = (uint32_t)vp_fork(v); at[i][p] = v; }
					for (size_t b = 0; b < w; ++b) idx[i][(size_t)p * w + b] = (unsigned char)(v >> (8 * b)); } }
			else for (int p = 0; p < n; ++p) at[i][p] = (uint32_t)p;
		}
	}
	bool add(Converter &c, int i) { return c.addVertexStream(makeFormat(s->in[i]), data[i], (uint32_t)nv[i], static_cast<IndexType>(itype[i]), idx[i], itype[i] ? (uint32_t)n : 0); }
	bool addAll(Converter &c) { for (int i = 0; i < s->nin; ++i) if (!add(c, i)) return false; return true; }
	std::vector<VertexFormat> outFormats() const { std::vector<VertexFormat> v; for (int k = 0; k < s->nout; ++k) v.push_back(makeFormat(s->out[k])); return v; }
	void source(const char *name, int &st, int &el) const { for (st = 0; st < s->nin; ++st) for (el = 0; el < s->in[st].n; ++el) if (!std::strcmp(s->in[st].e[el].name, name)) return; st = -1; }
	// the input value of element e of output stream k at a position
	VertexValue value(int k, int e, int p) const { int st, el; source(s->out[k].e[e].name, st, el); VertexValue v; const Fm &f = s->in[st];
		v.fromData(data[st] + (size_t)at[st][p] * strideOf(f) + offsetOf(f, el), LAY(f.e[el].l), TYP(f.e[el].t)); return v; }
	// the converted vertex of output stream k at a position (no transform)
	void expect(int k, int p, unsigned char *out) const { const Fm &f = s->out[k]; for (int e = 0; e < f.n; ++e) value(k, e, p).toData(out + offsetOf(f, e), LAY(f.e[e].l), TYP(f.e[e].t)); }
};
inline bool bytesEqual(const unsigned char *a, const unsigned char *b, size_t n) { unsigned d = 0; for (size_t i = 0; i < n; ++i) d |= (unsigned)(a[i] ^ b[i]); return d == 0; }
// expected vertices, computed once: ev[k][p*stride..]
struct Expect { std::vector<unsigned char> ev[3]; unsigned st[3]; int nout;
	explicit Expect(const Case &c) { nout = c.s->nout; for (int k = 0; k < nout; ++k) { st[k] = strideOf(c.s->out[k]); ev[k].assign((size_t)c.n * st[k], 0); for (int p = 0; p < c.n; ++p) if (!c.restart[p]) c.expect(k, p, &ev[k][(size_t)p * st[k]]); } }
	bool same(int p, int q) const { bool r = true; for (int k = 0; k < nout; ++k) r &= bytesEqual(&ev[k][(size_t)p * st[k]], &ev[k][(size_t)q * st[k]], st[k]); return r; }
	bool is(const Converter &c, uint64_t vertex, int p) const { bool r = true; for (int k = 0; k < nout; ++k) r &= bytesEqual(c.getVertices()[(size_t)k].data() + vertex * st[k], &ev[k][(size_t)p * st[k]], st[k]); return r; }
};
inline uint32_t indexAt(const IndexData &d, size_t i) { return (uint32_t)vp_fork(getIndexValue(d.type, d.data, i)); }
