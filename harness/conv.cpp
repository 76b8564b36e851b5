// The converter: C12 - C16. params: 1 = scenario, 2 = primitive, 3 = positions, 4 = output index type, 5 = maximum index (-1: default),
// 6 = index types of the streams, 7 = vertices of the streams (decimal digits), 8 = restarts, 9 = patch points, 10 = a path per choice of indices, 11 = position p refers to vertex p
#include "conv.h"
extern "C" unsigned vp_cpu_ecx(void) { return 0; }
static bool setUp(Case &c, std::unique_ptr<Converter> &cv) {
	int prim = (int)vp_param(2), it = (int)vp_param(4); unsigned patch = (unsigned)vp_param(9); long max = vp_param(5);
	c.make((int)vp_param(1), (int)vp_param(3), vp_param(6), vp_param(7), vp_param(8) != 0, vp_param(10) != 0, vp_param(11) != 0);
	if (max < 0) cv.reset(new Converter(c.outFormats(), static_cast<IndexType>(it), static_cast<PrimitiveType>(prim), patch, errorFn()));
	else cv.reset(new Converter(c.outFormats(), static_cast<IndexType>(it), static_cast<PrimitiveType>(prim), patch, (uint32_t)max, errorFn()));
	bool ok = cv->isValid() && c.addAll(*cv) && cv->convert();
	vp_assert(ok & (gErrors == 0), "a valid conversion succeeds without messages");
	return ok;
}
static void sizes(const Case &c, const Converter &cv) {
	vp_assert(cv.getVertices().size() == (size_t)c.s->nout, "one vertex buffer per output stream");
	for (int k = 0; k < c.s->nout; ++k) vp_assert(cv.getVertices()[(size_t)k].size() == (size_t)cv.getVertexCount() * strideOf(c.s->out[k]), "the reported vertex count in every output stream");
}
static int listStride(int prim, int patch) { return prim == 1 ? 2 : prim == 3 ? 3 : prim == 6 ? patch : 1; }
// every position resolves, whatever the number of buffers (lists and unsplit strips)
static void resolve(const Case &c, const Converter &cv, const Expect &ex) {
	uint32_t it = (uint32_t)vp_param(4), rv = it == 1 ? 0xFFFFu : 0xFFFFFFFFu; int p = 0;
	for (const IndexData &d : cv.getIndices()) {
		vp_assert(d.type == static_cast<IndexType>(it), "index type of the output");
		for (uint32_t i = 0; i < d.count && p < c.n; ++i, ++p) {
			uint32_t v = indexAt(d, i);
			vp_assert((v == rv) == c.restart[p], "restarts stay where they were");
			if (c.restart[p] || v == rv) continue;
			uint64_t at = (uint64_t)v + (uint64_t)(int64_t)d.baseVertex; bool in = at < cv.getVertexCount(); vp_assert(in, "base vertex plus index lies inside the vertex data");
			if (in) vp_assert(ex.is(cv, at, p), "the vertex is the conversion of what the input position described");
		}
	}
	uint64_t total = 0; for (const IndexData &d : cv.getIndices()) total += d.count;
	vp_assert(total == (uint64_t)c.n, "as many positions as in the input");
}
extern "C" void h_c12(void) {
	Case c; std::unique_ptr<Converter> cv; if (!setUp(c, cv)) return; Expect ex(c); sizes(c, *cv); resolve(c, *cv, ex);
	vp_assert(cv->getIndices().size() == 1 && cv->getIndices()[0].baseVertex == 0, "one index buffer is enough"); vp_cover("resolved");
}
extern "C" void h_c13(void) {
	Case c; std::unique_ptr<Converter> cv; if (!setUp(c, cv)) return; Expect ex(c); sizes(c, *cv); resolve(c, *cv, ex);
	uint32_t max = (uint32_t)vp_param(5); int st = listStride((int)vp_param(2), (int)vp_param(9)); const std::vector<IndexData> &ib = cv->getIndices();
	vp_assert(!ib.empty() && ib[0].baseVertex == 0, "the first buffer starts at vertex 0");
	for (size_t b = 0; b < ib.size(); ++b) {
		vp_assert(ib[b].count % (uint32_t)st == 0, "whole primitives in each buffer"); vp_assert(b == 0 || ib[b].count > 0, "a new buffer only for a next primitive");
		for (uint32_t i = 0; i < ib[b].count; ++i) vp_assert(indexAt(ib[b], i) <= max, "no index above the maximum");
		if (b) { int64_t used = (int64_t)ib[b].baseVertex - ib[b - 1].baseVertex; vp_assert(used + st - 1 > (int64_t)max, "a new buffer only when the next primitive might not fit"); vp_cover("split"); }
	}
	if (ib.size() == 1) vp_cover("one buffer");
}
extern "C" void h_c15(void) {
	Case c; std::unique_ptr<Converter> cv; if (!setUp(c, cv)) return; Expect ex(c); sizes(c, *cv); int p = 0; int64_t total = 0;
	for (const IndexData &d : cv->getIndices()) {
		uint32_t next = 0; int from = p;
		vp_assert((int64_t)d.baseVertex == total, "buffers use consecutive ranges of vertices");
		for (uint32_t i = 0; i < d.count && p < c.n; ++i, ++p) {
			if (c.restart[p]) continue;
			uint32_t v = indexAt(d, i); bool fresh = v == next;
			vp_assert(v <= next, "vertices are stored in the order of first use"); if (fresh) ++next;
			for (int q = from; q < p; ++q) if (!c.restart[q]) vp_assert((indexAt(d, (size_t)(q - from)) == v) == ex.same(p, q), "positions share an index exactly when their vertices are identical");
			vp_cover(fresh ? "new vertex" : "shared vertex");
		}
		total += next;
	}
	vp_assert((int64_t)cv->getVertexCount() == total, "every stored vertex is used");
}
extern "C" void h_c16(void) {
	Case c; std::unique_ptr<Converter> cv; if (!setUp(c, cv)) return; Expect ex(c); sizes(c, *cv);
	vp_assert(cv->getIndices().empty(), "no index buffers"); vp_assert(cv->getVertexCount() == (uint32_t)c.n, "one vertex per position");
	if (cv->getVertexCount() == (uint32_t)c.n) for (int p = 0; p < c.n; ++p) vp_assert(ex.is(*cv, (uint64_t)p, p), "the vertex of the position"); vp_cover("flattened");
}

// ---- C14: draw the input and the output and compare
struct Prim { int v[3]; int strip; };           // positions or output vertices
static void drawInput(const Case &c, int prim, std::vector<Prim> &out) {
	int from = 0, strip = 0;
	for (int p = 0; p <= c.n; ++p) { if (p < c.n && !c.restart[p]) continue;
		int len = p - from;
		if (prim == 2) for (int i = 0; i + 1 < len; ++i) out.push_back({{from + i, from + i + 1, -1}, strip});
		if (prim == 4) for (int i = 0; i + 2 < len; ++i) out.push_back(i % 2 ? Prim{{from + i + 1, from + i, from + i + 2}, strip} : Prim{{from + i, from + i + 1, from + i + 2}, strip});
		if (prim == 5) for (int i = 0; i + 2 < len; ++i) out.push_back({{from, from + i + 1, from + i + 2}, strip});
		from = p + 1; ++strip; }
}
extern "C" void h_c14(void) {
	Case c; std::unique_ptr<Converter> cv; if (!setUp(c, cv)) return; Expect ex(c); sizes(c, *cv);
	int prim = (int)vp_param(2), it = (int)vp_param(4); uint32_t max = (uint32_t)vp_param(5), rv = it == 1 ? 0xFFFFu : 0xFFFFFFFFu;
	std::vector<Prim> want; drawInput(c, prim, want);
	const std::vector<IndexData> &ib = cv->getIndices(); size_t k = 0; bool good = true; int nc = prim == 2 ? 2 : 3;
	// splits of the current strip after an odd number of indices, for the one listed finding
	int flips = 0; bool vague = false;
	for (size_t b = 0; b < ib.size(); ++b) {
		const IndexData &d = ib[b]; std::vector<uint64_t> v; std::vector<bool> rs;
		for (uint32_t i = 0; i < d.count; ++i) { uint32_t x = indexAt(d, i); rs.push_back(x == rv);
			if (x != rv) vp_assert(x <= max, "no index except a restart exceeds the maximum");
			uint64_t at = (uint64_t)x + (uint64_t)(int64_t)d.baseVertex; bool in = x == rv || at < cv->getVertexCount(); vp_assert(in, "base vertex plus index lies inside the vertex data"); good = good && in; v.push_back(at); }
		if (!good) return;
		size_t from = 0; bool first = true;
		for (size_t i = 0; i <= v.size(); ++i) { if (i < v.size() && !rs[i]) continue;
			size_t len = i - from;
			for (size_t j = 0; j + (size_t)nc <= len; ++j, ++k) {
				if (k >= want.size()) { vp_assert(false, "no primitive is invented"); return; }
				size_t o[3] = {from + j, from + j + 1, from + j + 2}; if (prim == 4 && j % 2) std::swap(o[0], o[1]); if (prim == 5) o[0] = from;
				const Prim &w = want[k]; bool ok;
				if (nc == 2) ok = ex.is(*cv, v[o[0]], w.v[0]) & ex.is(*cv, v[o[1]], w.v[1]);
				else {
					bool m[3][3]; for (int x = 0; x < 3; ++x) for (int y = 0; y < 3; ++y) m[x][y] = ex.is(*cv, v[o[x]], w.v[y]);
					ok = (m[0][0] & m[1][1] & m[2][2]) | (m[0][1] & m[1][2] & m[2][0]) | (m[0][2] & m[1][0] & m[2][1]);
					bool flipped = (m[0][1] & m[1][0] & m[2][2]) | (m[0][0] & m[1][2] & m[2][1]) | (m[0][2] & m[1][1] & m[2][0]);
					if (prim == 4 && first && b > 0 && (flips % 2 || vague)) { vp_finding("strip-split-winding", !ok & flipped); ok = ok | flipped; }
				}
				vp_assert(ok, "the same primitives in the same order with the same winding"); vp_cover("primitive");
			}
			from = i + 1; first = first && i >= v.size(); }
		if (b + 1 < ib.size()) { // the part of a strip that goes on: its length in this buffer, including indices that were taken back
			long own = (long)((const char *)ib[b + 1].data - (const char *)d.data) / (it == 1 ? 2 : 4), run = 0; vp_cover("split");
			if (own < (long)d.count || own > (long)d.count + 2) { vague = true; continue; }
			while (run < own && indexAt(d, (size_t)(own - 1 - run)) != rv) ++run;
			flips = (run == own ? flips : 0) + (run >= 3 && run % 2); if (run == 1) vp_cover("split after one vertex"); if (run == 0) vp_cover("split after a restart"); }
	}
	vp_assert(k == want.size(), "no primitive is lost"); if (c.n) vp_cover("drawn");
}
