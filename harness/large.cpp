// Conversions beyond 16 bits of vertices and indices: C12, C13, C15, C16, C17. Most bytes are fixed (distinct vertices), the ones around the limits are free.
#include "fmt.h"
#include <VFC/Converter.h>
static unsigned gErrors = 0;
static inline uint32_t get32(const unsigned char *p) { uint32_t v; std::memcpy(&v, p, 4); return v; }
// params: 1 = positions, 2 = vertices, 3 = input index type, 4 = output index type, 5 = primitive, 6 = maximum index (-1: default), 7 = positions per vertex in a row, 8 = free vertices are distinct from all others by their top byte (else only the unindexed output is checked), 9 = index past the end at the last position, 10 = the last index is any of 65530..65537, 11 = patch points, 12 = only the bounds
extern "C" void h_large(void) {
	uint32_t n = (uint32_t)vp_param(1), nv = (uint32_t)vp_param(2); int it = (int)vp_param(3), ot = (int)vp_param(4), prim = (int)vp_param(5); long max = vp_param(6); uint32_t per = (uint32_t)vp_param(7); bool bad = vp_param(9) != 0; unsigned patch = (unsigned)vp_param(11);
	std::vector<uint32_t> v(nv); for (uint32_t i = 0; i < nv; ++i) v[i] = i; 
	static const uint32_t at[] = {0, 255, 256, 257, 65534, 65535, 65536, 65537}; if (vp_param(8)) for (uint32_t i : at) if (i < nv) { uint32_t x = vp_u32("vertex"); v[i] = x; }
	std::vector<uint32_t> want(n); std::vector<uint16_t> i16; std::vector<uint32_t> i32; if (it == 1) i16.resize(n); if (it == 2) i32.resize(n);
	uint32_t last = 0; if (vp_param(10)) { uint8_t d = vp_u8("last index"); vp_assume(d < 8); last = 65530u + d; vp_assume(last < nv); }
	for (uint32_t p = 0; p < n; ++p) { uint32_t x = it ? (p / per) % nv : p; if (bad && p == n - 1) x = nv; if (p == n - 1 && vp_param(10)) x = last; if (it == 1) i16[p] = (uint16_t)x; if (it == 2) i32[p] = x; want[p] = x; }
	VertexFormat f; f.appendElement("a", ElementLayout::X32, ElementType::UInt); auto err = [](const char *) { ++gErrors; };
	Converter *c = max < 0 ? new Converter(f, static_cast<IndexType>(ot), static_cast<PrimitiveType>(prim), patch, err) : new Converter(f, static_cast<IndexType>(ot), static_cast<PrimitiveType>(prim), patch, (uint32_t)max, err);
	bool ok = c->isValid() && c->addVertexStream(f, v.data(), nv, static_cast<IndexType>(it), it == 1 ? (const void *)i16.data() : it == 2 ? (const void *)i32.data() : nullptr, it ? n : 0); vp_assert(ok & (gErrors == 0), "the stream is accepted"); if (!ok) return;
	ok = c->convert(); if (bad) { vp_assert(!ok & (gErrors == 1), "an index out of range is refused"); vp_cover("out of range"); return; } vp_assert(ok & (gErrors == 0), "a valid conversion succeeds without messages"); if (!ok) return;
	if (vp_param(12)) { double lo = 1e300, hi = -1; for (uint32_t p = 0; p < n; ++p) { double d = v[want[p]]; if (p == n - 1 && vp_param(10)) { lo = d < lo ? d : lo; hi = hi < d ? d : hi; } else { if (d < lo) lo = d; if (hi < d) hi = d; } } VertexValue a, b; c->getVertexElementBounds(a, b, 0, 0); vp_assert((a[0] == lo) & (b[0] == hi) & (a[1] == 0) & (b[1] == 0) & (a[3] == 1) & (b[3] == 1), "the bounds of the vertices used"); vp_cover("bounds"); return; }
	const std::vector<unsigned char> &o = c->getVertices()[0]; vp_assert(o.size() == (size_t)c->getVertexCount() * 4, "the reported vertex count");
	if (!ot) { vp_assert(c->getIndices().empty(), "no index buffers"); ok = o.size() == (size_t)n * 4; vp_assert(ok, "a vertex per position"); if (ok) for (uint32_t p = 0; p < n; ++p) if (get32(&o[(size_t)p * 4]) != v[want[p]]) { vp_assert(0, "the vertex of the position"); break; } vp_cover("flat"); return; }
	uint32_t p = 0, limit = max < 0 ? (ot == 1 ? 0xFFFEu : 0xFFFFFFFEu) : (uint32_t)max; size_t total = 0; unsigned st = prim == 1 ? 2 : prim == 3 ? 3 : prim == 6 ? patch : 1;
	for (size_t b = 0; b < c->getIndices().size(); ++b) { const IndexData &d = c->getIndices()[b]; vp_assert(d.count % st == 0, "whole primitives"); bool good = true; uint32_t next = 0; int64_t base = d.baseVertex;
		for (uint32_t i = 0; i < d.count && p < n; ++i, ++p) { uint32_t x = ot == 1 ? ((const uint16_t *)d.data)[i] : ((const uint32_t *)d.data)[i]; if (x > limit || x > next) { good = false; break; } next += x == next; uint64_t w = (uint64_t)x + (uint64_t)base; if (w * 4 + 4 > o.size() || get32(&o[w * 4]) != v[want[p]]) { good = false; break; } }
		vp_assert(good, "index buffers resolve to the vertices in order of first use, within the maximum"); total += d.count; if (b) { const IndexData &e = c->getIndices()[b - 1]; vp_assert((uint64_t)((int64_t)d.baseVertex - e.baseVertex) + st - 1 > limit, "a new buffer only when needed"); vp_cover("split"); } }
	vp_assert(total == n, "as many positions as in the input"); vp_assert(c->getIndices().size() > 1 || c->getVertexCount() <= nv, "no vertex twice"); vp_cover("large"); }
// Strips and fans that are split where 16 bits end. params: 1 = positions, 2 = input index type, 3 = output index type, 4 = primitive, 5 = maximum, 6 = positions between restarts (0: none). The first vertex of the first split is free among its neighbours by index when indexed
extern "C" void h_large_strip(void) {
	uint32_t n = (uint32_t)vp_param(1), every = (uint32_t)vp_param(6), max = (uint32_t)vp_param(5); int it = (int)vp_param(2), ot = (int)vp_param(3), prim = (int)vp_param(4);
	std::vector<uint32_t> v(n), idx(n); std::vector<bool> rs(n); for (uint32_t i = 0; i < n; ++i) { v[i] = i * 2654435761u; rs[i] = every && i % every == every - 1; idx[i] = rs[i] ? 0xFFFFFFFFu : i; }
	if (it) { uint8_t d = vp_u8("last index"); vp_assume(d < 8); idx[n - 1] = 65530u + d; vp_assume(idx[n - 1] < n); rs[n - 1] = false; }
	VertexFormat f; f.appendElement("a", ElementLayout::X32, ElementType::UInt); Converter c(f, static_cast<IndexType>(ot), static_cast<PrimitiveType>(prim), 0, max, [](const char *) { ++gErrors; });
	bool ok = c.isValid() && c.addVertexStream(f, v.data(), n, static_cast<IndexType>(it), it ? idx.data() : nullptr, it ? n : 0) && c.convert(); vp_assert(ok & (gErrors == 0), "a valid conversion succeeds without messages"); if (!ok) return;
	const std::vector<unsigned char> &o = c.getVertices()[0]; uint32_t k = prim == 2 ? 2 : 3, from = 0, p = 0; bool good = true; // p, from: the next input primitive begins there, its strip began there
	auto skip = [&] { while (p < n) { bool whole = p + k <= n; for (uint32_t i = 0; whole && i < k; ++i) if (rs[p + i]) { whole = false; p += i + 1; from = p; } if (whole) return true; if (p + k > n) break; } return false; };
	for (size_t b = 0; b < c.getIndices().size() && good; ++b) { const IndexData &d = c.getIndices()[b]; uint32_t start = 0; if (b) vp_cover("split"); const uint16_t *i16 = (const uint16_t *)d.data; const uint32_t *i32 = (const uint32_t *)d.data;
		auto at = [&](uint32_t i) { return ot == 1 ? (uint32_t)i16[i] : i32[i]; }; uint32_t rv = ot == 1 ? 0xFFFFu : 0xFFFFFFFFu;
		for (uint32_t i = 0; i < d.count && good; ++i) { if (at(i) == rv) { start = i + 1; continue; } if (at(i) > max) good = false; if (i + 1 < start + k) continue;
			if (!skip()) { good = false; break; } uint32_t a[3], w[3]; for (uint32_t j = 0; j < k; ++j) { uint32_t x = prim == 5 && j == 0 ? start : i + 1 - k + j; uint64_t q = (uint64_t)at(x) + (uint64_t)(int64_t)d.baseVertex; if (q * 4 + 4 > o.size()) { good = false; break; } a[j] = get32(&o[q * 4]); w[j] = v[idx[prim == 5 && j == 0 ? from : p + j]]; } if (!good) break;
			bool same = (a[0] == w[0]) & (a[1] == w[1]) & (k == 2 || a[2] == w[2]); good = same; // the splits are at even places: the same order, too
			if (prim == 4 && ((i + 1 - k - start) ^ (p - from)) % 2) good = false; ++p; } }
	vp_assert(good, "the same primitives in the same order with the same winding"); bool none = !skip(); vp_assert(!good | none, "no primitive is lost"); vp_cover("drawn"); }
