// The converter: C17 - C20.
#include "conv.h"
extern "C" unsigned vp_cpu_ecx(void) { return 0; }
static uint8_t choice(const char *n, uint8_t k) { uint8_t v = vp_u8(n); vp_assume(v < k); return (uint8_t)vp_fork(v); }
static const Fm PICK[6] = {{1, {{"a", 0, T_U}}}, {1, {{"b", 6, T_S}}}, {2, {{"b", 0, T_S}, {"a", 6, T_U}}}, {1, {{"other", 0, T_U}}}, {2, {{"other", 10, T_U}, {"b", 6, T_S}}}, {0, {}}};
static int primCount(int prim, uint32_t n, uint32_t patch) { switch (prim) { case 0: return 1; case 1: return n % 2 == 0; case 2: return (n == 0) | (n >= 2); case 3: return n % 3 == 0; case 4: case 5: return (n == 0) | (n >= 3); default: return n % patch == 0; } }
static bool names(const Fm &f, const char *n) { for (int i = 0; i < f.n; ++i) if (!std::strcmp(f.e[i].name, n)) return true; return false; }
// params: 1 = primitive, 2 = patch points, 3 = calls, 4 = one output stream per element, 5 = no missing data
extern "C" void h_c17_add(void) {
	int prim = (int)vp_param(1); uint32_t patch = (uint32_t)vp_param(2); Fm out[2] = {{1, {{"a", 0, T_U}}}, {1, {{"b", 6, T_S}}}}; Fm both = {2, {{"a", 0, T_U}, {"b", 6, T_S}}};
	std::vector<VertexFormat> fm; if (vp_param(4)) { fm.push_back(makeFormat(out[0])); fm.push_back(makeFormat(out[1])); } else fm.push_back(makeFormat(both));
	Converter c(fm, IndexType::UInt32, static_cast<PrimitiveType>(prim), patch, errorFn()); vp_assert(c.isValid() && gErrors == 0, "the converter is valid");
	static unsigned char vdata[8] = {}, idata[64] = {}; bool hasA = false, hasB = false, known = false, vague = false; uint32_t count = 0;
	for (int k = 0; k < (int)vp_param(3); ++k) {
		const Fm &f = PICK[choice("format", 6)]; int few = (int)vp_param(5); bool noV = !few && choice("null vertices", 2) != 0, noI = !few && choice("null indices", 2) != 0; int it = choice("index type", few ? 2 : 3);
		uint32_t nv = vp_u32("vertex count"), ni = vp_u32("index count");
		unsigned before = gErrors; bool r = c.addVertexStream(makeFormat(f), noV ? nullptr : vdata, nv, static_cast<IndexType>(it), noI ? nullptr : idata, ni);
		uint32_t n = it ? ni : nv; bool a = names(f, "a"), b = names(f, "b"), any = a | b;
		bool bad = noV | ((it != 0) & noI) | !primCount(prim, n, patch) | (a & hasA) | (b & hasB), clash = known & (n != count);
		if (vague) { vp_assert(!(r & bad), "refused"); if (r && n) { vague = false; count = n; known = true; } } // after a useless empty stream only
		else vp_assert(r == !(bad | clash), "accepted exactly when nothing is wrong with it");
		vp_assert((gErrors > before) == !r, "a message exactly when it is refused"); vp_cover(r ? "added" : "refused");
		if (r) { hasA |= a; hasB |= b; if (any || n) { known = true; count = n; } else if (!known) vague = true; }
	}
	if (!(hasA & hasB)) { unsigned before = gErrors; vp_assert(!c.convert() && gErrors > before, "converting without a stream for every element is refused"); vp_assert(c.getVertices().empty() && c.getIndices().empty(), "nothing is converted"); vp_cover("missing element"); }
	vp_assert(!gEmptyError, "messages say something");
}
extern "C" void h_c17_invalid(void) { // an invalid converter refuses everything
	Converter c(std::vector<VertexFormat>(), IndexType::UInt16, PrimitiveType::PointList, 0, errorFn()); vp_assert(!c.isValid() && !c && gErrors > 0, "invalid"); unsigned char d[4] = {1, 2, 3, 4}; unsigned e = gErrors;
	uint32_t nv = vp_u32("vertices"); vp_assert(!c.addVertexStream(makeFormat(PICK[0]), d, nv) && gErrors > e, "no streams for an invalid converter"); e = gErrors; vp_assert(!c.convert() && gErrors > e, "no conversion either");
	Converter q(std::vector<VertexFormat>(), IndexType::UInt16, PrimitiveType::PointList, 0, nullptr); vp_assert(!q.isValid() && !q.convert() && !q.addVertexStream(makeFormat(PICK[0]), d, nv), "no error function is fine"); vp_cover("invalid converter");
}
// params: 1 = scenario, 2 = primitive, 3 = positions, 4 = output index type, 5 = max, 6 = index types, 7 = vertices, 8 = 1: leave out the last stream, 9 = patch
extern "C" void h_c17_convert(void) {
	int prim = (int)vp_param(2), it = (int)vp_param(4), n = (int)vp_param(3); long its = vp_param(6), nvs = vp_param(7), max = vp_param(5); const Scn &s = SCN[vp_param(1)]; bool strip = prim == 2 || prim == 4 || prim == 5;
	std::vector<VertexFormat> fm; for (int k = 0; k < s.nout; ++k) fm.push_back(makeFormat(s.out[k]));
	Converter c(fm, static_cast<IndexType>(it), static_cast<PrimitiveType>(prim), (unsigned)vp_param(9), max < 0 ? maxIndexValue(static_cast<IndexType>(it)) : (uint32_t)max, errorFn());
	std::vector<unsigned char *> bufs; bool good = true; int nin = s.nin - (vp_param(8) ? 1 : 0);
	for (int i = 0; i < nin; ++i, its /= 10, nvs /= 10) {
		int ty = (int)(its % 10), nv = ty ? (int)(nvs % 10) : n; size_t w = ty == 1 ? 2 : 4, sz = (size_t)nv * strideOf(s.in[i]); unsigned char *d = new unsigned char[sz ? sz : 1], *x = nullptr; if (!sz) { delete[] d; d = new unsigned char[0]; } bufs.push_back(d); if (sz) vp_sym(d, sz, "vertices");
		if (ty) { x = new unsigned char[(size_t)n * w]; bufs.push_back(x);
			for (int p = 0; p < n; ++p) { uint32_t v = ty == 1 ? vp_u16("index") : vp_u32("index"), rv = ty == 1 ? 0xFFFFu : 0xFFFFFFFFu; for (size_t b = 0; b < w; ++b) x[(size_t)p * w + b] = (unsigned char)(v >> (8 * b));
				good = good & ((v < (uint32_t)nv) | (strip & (it != 0) & (v == rv))); } }
		vp_assert(c.addVertexStream(makeFormat(s.in[i]), d, (uint32_t)nv, static_cast<IndexType>(ty), x, ty ? (uint32_t)n : 0) && gErrors == 0, "the stream is accepted");
	}
	if (vp_param(8)) good = false; // here every left out stream has an element that is needed
	bool r = c.convert(); vp_assert(r == good, "converted exactly when every index is in range and restarts can be output"); vp_assert((gErrors > 0) == !r, "a message exactly when it fails"); vp_cover(r ? "converted" : "not converted");
	if (r) { unsigned e = gErrors; size_t ni = c.getIndices().size(); std::vector<std::vector<uint8_t>> v = c.getVertices(); bool again = c.convert(); vp_assert(!again && gErrors > e, "a second conversion is refused");
		bool same = v.size() == c.getVertices().size() && ni == c.getIndices().size(); for (size_t k = 0; same && k < v.size(); ++k) same = v[k].size() == c.getVertices()[k].size() && bytesEqual(v[k].data(), c.getVertices()[k].data(), v[k].size()); vp_assert(same, "and changes nothing"); }
	else { bool again = c.convert(); vp_assert(!again, "trying again does not help"); }
	vp_assert(!gEmptyError, "messages say something"); for (auto *b : bufs) delete[] b;
}

// ---- C18. params: 1 = streams, 2 = elements of the first, 3 = elements of the second, 4 = which constructor
extern "C" void h_c18(void) {
	int ns = (int)vp_param(1), ctor = (int)vp_param(4); bool empty = ns == 0; std::vector<VertexFormat> fm; static const char *const N[3][2] = {{"a", "b"}, {"c", "d"}, {"e", "f"}};
	for (int k = 0; k < ns; ++k) { VertexFormat f; int ne = k == 2 ? 1 : (int)vp_param((unsigned)(2 + k)); for (int e = 0; e < ne; ++e) f.appendElement(N[k][e], LAY(e * 3), T_U == 2 ? ElementType::UInt : ElementType::UInt); empty = empty || ne == 0; fm.push_back(f); }
	int8_t prim = (int8_t)vp_u8("primitive"); vp_assume((prim >= -1) & (prim <= 6)); int8_t it = (int8_t)vp_u8("index type"); vp_assume((it >= 0) & (it <= 2)); uint32_t patch = vp_u32("patch"), max = vp_u32("max");
	PrimitiveType pt = static_cast<PrimitiveType>(prim); IndexType ix = static_cast<IndexType>(it); uint32_t def = it == 1 ? 0xFFFEu : it == 2 ? 0xFFFFFFFEu : 0u;
	std::unique_ptr<Converter> c;
	switch (ctor) { case 0: c.reset(new Converter(fm, ix, pt, patch, max, errorFn())); break; case 1: c.reset(new Converter(fm, ix, pt, patch, errorFn())); max = def; break; case 2: c.reset(new Converter(fm[0], ix, pt, patch, max, errorFn())); break; default: c.reset(new Converter(fm[0], ix, pt, patch, errorFn())); max = def; break; }
	uint32_t least = prim == 6 ? (patch ? patch : 1) : prim == 0 ? 1 : (prim == 1) | (prim == 2) ? 2 : prim < 0 ? 1 : 3, range = it == 1 ? 0xFFFFu : 0xFFFFFFFFu;
	bool ok = !empty & (prim >= 0) & !((prim == 6) & (patch == 0)) & ((it == 0) | ((max >= least - 1) & (max <= range)));
	vp_assert(c->isValid() == ok && static_cast<bool>(*c) == ok, "valid exactly for a usable configuration"); vp_assert((gErrors > 0) == !ok && !gEmptyError, "a message exactly when it is not");
	vp_assert(c->getIndexType() == ix && c->getPrimitiveType() == pt && c->getPatchPoints() == patch && c->getMaxIndexValue() == max, "the getters report the configuration");
	if (ok) { vp_assert(c->getVertexFormat() == fm, "the formats given"); for (int k = 0; k < ns; ++k) for (size_t e = 0; e < fm[(size_t)k].size(); ++e) vp_assert(c->getElementTransform((size_t)k, e) == Converter::Transform::Identity, "no transforms at first"); vp_cover("valid"); }
	else { vp_assert(c->getVertexFormat().empty(), "no formats when invalid"); vp_cover("invalid"); }
	vp_assert(c->getVertices().empty() && c->getIndices().empty() && c->getVertexCount() == 0, "nothing converted yet");
	if (ok && it) { if (ctor % 2) vp_assert(max < range, "the default maximum leaves the restart value free"); }
}

// ---- C19. params: 1 = scenario, 2 = positions, 3 = index types, 4 = vertices, 5 = output indices, 6/7 = fixed transforms (-1: any) of the first two elements
struct T2 { int k, e; };
extern "C" void h_c19(void) {
	Case c; int n = (int)vp_param(2), it = (int)vp_param(5); c.make((int)vp_param(1), n, vp_param(3), vp_param(4), false, true);
	Converter cv(c.outFormats(), static_cast<IndexType>(it), PrimitiveType::PointList, 0, errorFn()); std::vector<T2> el; for (int k = 0; k < c.s->nout; ++k) for (int e = 0; e < c.s->out[k].n; ++e) el.push_back({k, e});
	std::vector<int> tr(el.size(), 0);
	auto check = [&] { for (size_t i = 0; i < el.size(); ++i) { const char *nm = c.s->out[el[i].k].e[el[i].e].name; vp_assert(cv.getElementTransform((size_t)el[i].k, (size_t)el[i].e) == static_cast<Converter::Transform>(tr[i]) && cv.getElementTransform(nm) == static_cast<Converter::Transform>(tr[i]) && cv.getElementTransform(std::string(nm)) == static_cast<Converter::Transform>(tr[i]), "the transform set for the element and no other"); } };
	bool added = choice("streams first", 2) != 0; if (added) vp_assert(c.addAll(cv), "streams"); check();
	for (size_t i = 0; i < el.size(); ++i) {
		long fix = i < 2 ? vp_param(6 + i) : 0; int t = fix >= 0 ? (int)fix : choice("transform", 4); Converter::Transform x = static_cast<Converter::Transform>(t); const char *nm = c.s->out[el[i].k].e[el[i].e].name;
		switch (i < 2 ? choice("how", 3) : 0) { case 0: cv.setElementTransform((size_t)el[i].k, (size_t)el[i].e, x); break; case 1: vp_assert(cv.setElementTransform(nm, x), "by name"); break; default: vp_assert(cv.setElementTransform(std::string(nm), x), "by name"); }
		tr[i] = t; check(); }
	char unk[3] = {0, 0, 0}; vp_sym(unk, 2, "name"); bool isName = false; for (auto &x : el) isName = isName | (!std::strcmp(unk, c.s->out[x.k].e[x.e].name));
	if (!isName) { vp_assert(!cv.setElementTransform(unk, Converter::Transform::Bounds) && cv.getElementTransform(unk) == Converter::Transform::Identity, "unknown names are refused"); check(); vp_cover("unknown name"); }
	for (size_t i = 0; i < el.size(); ++i) if (tr[i] == 1) for (int p = 1; p < n; ++p) { VertexValue v = c.value(el[i].k, el[i].e, 0), w = c.value(el[i].k, el[i].e, p); for (unsigned m = 0; m < 2; ++m) { (void)vp_fork(v[m] < w[m]); (void)vp_fork(w[m] < v[m]); } } // one path per order: keeps the formulas small
	if (!added) vp_assert(c.addAll(cv), "streams"); vp_assert(cv.convert() && gErrors == 0, "converted"); check();
	for (size_t i = 0; i < el.size(); ++i) { int k = el[i].k, e = el[i].e; const El &o = c.s->out[k].e[e]; VertexValue lo = VertexValue::initialBoundsMin, hi = VertexValue::initialBoundsMax;
		for (int p = 0; p < n; ++p) c.value(k, e, p).expandBounds(lo, hi);
		for (int p = 0; p < n; ++p) { VertexValue v = c.value(k, e, p); unsigned char want[32]; std::memset(want, 0, sizeof want);
			if (tr[i] == 1) v.toData(want, LAY(o.l), TYP(o.t), lo, hi);
			else { for (unsigned m = 0; m < 4; ++m) v[m] = tr[i] == 2 ? v[m] * 2 - 1.0 : tr[i] == 3 ? v[m] * 0.5 + 0.5 : v[m]; v.toData(want, LAY(o.l), TYP(o.t)); }
			uint64_t at = (uint64_t)p; if (it) at = indexAt(cv.getIndices()[0], (size_t)p); if (at >= cv.getVertexCount()) { vp_assert(false, "vertex index"); return; }
			vp_assert(bytesEqual(want, cv.getVertices()[(size_t)k].data() + at * strideOf(c.s->out[k]) + offsetOf(c.s->out[k], e), FMTS[o.l].size), "the value the transform defines"); } }
	vp_cover("transformed");
}

// ---- C20. params: 1 = scenario, 2 = primitive, 3 = positions, 4 = output index type, 5 = index types, 6 = vertices, 7 = restarts, 8 = max
extern "C" void h_c20(void) {
	Case c; int n = (int)vp_param(3), it = (int)vp_param(4); long max = vp_param(8); c.make((int)vp_param(1), n, vp_param(5), vp_param(6), vp_param(7) != 0, vp_param(9) != 0);
	Converter cv(c.outFormats(), static_cast<IndexType>(it), static_cast<PrimitiveType>(vp_param(2)), 2, max < 0 ? maxIndexValue(static_cast<IndexType>(it)) : (uint32_t)max, errorFn());
	int k0 = (int)choice("element", 2); (void)k0; if (k0) { for (int k = 0; k < c.s->nout; ++k) cv.setElementTransform((size_t)k, 0, Converter::Transform::UNormToSNorm); }
	vp_assert(c.addAll(cv) && cv.convert() && gErrors == 0, "converted");
	for (int k = 0; k < c.s->nout; ++k) for (int e = 0; e < c.s->out[k].n; ++e) {
		VertexValue lo, hi, lo2, hi2, lo3, hi3; const char *nm = c.s->out[k].e[e].name; cv.getVertexElementBounds(lo, hi, (size_t)k, (size_t)e);
		vp_assert(cv.getVertexElementBounds(lo2, hi2, nm) && cv.getVertexElementBounds(lo3, hi3, std::string(nm)), "bounds by name");
		int st, ie; c.source(nm, st, ie); const El &o = c.s->in[st].e[ie]; const Fmt &f = FMTS[o.l];
		for (int m = 0; m < 4; ++m) {
			unsigned u = (unsigned)m; bool same3 = same(lo[u], lo2[u]) & same(hi[u], hi2[u]) & same(lo[u], lo3[u]) & same(hi[u], hi3[u]); vp_assert(same3, "the same bounds by name and by position");
			double dm = 0, dx = 0; bool any = false; // integers of at most 32 bits are exact doubles
			for (int p = 0; p < n; ++p) { if (c.restart[p]) continue;
				double d = m == 3; if (m < f.n) { uint64_t code = fmtCode(c.data[st] + (size_t)c.at[st][p] * strideOf(c.s->in[st]) + offsetOf(c.s->in[st], ie), o.l, m); d = o.t == T_F ? fromBits(code) : o.t == T_S ? (double)fmtSigned(code, f.bits[m]) : (double)code; }
				dm = !any ? d : d < dm ? d : dm; dx = !any ? d : dx < d ? d : dx; any = true; }
			if (!any) continue;
			vp_assert((lo[u] == dm) & (hi[u] == dx), "exactly the referenced values' bounds");
			vp_cover("bounds"); } }
	char unk[3] = {0, 0, 0}; vp_sym(unk, 2, "name"); bool isName = false; for (int k = 0; k < c.s->nout; ++k) for (int e = 0; e < c.s->out[k].n; ++e) isName = isName | (!std::strcmp(unk, c.s->out[k].e[e].name));
	VertexValue lo(3, 3, 3, 3), hi(4, 4, 4, 4); if (!isName) vp_assert(!cv.getVertexElementBounds(lo, hi, unk), "unknown names have no bounds");
}
