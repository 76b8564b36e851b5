// The result file: C24.
#include "fmt.h"
#include "json.h"
#include "ResultFile.h"
#include <VFC/VertexFormat.h>
static std::string text(size_t n, const char *name) { std::string s(n, 'x'); if (n) { vp_sym(&s[0], n, name); for (char c : s) vp_assume(c != 0); } return s; }

struct RE { const char *fix; int l, t; };
static const RE EL[] = {{nullptr, 0, T_U}, {"second", 11, T_F}, {"third", 4, T_UN}, {"fourth", 19, T_F}, {"fifth", 15, T_S}, {"sixth", 3, T_SN}};
static const char *const LN[20] = {"X8", "X8Y8", "X8Y8Z8", "X8Y8Z8W8", "W2X10Y10Z10", "W2Z10Y10X10", "X16", "X16Y16", "X16Y16Z16", "X16Y16Z16W16", "X32", "X32Y32", "X32Y32Z32", "X32Y32Z32W32", "X64", "X64Y64", "X64Y64Z64", "X64Y64Z64W64", "Z10Y11X11_UFloat", "E5Z9Y9X9_UFloat"};
static const char *const TN[5] = {"UNorm", "SNorm", "UInt", "SInt", "Float"};
// params: 1 = output streams, 2 = elements of the first, 3 = length of its first name, 4 = length of its data reference, 5 = index type, 6 = index buffers, 7 = length of the index reference, 8 = bounds: 0 finite and fixed, 1 any, 9 = elements of the second (1 in those after it)
extern "C" void h_c24(void) {
	size_t ns = (size_t)vp_param(1); std::vector<size_t> ne(ns < 2 ? 2 : ns, 1); ne[0] = (size_t)vp_param(2); ne[1] = (size_t)vp_param(9); std::vector<vfc::VertexFormat> fm; std::vector<std::vector<Bounds>> bounds; std::vector<std::string> data; std::vector<std::vector<std::string>> names;
	for (size_t s = 0; s < ns; ++s) { vfc::VertexFormat f; std::vector<Bounds> b; names.emplace_back();
		for (size_t e = 0; e < ne[s]; ++e) { const RE &r = EL[(e + s * 2) % 6]; std::string nm = s == 0 && e == 0 ? text((size_t)vp_param(3), "name") : std::string(r.fix ? r.fix : "first"); if (s) nm += "2"; if (e > 5) nm += (char)('a' + e); vp_assert(f.appendElement(nm, LAY(r.l), TYP(r.t)) == vfc::VertexFormat::AddResult::Succeeded, "an element"); names[s].push_back(nm);
			Bounds x; for (unsigned m = 0; m < 4; ++m) { x.min[m] = vp_param(8) ? vp_f64("min") : 0.5 * m - 1.0 - (double)e; x.max[m] = vp_param(8) ? vp_f64("max") : 1e300 * m + (double)s; } b.push_back(x); }
		fm.push_back(f); bounds.push_back(b); data.push_back(s == 0 ? text((size_t)vp_param(4), "data") : std::string("other \"data\"\n") + std::to_string(s)); }
	uint32_t count = vp_u32("count"); vfc::IndexType it = static_cast<vfc::IndexType>(vp_param(5)); size_t ni = (size_t)vp_param(6); std::vector<IndexFileData> idx; std::vector<std::string> refs; std::vector<uint32_t> c; std::vector<int32_t> base; refs.reserve(32);
	for (size_t i = 0; i < ni; ++i) { refs.push_back(i == 0 ? text((size_t)vp_param(7), "index data") : std::string("indices\\") + std::to_string(i)); c.push_back(i < 3 ? vp_u32("index count") : (uint32_t)(i * 70000)); base.push_back(i < 3 ? (int32_t)vp_u32("base vertex") : (int32_t)(i * 100000)); idx.push_back(IndexFileData{c[i], base[i], refs[i].c_str()}); }
	std::string text_ = resultFile(fm, bounds, data, count, it, idx); JsonReader rd(text_); J j = rd.document(); vp_assert(rd.ok && j.kind == 'o', "the result is well-formed JSON"); if (!rd.ok || j.kind != 'o') return;
	bool dup = false; for (size_t a = 0; a < j.names.size(); ++a) for (size_t b = 0; b < a; ++b) dup |= j.names[a] == j.names[b]; vp_assert(!dup, "no member twice");
	const J &v = j["vertices"]; vp_assert(v.kind == 'a' && v.items.size() == ns, "an entry per output stream"); if (v.items.size() != ns) return;
	for (size_t s = 0; s < ns; ++s) { const J &x = v.items[s], &f = x["vertexFormat"]; vp_assert(f.kind == 'a' && f.items.size() == ne[s], "an entry per element"); if (f.items.size() != ne[s]) return; uint32_t off = 0;
		for (size_t e = 0; e < ne[s]; ++e) { const J &y = f.items[e]; const RE &r = EL[(e + s * 2) % 6]; vp_assert(y["name"].isStr(names[s][e]), "the name, as given"); vp_assert(y["layout"].isStr(LN[r.l]) && y["type"].isStr(TN[r.t]), "layout and type"); vp_assert(y["offset"].isUInt(off), "the offset");
			const J &lo = y["minValue"], &hi = y["maxValue"]; vp_assert(lo.kind == 'a' && hi.kind == 'a' && lo.items.size() == 4 && hi.items.size() == 4, "four components"); if (lo.items.size() != 4 || hi.items.size() != 4) return;
			for (unsigned m = 0; m < 4; ++m) { double l = bounds[s][e].min[m], h = bounds[s][e].max[m]; bool lf = isFinite(l), hf = isFinite(h);
				bool okl = lf ? (lo.items[m].kind == 'd') && lo.items[m].num == dbits(l) : lo.items[m].kind == 'n', okh = hf ? (hi.items[m].kind == 'd') && hi.items[m].num == dbits(h) : hi.items[m].kind == 'n'; vp_assert(okl, "the smallest value, or null"); vp_assert(okh, "the largest value, or null"); vp_cover(lf ? "finite" : "not finite"); }
			off += FMTS[r.l].size; }
		vp_assert(x["vertexStride"].isUInt(off), "the stride"); vp_assert(x["vertexData"].isStr(data[s]), "the data reference, as given"); }
	vp_assert(j["vertexCount"].isUInt(count), "the vertex count");
	if (it == vfc::IndexType::NoIndices) { vp_assert(!j.has("indexType") && !j.has("indexBuffers"), "no index members"); vp_cover("no indices"); }
	else { vp_assert(j["indexType"].isStr(it == vfc::IndexType::UInt16 ? "UInt16" : "UInt32"), "the index type"); const J &b = j["indexBuffers"]; if (ni) { vp_assert(b.kind == 'a' && b.items.size() == ni, "an entry per index buffer"); if (b.items.size() != ni) return; } else vp_assert(b.items.empty(), "no index buffers");
		for (size_t i = 0; i < ni; ++i) { const J &x = b.items[i]; vp_assert(x["indexCount"].isUInt(c[i]), "the index count"); vp_assert(x["baseVertex"].isUInt((uint64_t)(int64_t)base[i]), "the base vertex"); vp_assert(x["indexData"].isStr(refs[i]), "the index data reference, as given"); } vp_cover("indices"); }
}
