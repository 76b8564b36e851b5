// The command-line tool as a whole: C25, C26, C27. The tool runs in the in-memory file system; the expected data comes from a converter the harness feeds itself.
#include "fmt.h"
#include "json.h"
#include "tool.h"
#include <VFC/Converter.h>
#include <VFC/IndexData.h>
int vfc_main(int argc, const char **argv);
static const char *const LN[20] = {"X8", "X8Y8", "X8Y8Z8", "X8Y8Z8W8", "W2X10Y10Z10", "W2Z10Y10X10", "X16", "X16Y16", "X16Y16Z16", "X16Y16Z16W16", "X32", "X32Y32", "X32Y32Z32", "X32Y32Z32W32", "X64", "X64Y64", "X64Y64Z64", "X64Y64Z64W64", "Z10Y11X11_UFloat", "E5Z9Y9X9_UFloat"};
static const char *const TN[5] = {"UNorm", "SNorm", "UInt", "SInt", "Float"}; static const char *const IN[3] = {"null", "\"UInt16\"", "\"UInt32\""}; static const char *const PN[7] = {"PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan", "PatchList"}; static const char *const XN[4] = {"Identity", "Bounds", "UNormToSNorm", "SNormToUNorm"};
struct El { const char *n; int l, t; }; typedef std::vector<El> Els; struct In { Els f; int it; std::string data, index, dref, iref; };
struct Scn { std::vector<Els> out; int it, prim, patch; std::vector<In> in; std::vector<std::pair<std::string, int>> tr; };
static Scn scenario(long k) { Scn s; s.it = 0; s.prim = 0; s.patch = 0; auto in = [&s](const Els &f, int it) { In x; x.f = f; x.it = it; s.in.push_back(x); };
	const El p8{"p", 0, T_U}, q16{"q", 6, T_S}, pn{"p", 0, T_UN}, ps{"p", 0, T_SN}, qn{"a b", 6, T_SN}, rf{"r", 10, T_F}, q8{"q", 1, T_U};
	switch (k) {
	case 0: s.out = {{p8}}; in({p8}, 0); break;                                        // as is
	case 1: s.out = {{p8}}; s.it = 1; in({p8}, 1); break;                              // indices in, indices out
	case 2: s.out = {{q16, p8}}; s.it = 2; in({p8}, 2); in({q8}, 1); s.out = {{q8}, {p8}}; break;      // two streams each way
	case 3: s.out = {{ps, rf, qn}}; in({pn, rf}, 0); in({qn}, 1); s.tr = {{"p", 2}, {"a b", 1}, {"r", 0}}; break; // transforms
	case 4: s.out = {{p8}}; s.it = 1; s.prim = 3; in({q8, p8}, 0); break;              // an unused element
	case 5: s.out = {{p8}}; s.it = 2; s.prim = 6; s.patch = 2; in({p8}, 2); break;
	case 6: s.out = {{pn}}; s.it = 1; s.prim = 1; in({ps}, 1); s.tr = {{"p", 3}, {"p", 0}, {"p", 3}}; break;
	case 7: s.out = {{p8}}; in({q8}, 0); break;                                        // nothing supplies p
	case 8: s.out = {{p8}}; s.it = 2; s.prim = 2; in({p8}, 1); break;                  // strip, restarts
	case 9: s.out = {{p8}, {q8}}; s.it = 1; in({p8}, 0); in({q8}, 0); break;
	case 11: { static const char *const N[12] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l"}; Els all; for (auto *n : N) { El e = {n, 0, T_U}; all.push_back(e); s.out.push_back({e}); } s.it = 1; in(all, 0); break; } // many output streams
	case 12: { const El p32{"p", 10, T_U}; s.out = {{p32}}; s.it = 1; in({p32}, 0); break; }
	default: s.out = {{p8}}; s.prim = 4; in({p8}, 2); break; }
	return s; }
static unsigned strideOf(const Els &f) { unsigned n = 0; for (auto &e : f) n += FMTS[e.l].size; return n; }
static VertexFormat vf(const Els &f) { VertexFormat r; for (auto &e : f) vp_assert(r.appendElement(e.n, LAY(e.l), TYP(e.t)) == VertexFormat::AddResult::Succeeded, "an element"); return r; }
static std::string fj(const Els &f) { std::string s = "["; for (size_t i = 0; i < f.size(); ++i) { if (i) s += ','; s += std::string("{\"name\":\"") + f[i].n + "\",\"layout\":\"" + LN[f[i].l] + "\",\"type\":\"" + TN[f[i].t] + "\"}"; } return s + "]"; }
static unsigned char c64(unsigned v) { return (unsigned char)(v + 65 + (v >= 26) * 6 - (v >= 52) * 75 - (v >= 62) * 15 + (v >= 63) * 3); }
static std::string b64(const std::string &d) { std::string r; for (size_t i = 0; i < d.size(); i += 3) { unsigned n = 0; size_t k = d.size() - i < 3 ? d.size() - i : 3; for (size_t j = 0; j < 3; ++j) n = n << 8 | (j < k ? (unsigned char)d[i + j] : 0u); for (size_t j = 0; j < 4; ++j) r.push_back(j <= k ? (char)c64(n >> (18 - 6 * j) & 63) : '='); } return r; }
static bool eq(const std::string &a, const char *p, size_t n) { if (a.size() != n) return false; bool r = true; for (size_t i = 0; i < n; ++i) r &= a[i] == p[i]; return r; }
static std::string config(const Scn &s) { std::string c = "{\"vertexFormat\":["; for (size_t i = 0; i < s.out.size(); ++i) c += (i ? "," : "") + fj(s.out[i]); c += std::string("],\"indexType\":") + IN[s.it] + ",\"primitiveType\":\"" + PN[s.prim] + "\",\"patchPoints\":" + std::to_string(s.patch) + ",\"vertexStreams\":[";
	for (size_t i = 0; i < s.in.size(); ++i) c += std::string(i ? "," : "") + "{\"vertexFormat\":" + fj(s.in[i].f) + ",\"vertexData\":\"" + s.in[i].dref + "\",\"indexType\":" + IN[s.in[i].it] + ",\"indexData\":\"" + s.in[i].iref + "\"}"; c += "],\"vertexTransforms\":[";
	for (size_t i = 0; i < s.tr.size(); ++i) c += (i ? ",{\"name\":\"" : "{\"name\":\"") + s.tr[i].first + "\",\"transform\":\"" + XN[s.tr[i].second] + "\"}"; return c + "]}"; }
static std::string symText(size_t n, const char *name) { std::string d(n, 0); if (n) vp_sym(&d[0], n, name); return d; }
static int run(const std::vector<std::string> &args) { std::vector<const char *> a; a.push_back("bin/vfc"); for (auto &x : args) a.push_back(x.c_str()); a.push_back(nullptr); vfs::cin_.attach(&vfs::st().in, vfs::st().inFailAt); return vfc_main((int)a.size() - 1, a.data()); }
static size_t files() { size_t n = 0; for (auto *x : vfs::st().nodes) n += !x->dir; return n; }
static bool under(const std::string &f, const std::string &dir) { std::string n = vfs::norm(dir), x = vfs::norm(f); return vfs::parentOf(x) == n; }
// where the configuration is, where relative data files are, and which way the data comes
static const char *const CFG[5] = {"cfg/c.json", "c.json", "/abs/x/c.json", "", "./cfg/c.json"}, *const CDIR[5] = {"cfg/", "", "/abs/x/", "", "cfg/"};
static void place(const Scn &s, long where) { (void)s; vfs::addDir("cfg"); vfs::addDir("/abs"); vfs::addDir("/abs/x"); vfs::addDir("/data"); vfs::addDir("cfg/sub"); (void)where; }
static std::string deliver(const std::string &bytes, int how, long where, const std::string &name) { std::string rel = CDIR[where];
	switch (how) { case 0: vfs::add(rel + name, bytes); for (long w = 0; w < 4; ++w) if (std::strcmp(CDIR[w], CDIR[where])) vfs::add(CDIR[w] + name, "wrong"); return name;
	case 1: return "base64:" + b64(bytes); case 2: vfs::add("/data/" + name, bytes); vfs::add(name, "wrong"); return "/data/" + name; case 3: return "bASe64:" + b64(bytes); case 4: vfs::add(rel + "base64" + name, bytes); return "base64" + name;
	default: vfs::add("cfg/sub/" + name, bytes); return "sub/" + name; } }
static Converter *gConv; static bool expected(const Scn &s) { // the same conversion, directly
	std::vector<VertexFormat> f; for (auto &x : s.out) f.push_back(vf(x)); gConv = new Converter(f, static_cast<IndexType>(s.it), static_cast<PrimitiveType>(s.prim), (unsigned)s.patch, [](const char *) {}); if (!*gConv) return false;
	for (auto &x : s.in) { unsigned st = strideOf(x.f), is = x.it == 1 ? 2 : x.it == 2 ? 4 : 1; if (x.data.size() % st || (x.it && x.index.size() % is)) return false; if (!gConv->addVertexStream(vf(x.f), x.data.data(), (uint32_t)(x.data.size() / st), static_cast<IndexType>(x.it), x.it ? x.index.data() : nullptr, x.it ? (uint32_t)(x.index.size() / is) : 0)) return false; }
	for (auto &t : s.tr) { static const Converter::Transform T[4] = {Converter::Transform::Identity, Converter::Transform::Bounds, Converter::Transform::UNormToSNorm, Converter::Transform::SNormToUNorm}; if (!gConv->setElementTransform(t.first, T[t.second])) return false; }
	return gConv->convert(); }
static std::string gPrefix; // of the output directory; empty: inline
static bool holds(const J &ref, const void *data, size_t n) { if (ref.kind != 's') return false; if (gPrefix.empty()) { std::string e = "base64:" + b64(std::string((const char *)data, n)); return ref.isStr(e); } if (!under(ref.str, gPrefix)) return false; vfs::Node *f = vfs::find(ref.str); return f && !f->dir && eq(f->data, (const char *)data, n); }
static void succeeded(const Scn &s, int rc) { // the printed result is the conversion
	vp_assert(rc == 0, "success"); if (rc) return; const std::string &o = vfs::st().out; vp_assert(vfs::st().err.empty(), "no message"); JsonReader rd(o); J j = rd.document(); vp_assert(rd.ok && j.kind == 'o', "one JSON document on stdout"); if (!rd.ok || j.kind != 'o') return; const Converter &c = *gConv;
	const J &v = j["vertices"]; bool ok = v.kind == 'a' && v.items.size() == s.out.size(); vp_assert(ok, "an entry per output stream"); if (!ok) return;
	for (size_t i = 0; i < s.out.size(); ++i) { const J &x = v.items[i], &f = x["vertexFormat"]; vp_assert(holds(x["vertexData"], c.getVertices()[i].data(), c.getVertices()[i].size()), "the vertices, byte for byte"); vp_assert(x["vertexStride"].isUInt(strideOf(s.out[i])), "the stride"); ok = f.items.size() == s.out[i].size(); vp_assert(ok, "an entry per element"); if (!ok) return;
		for (size_t e = 0; e < s.out[i].size(); ++e) { VertexValue lo, hi; c.getVertexElementBounds(lo, hi, i, e); vp_assert(f.items[e]["name"].isStr(s.out[i][e].n) && f.items[e]["layout"].isStr(LN[s.out[i][e].l]) && f.items[e]["type"].isStr(TN[s.out[i][e].t]), "the element"); const J &a = f.items[e]["minValue"], &b = f.items[e]["maxValue"]; ok = a.items.size() == 4 && b.items.size() == 4; vp_assert(ok, "bounds"); if (!ok) return;
			for (unsigned m = 0; m < 4; ++m) { bool g = (a.items[m].kind == 'n' ? !isFinite(lo[m]) : a.items[m].num == dbits(lo[m])) & (b.items[m].kind == 'n' ? !isFinite(hi[m]) : b.items[m].num == dbits(hi[m])); vp_assert(g, "the element's bounds"); } } }
	vp_assert(j["vertexCount"].isUInt(c.getVertices()[0].size() / strideOf(s.out[0])), "the vertex count"); const J &b = j["indexBuffers"]; size_t nb = c.getIndices().size(); vp_assert(j.has("indexType") == (s.it != 0) && (s.it == 0 || j["indexType"].isStr(s.it == 1 ? "UInt16" : "UInt32")), "the index type"); vp_assert(b.items.size() == nb, "an entry per index buffer"); if (b.items.size() != nb) return;
	for (size_t i = 0; i < nb; ++i) { const IndexData &d = c.getIndices()[i]; const J &x = b.items[i]; vp_assert(x["indexCount"].isUInt(d.count) & x["baseVertex"].isUInt((uint64_t)(int64_t)d.baseVertex), "index count and base vertex"); vp_assert(holds(x["indexData"], d.data, d.count * (s.it == 1 ? 2u : 4u)), "the indices, byte for byte"); }
	vp_cover(nb ? "converted with indices" : "converted"); }
static void refused(int rc, size_t before, bool wrote = false) { vp_assert(rc != 0, "exit status of a failure"); vp_assert(!vfs::st().err.empty(), "a message"); vp_assert(vfs::st().out.empty(), "no result"); if (!wrote) vp_assert(files() == before, "no output files"); vp_cover("refused"); }
// with empty data the tool may as well refuse
static void outcome(const Scn &s, bool ok, int rc, size_t before) { bool open = false; for (auto &x : s.in) open |= x.data.empty() || (x.it && x.index.empty()); if (open && ok && rc != 0) ok = false; if (ok) succeeded(s, rc); else refused(rc, before); }
static std::vector<std::string> arguments(long where, const std::string &out, int order) { std::vector<std::string> a, i; if (CFG[where][0]) { i.push_back(order & 1 ? "--input" : "-i"); i.push_back(CFG[where]); } if (!out.empty()) { a.push_back(order & 2 ? "--output" : "-o"); a.push_back(out); } if (order & 4) a.swap(i); i.insert(i.end(), a.begin(), a.end()); return i; }
static const char *const OUT[11] = {"", "out", "n/m", "/abs/y/z/", "cfg", "n//m", "./k", "p/q/r/s/t", "cfg/a/b/c/", "/abs/v/w/../w//u", "k"};
static void putConfig(const Scn &s, long where) { std::string c = config(s); if (CFG[where][0]) vfs::add(CFG[where], c); else vfs::st().in = c; }
static void fill(Scn &s, long nv, long ni, long past) { // any bytes; index values up to `past` beyond the vertices
	for (auto &x : s.in) { x.data = symText((size_t)nv * strideOf(x.f), "vertex data"); if (!x.it) continue; size_t is = x.it == 1 ? 2 : 4; x.index = symText((size_t)ni * is, "index data"); for (long i = 0; i < ni; ++i) { uint32_t v = 0; for (size_t b = 0; b < is; ++b) v |= (uint32_t)(unsigned char)x.index[(size_t)i * is + b] << (8 * b); vp_assume(v < (uint32_t)(nv + past)); } } }
// transformed data: one vertex byte is free per stream, the rest fixed, since the arithmetic itself is C19's
static void few(Scn &s) { if (s.tr.empty()) return; for (auto &x : s.in) { uint8_t b = vp_u8("byte"); for (size_t i = 0; i < x.data.size(); ++i) x.data[i] = i == 0 ? (char)b : (char)(i * 37 + 5); for (size_t i = 0; i < x.index.size(); ++i) x.index[i] = (char)(i == (x.it == 1 ? 2u : 4u)); } }
// params: 1 = scenario, 2 = where, 3 = vertex data delivery, 4 = index data delivery, 5 = output directory, 6 = vertices, 7 = indices, 8 = index values past the vertices, 9 = argument order
extern "C" void h_main(void) {
	Scn s = scenario(vp_param(1)); long w = vp_param(2); fill(s, vp_param(6), vp_param(7), vp_param(8)); few(s); place(s, w); int k = 0;
	for (auto &x : s.in) { std::string n = "d" + std::to_string(k++); x.dref = deliver(x.data, (int)vp_param(3), w, n + ".bin"); x.iref = x.it ? deliver(x.index, (int)vp_param(4), w, n + ".idx") : std::string("unused"); }
	putConfig(s, w); gPrefix = OUT[vp_param(5)]; if (gPrefix == "cfg") { vfs::add("cfg/vertices.0.dat", "something longer than what is written here now"); vfs::add("cfg/indices.0.dat", "old"); }
	bool ok = expected(s); size_t before = files(); int rc = run(arguments(w, gPrefix, (int)vp_param(9))); outcome(s, ok, rc, before); }
// more than 16 bits of vertices or indices. params: 1 = what: 0 one index past whole triangles, 1 one vertex past, 2 the last vertices of many by index, 3 many indices out, 4 many vertices out, 5 several index buffers. 2 = output directory
extern "C" void h_main_big(void) {
	long what = vp_param(1); Scn s = scenario(what == 5 ? 12 : 1); if (what != 5) s.in[0].it = what == 2 ? 2 : what == 1 || what == 4 ? 0 : 1; if (what != 5) s.it = what == 2 ? 2 : what == 4 ? 0 : 1; if (what < 2) s.prim = 3; In &x = s.in[0];
	size_t nv = what == 0 ? 1 : what == 1 ? 65539 : what == 2 ? 65538 : what == 3 ? 3 : 65541, ni = what == 0 ? 65539 : what == 2 ? 1 : what == 3 ? 65541 : 0; x.data.assign(nv, 0); for (size_t i = 0; i < nv; ++i) x.data[i] = (char)(i * 255 + i / 256); if (what == 5) { x.data.assign(nv * 4, 0); for (size_t i = 0; i < nv; ++i) for (int b = 0; b < 4; ++b) x.data[i * 4 + (size_t)b] = (char)(i * 2654435761u >> (8 * b)); }
	if (what > 1 && what < 5) { uint8_t f = vp_u8("vertex"); vp_assume(what != 3 || ((f > 0) & (f < 255))); x.data[nv - 1] = (char)f; } // the first two are 0 and 255: the bounds are fixed
	if (x.it) { size_t w = x.it == 1 ? 2 : 4; x.index.assign(ni * w, 0); for (size_t i = 0; i < ni; ++i) { uint32_t v = (uint32_t)(i % nv); if (i + 1 == ni) { uint8_t d = vp_u8("index"); vp_assume(d < (what == 3 ? 1 : nv < 8 ? nv : 8)); v = (uint32_t)(nv - 1 - (size_t)vp_fork(d)); } for (size_t b = 0; b < w; ++b) x.index[i * w + b] = (char)(v >> (8 * b)); } }
	place(s, 0); x.dref = deliver(x.data, 0, 0, "d.bin"); x.iref = x.it ? deliver(x.index, 0, 0, "d.idx") : std::string("unused"); putConfig(s, 0); gPrefix = OUT[vp_param(2)]; bool ok = expected(s); vp_assert(ok == (what > 1), "as many as the primitive takes"); size_t before = files(); int rc = run(arguments(0, gPrefix, 0)); outcome(s, ok, rc, before); }
// one input file that is wrong. params: 1 = scenario, 2 = where, 3 = stream, 4 = its index data instead, 5 = what: 0 missing, 1 cannot be opened, 2 read error after any number of bytes, 3 a directory, 4 any size, 5 empty name
extern "C" void h_main_bad(void) {
	Scn s = scenario(vp_param(1)); long w = vp_param(2), what = vp_param(5), t = vp_param(3); bool idx = vp_param(4) != 0; fill(s, 2, 2, 0); few(s); place(s, w); int k = 0; In &v = s.in[(size_t)t];
	uint8_t size = vp_u8("size"); vp_assume(size <= 9); std::string &target = idx ? v.index : v.data; bool fails = what != 4; if (what == 4) { size_t n = (size_t)vp_fork(size); std::string z(n, 1); for (size_t i = 0; i < n && i < target.size(); ++i) z[i] = target[i]; if (idx) for (size_t i = target.size(); i < n; ++i) z[i] = 0; target = z; }
	for (auto &x : s.in) { std::string n = "d" + std::to_string(k++); x.dref = deliver(x.data, 0, w, n + ".bin"); x.iref = x.it ? deliver(x.index, 0, w, n + ".idx") : std::string("unused"); }
	std::string path = vfs::norm(CDIR[w] + (idx ? v.iref : v.dref)); vfs::Node *f = vfs::lookup(path); if (!f) { vp_assert(0, "set up"); return; }
	switch (what) { case 0: f->path = "elsewhere"; break; case 1: f->readable = false; break; case 2: vp_assume(size < target.size()); f->failAt = (size_t)vp_fork(size); break; case 3: f->dir = true; break; case 5: (idx ? v.iref : v.dref) = ""; break; default: break; }
	putConfig(s, w); gPrefix = t & 1 ? "out" : ""; bool ok = !fails && expected(s); size_t before = files(); int rc = run(arguments(w, gPrefix, 0)); outcome(s, ok, rc, before); }
// inline data with any characters. params: 1 = scenario, 2 = index data instead, 3 = characters, 4 = characters of the prefix that are free
static int v64(unsigned char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
extern "C" void h_main_text(void) {
	Scn s = scenario(vp_param(1)); bool idx = vp_param(2) != 0; fill(s, 3, 1, 0); place(s, 0); In &v = s.in[0]; v.dref = deliver(v.data, 0, 0, "d.bin"); v.iref = v.it ? deliver(v.index, 0, 0, "d.idx") : std::string("unused");
	std::string t = symText((size_t)vp_param(3), "text"); for (char &c : t) vp_assume((c >= 0x20) & (c != '"') & (c != '\\') & (c != 0x7F)); size_t n = t.size(); bool ok = n % 4 == 0; std::string d; 
	for (size_t i = 0; i < n && ok; i += 4) { bool last = i + 4 == n; int pad = last && t[i + 3] == '=' ? t[i + 2] == '=' ? 2 : 1 : 0; int q[4] = {0, 0, 0, 0}; for (int j = 0; j < 4 - pad; ++j) { q[j] = v64((unsigned char)t[i + (size_t)j]); if (q[j] < 0) ok = false; } if (!ok) break; unsigned u = (unsigned)(q[0] << 18 | q[1] << 12 | q[2] << 6 | q[3]); for (int j = 0; j < 3 - pad; ++j) d.push_back((char)(u >> (16 - 8 * j))); }
	(idx ? v.iref : v.dref) = "base64:" + t; if (ok) (idx ? v.index : v.data) = d; putConfig(s, 0); gPrefix = ""; ok = ok && expected(s); size_t before = files(); int rc = run(arguments(0, "", 0)); outcome(s, ok, rc, before); }
// a transform for any name. params: 1 = scenario, 2 = characters
extern "C" void h_main_name(void) {
	Scn s = scenario(vp_param(1)); fill(s, 2, 2, 0); few(s); place(s, 0); int k = 0; for (auto &x : s.in) { std::string n = "d" + std::to_string(k++); x.dref = deliver(x.data, 0, 0, n + ".bin"); x.iref = x.it ? deliver(x.index, 0, 0, n + ".idx") : std::string("unused"); }
	std::string t = symText((size_t)vp_param(2), "name"); for (char &c : t) vp_assume((c >= 0x20) & (c != '"') & (c != '\\') & (c != 0x7F)); s.tr.insert(s.tr.begin(), std::make_pair(t, 0)); putConfig(s, 0); gPrefix = "out"; bool known = false; for (auto &f : s.out) for (auto &e : f) known |= t.size() == std::strlen(e.n) && eq(t, e.n, t.size());
	bool ok = known && expected(s); size_t before = files(); int rc = run(arguments(0, gPrefix, 0)); outcome(s, ok, rc, before); }
// output that cannot be written. params: 1 = scenario, 2 = output directory, 3 = what: 0 opening, 1 writing, 2 closing, 3 creating a directory, 4 printing, 5 flushing, 6 a file where the directory should be, 7 a file where its parent should be, 8 a directory where a file should be
extern "C" void h_main_out(void) {
	Scn s = scenario(vp_param(1)); long what = vp_param(3); fill(s, 2, 2, 0); few(s); place(s, 0); int k = 0; for (auto &x : s.in) { std::string n = "d" + std::to_string(k++); x.dref = deliver(x.data, 0, 0, n + ".bin"); x.iref = x.it ? deliver(x.index, 0, 0, n + ".idx") : std::string("unused"); }
	putConfig(s, 0); gPrefix = OUT[vp_param(2)]; bool ok = expected(s); auto &v = vfs::st(); uint8_t at = vp_u8("which"); vp_assume(at < 6); int a = (int)vp_fork(at); bool surely = false;
	switch (what) { case 0: v.failOpen = a; break; case 1: v.failWrite = a; break; case 2: v.failClose = a; break; case 3: v.failMkdir = a; break; case 4: v.failOut = a; break; case 5: v.failFlush = 1; surely = true; break; case 6: vfs::add(vfs::norm(gPrefix), "a file"); surely = true; break; case 7: vfs::add(vfs::parentOf(vfs::norm(gPrefix)), "a file"); surely = true; break; default: vfs::addDir(gPrefix); vfs::addDir(gPrefix + (a & 1 ? "/indices.0.dat" : "/vertices.0.dat")); surely = !(a & 1) || !gConv->getIndices().empty(); break; }
	int rc = run(arguments(0, gPrefix, 0)); bool hit = surely || v.failOpen >= 0 ? v.openN > v.failOpen : false; hit = surely || (what == 0 && v.openN > a) || (what == 1 && v.writeN > a) || (what == 2 && v.closeN > a) || (what == 3 && v.mkdirN > a) || (what == 4 && v.outN > a);
	if (!ok) { refused(rc, 0, true); return; } if (!hit) { succeeded(s, rc); return; } vp_assert(rc != 0, "exit status of a failure"); vp_assert(!v.err.empty(), "a message"); if (what != 4 && what != 5) vp_assert(v.out.empty(), "no result"); vp_cover("cannot write"); }
// the configuration itself. params: 1 = what: 0 missing, 1 unreadable, 2 a directory, 3 read error, 4 bad text, 5 stdin read error, 6 empty stdin
extern "C" void h_main_cfg(void) {
	Scn s = scenario(1); long what = vp_param(1); fill(s, 2, 2, 0); long w = what >= 5 ? 3 : 0; place(s, w); s.in[0].dref = deliver(s.in[0].data, 0, w, "d.bin"); s.in[0].iref = deliver(s.in[0].index, 0, w, "d.idx"); std::string c = config(s); uint16_t at = vp_u16("position"); vp_assume(at < c.size()); vfs::st().in = w == 3 ? c : "{}";
	vfs::Node *f = vfs::add("cfg/c.json", c); switch (what) { case 0: f->path = "cfg/d.json"; break; case 1: f->readable = false; break; case 2: f->dir = true; break; case 3: f->failAt = (size_t)vp_fork(at); break; case 4: f->data[(size_t)vp_fork(at)] = '\1'; break; case 5: vfs::st().inFailAt = (size_t)vp_fork(at); break; default: vfs::st().in.clear(); break; }
	size_t before = files(); size_t dirs = vfs::st().nodes.size(); int rc = run(arguments(w, "fresh", 0)); refused(rc, before); vp_assert(vfs::st().nodes.size() == dirs, "nothing created"); }
// the command line. params: 1 = number of arguments, 2.. = each: >= 0 that many free characters, else a fixed word
static const char *const WORD[9] = {"", "-i", "--input", "-o", "--output", "-h", "--help", "cfg/c.json", "o2"};
extern "C" void h_c27(void) {
	Scn s = scenario(1); fill(s, 2, 2, 0); place(s, 0); s.in[0].dref = deliver(s.in[0].data, 2, 0, "d.bin"); s.in[0].iref = deliver(s.in[0].index, 2, 0, "d.idx"); putConfig(s, 0); vfs::st().in = config(s); bool conv = expected(s); vp_assert(conv, "convertible");
	std::vector<std::string> a; for (long i = 0; i < vp_param(1); ++i) { long k = vp_param((unsigned)(2 + i)); if (k < 0) { a.push_back(WORD[-k]); continue; } std::string t = symText((size_t)k, "argument"); for (char c : t) vp_assume(c != 0); a.push_back(t); }
	auto is = [](const std::string &x, const char *l, const char *r) { return (x.size() == std::strlen(l) && eq(x, l, x.size())) || (x.size() == std::strlen(r) && eq(x, r, x.size())); };
	int state = 0; std::string in, out; size_t i = 0; for (; i < a.size() && state == 0; ++i) { if (is(a[i], "-h", "--help")) state = 1; else if (is(a[i], "-i", "--input")) { if (i + 1 == a.size()) state = 2; else in = a[++i]; } else if (is(a[i], "-o", "--output")) { if (i + 1 == a.size()) state = 2; else out = a[++i]; } else state = 2; }
	size_t before = vfs::st().nodes.size(), fb = files(); std::string n = vfs::norm(out); bool canMake = true; for (size_t q = 1; q <= n.size(); ++q) if (q == n.size() || n[q] == '/') { vfs::Node *x = vfs::lookup(n.substr(0, q)); canMake = canMake && !(x && !x->dir); } int rc = run(a); auto &v = vfs::st();
	if (state == 1) { vp_assert(rc == 0 && v.err.empty(), "help succeeds"); vp_assert(v.nodes.size() == before, "help does nothing else"); bool all = true; static const char *const need[] = {"-h", "--help", "-i", "--input", "-o", "--output"}; for (auto *n : need) all = all && v.out.find(n) != std::string::npos; for (auto *n : TN) all = all && v.out.find(n) != std::string::npos; for (auto *n : LN) all = all && v.out.find(n) != std::string::npos; for (auto *n : PN) all = all && v.out.find(n) != std::string::npos; for (auto *n : XN) all = all && v.out.find(n) != std::string::npos; vp_assert(all, "the help names every option, layout, type, primitive and transform"); vp_cover("help"); return; }
	if (state == 2) { refused(rc, fb); vp_assert(v.nodes.size() == before, "nothing created"); return; }
	bool known = in.empty() || vfs::norm(in) == "cfg/c.json"; gPrefix = out; if (!known) { refused(rc, fb); return; } if (!canMake) { refused(rc, fb); return; } succeeded(s, rc); }
