// Configuration files: C23. The expected outcome comes from an independent reader and validator.
#include "json.h"
#include "fmt.h"
#include "tool.h"
#include "ConfigFile.h"
static const char *const LN[2][20] = {{"x8", "x8y8", "x8y8z8", "x8y8z8w8", "w2x10y10z10", "w2z10y10x10", "x16", "x16y16", "x16y16z16", "x16y16z16w16", "x32", "x32y32", "x32y32z32", "x32y32z32w32", "x64", "x64y64", "x64y64z64", "x64y64z64w64", "z10y11x11_ufloat", "e5z9y9x9_ufloat"},
	{"r8", "r8g8", "r8g8b8", "r8g8b8a8", "a2r10g10b10", "a2b10g10r10", "r16", "r16g16", "r16g16b16", "r16g16b16a16", "r32", "r32g32", "r32g32b32", "r32g32b32a32", "r64", "r64g64", "r64g64b64", "r64g64b64a64", "b10g11r11_ufloat", "e5b9g9r9_ufloat"}};
static const char *const TN[5] = {"unorm", "snorm", "uint", "sint", "float"}; static const char *const PN[7] = {"pointlist", "linelist", "linestrip", "trianglelist", "trianglestrip", "trianglefan", "patchlist"};
static const char *const XN[4] = {"identity", "bounds", "unormtosnorm", "snormtounorm"}; static const char *const IN[2] = {"uint16", "uint32"};
static bool nameIs(const std::string &s, const char *n) { size_t l = std::strlen(n); if (s.size() != l) return false; bool r = true; for (size_t i = 0; i < l; ++i) { unsigned char c = (unsigned char)s[i]; c = (unsigned char)(c + ((c >= 'A') & (c <= 'Z')) * 32); r &= c == (unsigned char)n[i]; } return r; }
static int pick(const std::string &s, const char *const *n, int k) { for (int i = 0; i < k; ++i) if (nameIs(s, n[i])) return i; return -1; }
struct RefEl { std::string name; int l, t; }; struct RefStream { std::vector<RefEl> fmt; int it; std::string data, index; };
struct Ref { bool ok, open; std::vector<std::vector<RefEl>> out; int it, prim; uint32_t patch; std::vector<RefStream> in; std::vector<std::pair<std::string, int>> tr; Ref() : ok(false), open(false), it(0), prim(3), patch(0) {} };
static bool strEq(const std::string &a, const std::string &b) { if (a.size() != b.size()) return false; bool r = true; for (size_t i = 0; i < a.size(); ++i) r &= a[i] == b[i]; return r; }
static bool refFormat(const J &j, std::vector<RefEl> &f) {
	if (j.kind != 'a' || j.items.empty()) return false;
	for (auto &e : j.items) { if (e.kind != 'o' || e["name"].kind != 's' || e["layout"].kind != 's' || e["type"].kind != 's') return false; RefEl r; r.name = e["name"].str; r.l = pick(e["layout"].str, LN[0], 20); if (r.l < 0) r.l = pick(e["layout"].str, LN[1], 20); r.t = pick(e["type"].str, TN, 5); if (!fmtValid(r.l, r.t)) return false; for (auto &o : f) if (strEq(o.name, r.name)) return false; f.push_back(r); }
	return true; }
static bool refIndex(const J &j, int &it) { const J &x = j["indexType"]; it = 0; if (!j.has("indexType") || x.kind == 'n') return true; if (x.kind != 's') return false; it = pick(x.str, IN, 2) + 1; return it > 0; }
static Ref reference(const std::string &text) { // what the documentation says about it
	Ref r; JsonReader rd(text, false); J j = rd.document(); if (!rd.ok || j.kind != 'o') return r;
	const J &vf = j["vertexFormat"], &vs = j["vertexStreams"]; if (vf.kind != 'a' || vf.items.empty() || vs.kind != 'a' || vs.items.empty()) return r;
	for (auto &x : vf.items) { std::vector<RefEl> f; if (!refFormat(x, f)) return r; for (auto &o : r.out) for (auto &e : o) for (auto &n : f) if (strEq(e.name, n.name)) return r; r.out.push_back(f); }
	if (!refIndex(j, r.it)) return r;
	if (j.has("primitiveType")) { const J &p = j["primitiveType"]; if (p.kind == 'n') r.open = true; else { if (p.kind != 's') return r; r.prim = pick(p.str, PN, 7); if (r.prim < 0) return r; } } // null is not documented
	if (r.prim == 6) { const J &p = j["patchPoints"]; if (p.kind != '#' || (int64_t)p.num <= 0 || (int64_t)p.num > 0x7FFFFFFF) return r; r.patch = (uint32_t)p.num; }
	for (auto &x : vs.items) { RefStream s; if (x.kind != 'o' || !refFormat(x["vertexFormat"], s.fmt) || x["vertexData"].kind != 's' || !refIndex(x, s.it)) return r; s.data = x["vertexData"].str; if (s.it) { if (x["indexData"].kind != 's') return r; s.index = x["indexData"].str; } r.in.push_back(s); }
	if (j.has("vertexTransforms")) { const J &t = j["vertexTransforms"]; if (t.kind != 'a') return r; for (auto &x : t.items) { if (x.kind != 'o' || x["name"].kind != 's' || x["transform"].kind != 's') return r; int k = pick(x["transform"].str, XN, 4); if (k < 0) return r; r.tr.emplace_back(x["name"].str, k == 0 ? 0 : k); } }
	r.ok = true; return r; }
static unsigned gErrors = 0; static bool gEmpty = false;
static vfc::Converter::ErrorFunction errs() { return [](const char *m) { ++gErrors; if (!m || !m[0]) gEmpty = true; }; }
static bool sameFormat(const vfc::VertexFormat &f, const std::vector<RefEl> &r) { if (f.size() != r.size()) return false; bool ok = true; for (size_t i = 0; i < r.size(); ++i) ok = ok & strEq(f[i].name, r[i].name) & (f[i].layout == LAY(r[i].l)) & (f[i].type == TYP(r[i].t)); return ok; }
static vfc::Converter::Transform TRS[4] = {vfc::Converter::Transform::Identity, vfc::Converter::Transform::Bounds, vfc::Converter::Transform::UNormToSNorm, vfc::Converter::Transform::SNormToUNorm};
static void compare(const ConfigFile &c, bool ok, const Ref &r) {
	vp_assert((gErrors > 0) == !ok && !gEmpty, "a message exactly when loading fails"); if (r.open) return;
	vp_assert(ok == r.ok, "accepted exactly when it is a configuration"); vp_cover(ok ? "accepted" : "rejected"); if (!ok || !r.ok) return;
	bool f = c.getVertexFormat().size() == r.out.size(); for (size_t i = 0; f && i < r.out.size(); ++i) f = sameFormat(c.getVertexFormat()[i], r.out[i]); vp_assert(f, "the output formats");
	vp_assert((int)c.getIndexType() == r.it && (int)c.getPrimitiveType() == r.prim && c.getPatchPoints() == r.patch, "index type, primitive type, patch points");
	bool s = c.getVertexStreams().size() == r.in.size(); for (size_t i = 0; s && i < r.in.size(); ++i) { auto &x = c.getVertexStreams()[i]; s = sameFormat(x.vertexFormat, r.in[i].fmt) && (int)x.indexType == r.in[i].it && strEq(x.vertexData, r.in[i].data) && strEq(x.indexData, r.in[i].index); } vp_assert(s, "the input streams");
	bool t = c.getTransforms().size() == r.tr.size(); for (size_t i = 0; t && i < r.tr.size(); ++i) t = strEq(c.getTransforms()[i].first, r.tr[i].first) && c.getTransforms()[i].second == TRS[r.tr[i].second]; vp_assert(t, "the transforms"); }
static void check(const std::string &text) { ConfigFile c; gErrors = 0; bool ok = c.load(text.c_str(), "cfg", errs()); compare(c, ok, reference(text)); }
static const char *const BASE[4] = {
	"{\"vertexFormat\":[[{\"name\":\"p\",\"layout\":\"X16\",\"type\":\"UInt\"}]],\"vertexStreams\":[{\"vertexFormat\":[{\"name\":\"p\",\"layout\":\"X8\",\"type\":\"SInt\"}],\"vertexData\":\"v\"}]}",
	"{ \"vertexFormat\" : [ [ { \"name\":\"p\", \"layout\":\"R8G8\", \"type\":\"UNorm\" }, {\"name\":\"q\",\"layout\":\"E5B9G9R9_UFloat\",\"type\":\"Float\"} ],\n [ {\"name\":\"r\",\"layout\":\"X64\",\"type\":\"Float\"} ] ],\n\"indexType\":\"UInt16\",\"primitiveType\":\"PatchList\",\"patchPoints\":3,\"vertexStreams\":[{\"vertexFormat\":[{\"name\":\"p\",\"layout\":\"X8\",\"type\":\"SInt\"}],\"vertexData\":\"v\",\"indexType\":\"UInt32\",\"indexData\":\"i\"},{\"vertexFormat\":[{\"name\":\"q\",\"layout\":\"X8\",\"type\":\"UInt\"},{\"name\":\"r\",\"layout\":\"X16\",\"type\":\"Float\"}],\"vertexData\":\"w\",\"indexType\":null}],\"vertexTransforms\":[{\"name\":\"p\",\"transform\":\"Bounds\"},{\"name\":\"q\",\"transform\":\"UNormToSNorm\"}]}",
	"{\"vertexTransforms\":[{\"transform\":\"SNormToUNorm\",\"name\":\"p\",\"extra\":[1,{}]}],\"primitiveType\":\"LineStrip\",\"patchPoints\":0,\"indexType\":\"uint32\",\"vertexStreams\":[{\"indexData\":\"unused\",\"vertexData\":\"base64:AAA=\",\"vertexFormat\":[{\"type\":\"SInt\",\"layout\":\"W2X10Y10Z10\",\"name\":\"p\"}]}],\"vertexFormat\":[[{\"name\":\"p\",\"layout\":\"X8\",\"type\":\"SNorm\"}]],\"other\":{\"x\":[true,false,null,-1.5e3]}}",
	"{\"vertexFormat\":[]}"};
// params: 1 = text, 2 = first position, 3 = end, 4 = mode: 0 any byte there, 1 any byte inserted, 2 cut off there, 3 any two adjacent bytes, 4 a byte removed, 5 any two bytes
extern "C" void h_c23_mut(void) {
	std::string t = BASE[vp_param(1)]; long from = vp_param(2), to = vp_param(3), mode = vp_param(4); if (to > (long)t.size()) to = (long)t.size(); if (from >= to) { vp_cover("none"); return; }
	uint16_t p = vp_u16("position"); vp_assume((p >= from) & (p < to)); size_t at = (size_t)vp_fork(p); char b[2]; vp_sym(b, 2, "bytes"); vp_assume((b[0] != 0) & (b[1] != 0));
	switch (mode) { case 0: t[at] = b[0]; break; case 1: t.insert(at, 1, b[0]); break; case 2: t.resize(at); break; case 3: t[at] = b[0]; if (at + 1 < t.size()) t[at + 1] = b[1]; break; case 5: { t[at] = b[0]; uint16_t p2 = vp_u16("second"); vp_assume((p2 > p) & (p2 < t.size())); t[(size_t)vp_fork(p2)] = b[1]; break; } default: t.erase(at, 1); }
	check(t); }
// params: 1, 2 = members whose value varies
static const char *const ALT[9] = {nullptr, "", "null", "true", "7", "2.5", "\"zz\"", "[]", "{}"};
static long gSlot[2]; static int gAlt[2];
static void slot(std::string &s, long id, const char *name, const std::string &valid) { // an object's member (name) or an array's item
	const std::string *v = &valid; std::string alt; for (int i = 0; i < 2; ++i) if (gSlot[i] == id && gAlt[i]) { alt = ALT[gAlt[i]]; v = &alt; } if (v->empty()) return;
	if (s.back() != '{' && s.back() != '[') s += ','; if (name) { s += '"'; s += name; s += "\":"; } s += *v; }
extern "C" void h_c23_kind(void) {
	for (int i = 0; i < 2; ++i) { gSlot[i] = vp_param((unsigned)(1 + i)); uint8_t a = vp_u8("kind"); vp_assume(a < 9); gAlt[i] = (int)vp_fork(a); if (gSlot[i] < 0) vp_assume(a == 0); }
	std::string e1 = "{"; slot(e1, 4, "name", "\"p\""); slot(e1, 5, "layout", "\"X16\""); slot(e1, 6, "type", "\"UInt\""); e1 += '}'; std::string f1 = "["; slot(f1, 3, nullptr, e1); f1 += ']'; std::string v1 = "["; slot(v1, 2, nullptr, f1); v1 += ']';
	std::string e2 = "{"; slot(e2, 21, "name", "\"p\""); slot(e2, 22, "layout", "\"X16\""); slot(e2, 23, "type", "\"UInt\""); e2 += '}'; std::string f2 = "["; slot(f2, 20, nullptr, e2); f2 += ']';
	std::string s1 = "{"; slot(s1, 12, "vertexFormat", f2); slot(s1, 13, "vertexData", "\"v\""); slot(s1, 14, "indexType", "\"UInt16\""); slot(s1, 15, "indexData", "\"i\""); s1 += '}'; std::string vs = "["; slot(vs, 11, nullptr, s1); vs += ']';
	std::string t1 = "{"; slot(t1, 18, "name", "\"p\""); slot(t1, 19, "transform", "\"bounds\""); t1 += '}'; std::string vt = "["; slot(vt, 17, nullptr, t1); vt += ']';
	std::string d = "{"; slot(d, 1, "vertexFormat", v1); slot(d, 7, "indexType", "\"UInt32\""); slot(d, 8, "primitiveType", "\"PatchList\""); slot(d, 9, "patchPoints", "4"); slot(d, 10, "vertexStreams", vs); slot(d, 16, "vertexTransforms", vt); d += '}';
	std::string r = "["; slot(r, 0, nullptr, d); check(r.substr(1)); }
// params: 1 = which name, 2 = known spelling, 3 = characters kept of it (-1: all, any letter case), 4 = any characters added
extern "C" void h_c23_name(void) {
	long w = vp_param(1); const char *const *tab = w == 0 || w == 1 ? LN[w] : w == 2 ? TN : w == 3 || w == 6 ? IN : w == 4 ? PN : XN; std::string n = tab[vp_param(2)]; long keep = vp_param(3);
	if (keep < 0) { for (char &c : n) if (c >= 'a' && c <= 'z') { uint8_t up = vp_u8("upper"); vp_assume(up < 2); c = (char)(c - 32 * up); } } else n.resize((size_t)keep);
	for (long i = 0; i < vp_param(4); ++i) { uint8_t c = vp_u8("char"); vp_assume((c >= 0x20) & (c != '"') & (c != '\\')); n.push_back((char)c); }
	std::string q = "\"" + n + "\"", lay = w < 2 ? q : "\"X16\"", typ = w == 2 ? q : w < 2 && vp_param(2) >= 18 ? "\"Float\"" : "\"UInt\"";
	check("{\"vertexFormat\":[[{\"name\":\"p\",\"layout\":" + lay + ",\"type\":" + typ + "}]],\"indexType\":" + (w == 3 ? q : "null") + (w == 4 ? ",\"primitiveType\":" + q + ",\"patchPoints\":2" : "") + ",\"vertexStreams\":[{\"vertexFormat\":[{\"name\":\"p\",\"layout\":\"X8\",\"type\":\"SInt\"}],\"vertexData\":\"v\",\"indexData\":\"i\"" + (w == 6 ? ",\"indexType\":" + q : "") + "}],\"vertexTransforms\":[{\"name\":\"p\",\"transform\":" + (w == 5 ? q : "\"Bounds\"") + "}]}"); }
// params: 1 = characters
extern "C" void h_c23_num(void) { // any number-like text as the patch points
	std::string n; for (long i = 0; i < vp_param(1); ++i) { uint8_t c = vp_u8("char"); vp_assume(((c >= '0') & (c <= '9')) | (c == '-') | (c == '+') | (c == '.') | (c == 'e') | (c == 'E') | (c == ' ')); n.push_back((char)c); }
	if (vp_param(2)) n = "21474836" + n;
	check("{\"vertexFormat\":[[{\"name\":\"p\",\"layout\":\"X8\",\"type\":\"UInt\"}]],\"primitiveType\":\"PatchList\",\"patchPoints\":" + n + ",\"vertexStreams\":[{\"vertexFormat\":[{\"name\":\"p\",\"layout\":\"X8\",\"type\":\"SInt\"}],\"vertexData\":\"v\"}]}"); }
// params: 1 = elements of the first output stream, 2 = of the second, 3 = of the input stream, 4 = characters of the names, 5 = further output streams of one element
extern "C" void h_c23_unique(void) {
	std::string s[3]; for (int k = 0; k < 3; ++k) { for (long e = 0; e < vp_param((unsigned)(1 + k)); ++e) { std::string n; for (long i = 0; i < vp_param(4); ++i) { uint8_t c = vp_u8("char"); vp_assume((c >= 'A') & (c != '\\') & (c < 127)); n.push_back((char)c); } if (e) s[k] += ','; s[k] += "{\"name\":\"" + n + "\",\"layout\":\"X8\",\"type\":\"UInt\"}"; } s[k] = "[" + s[k] + "]"; }
	if (vp_param(5)) { std::string t; for (long k = 0; k < vp_param(5); ++k) { std::string n; for (long i = 0; i < vp_param(4); ++i) { uint8_t c = vp_u8("char"); vp_assume((c >= 'A') & (c != '\\') & (c < 127)); n.push_back((char)c); } t += ",[{\"name\":\"" + n + "\",\"layout\":\"X8\",\"type\":\"UInt\"}]"; } s[1] += t; }
	check("{\"vertexFormat\":[" + s[0] + (vp_param(2) ? "," + s[1] : "") + "],\"vertexStreams\":[{\"vertexFormat\":" + s[2] + ",\"vertexData\":\"v\"}]}"); }
// one object used for several files: only the last one counts. params: 1 = how it is read
extern "C" void h_c23_again(void) {
	static const char *const T[8] = {BASE[0], BASE[1], BASE[2], BASE[3], "{", "{\"vertexFormat\":[[{\"name\":\"z\",\"layout\":\"X8\",\"type\":\"UInt\"}]],\"indexType\":\"UInt32\",\"primitiveType\":\"PatchList\",\"patchPoints\":9,\"vertexStreams\":[]}",
		"{\"vertexFormat\":[[{\"name\":\"z\",\"layout\":\"X8\",\"type\":\"UInt\"}]],\"primitiveType\":\"TriangleFan\",\"vertexStreams\":[{\"vertexFormat\":[{\"name\":\"z\",\"layout\":\"X8\",\"type\":\"SInt\"}],\"vertexData\":\"v\"}],\"vertexTransforms\":[{\"name\":\"z\",\"transform\":\"bounds\"},{\"name\":\"z\",\"transform\":\"none\"}]}", ""};
	ConfigFile c; for (int i = 0; i < 2; ++i) { uint8_t k = vp_u8("text"); vp_assume(k < 8); std::string t = T[vp_fork(k)]; gErrors = 0; bool ok;
		switch (vp_param(1)) { case 0: ok = c.load(t.c_str(), "cfg", errs()); break; case 1: { std::istringstream is(t); ok = c.load(is, "cfg", errs()); break; } default: { vfs::st().nodes.clear(); vfs::add("dir/cfg.json", t); vfs::addDir("dir"); ok = c.load("dir/cfg.json", errs()); } }
		compare(c, ok, reference(t)); } }
// files that are missing or cannot be read. params: 1 = what is wrong
extern "C" void h_c23_file(void) {
	ConfigFile c; const char *name = "dir/cfg.json"; bool ok; vfs::addDir("dir"); gErrors = 0; std::string t = BASE[0]; uint16_t cut = vp_u16("position"); vp_assume(cut <= t.size());
	switch (vp_param(1)) { case 0: name = "dir/other.json"; break; case 1: name = "dir"; break; case 2: vfs::add(name, t)->readable = false; break; case 3: vfs::add(name, t)->failAt = (size_t)vp_fork(cut); vp_assume(cut < t.size()); break; case 4: name = ""; break; default: { std::istringstream is(t); is.setstate(vp_param(1) == 5 ? 1 : 4); ok = c.load(is, "cfg", errs()); vp_assert(!ok && gErrors > 0 && !gEmpty, "a stream that failed"); vp_cover("unreadable"); return; } }
	ok = c.load(name, errs()); vp_assert(!ok && gErrors > 0 && !gEmpty, "refused with a message"); vp_cover("unreadable"); }
// long files are read completely. params: 1 = length
extern "C" void h_c23_long(void) { ConfigFile c; std::string t = BASE[0]; size_t n = (size_t)vp_param(1); uint8_t b = vp_u8("byte"), k = vp_u8("where"); vp_assume(b != 0); t.insert(t.size() - 1, n - t.size(), ' '); size_t off = (size_t)vp_fork(k); vp_assume(k < 4); t[n - 1 - off] = (char)b; gErrors = 0; std::istringstream is(t); bool ok = c.load(is, "cfg", errs()); compare(c, ok, reference(t)); }
