// Names, formats and index helpers: C09 - C11.
#include "fmt.h"
#include <VFC/IndexData.h>
#include <string>
extern "C" unsigned vp_cpu_ecx(void) { return 0; }

static const char *const NAMES[2][20] = {
	{"X8", "X8Y8", "X8Y8Z8", "X8Y8Z8W8", "W2X10Y10Z10", "W2Z10Y10X10", "X16", "X16Y16", "X16Y16Z16", "X16Y16Z16W16", "X32", "X32Y32", "X32Y32Z32", "X32Y32Z32W32", "X64", "X64Y64", "X64Y64Z64", "X64Y64Z64W64", "Z10Y11X11_UFloat", "E5Z9Y9X9_UFloat"},
	{"R8", "R8G8", "R8G8B8", "R8G8B8A8", "A2R10G10B10", "A2B10G10R10", "R16", "R16G16", "R16G16B16", "R16G16B16A16", "R32", "R32G32", "R32G32B32", "R32G32B32A32", "R64", "R64G64", "R64G64B64", "R64G64B64A64", "B10G11R11_UFloat", "E5B9G9R9_UFloat"}};
static const char *const TYPES[5] = {"UNorm", "SNorm", "UInt", "SInt", "Float"};
static const char *const PRIMS[7] = {"PointList", "LineList", "LineStrip", "TriangleList", "TriangleStrip", "TriangleFan", "PatchList"};
static bool text(const char *a, const char *b) { if (!a || !b) return a == b; return std::strcmp(a, b) == 0; }
static char low(char c) { return (c >= 'A' && c <= 'Z') ? (char)(c + 32) : c; }
// every letter-case variant of a name: one symbolic choice per letter
static void anyCase(char *out, const char *name) {
	size_t i = 0;
	for (; name[i]; ++i) { char l = low(name[i]); if (l >= 'a' && l <= 'z') { uint8_t up = vp_u8("upper"); vp_assume(up < 2); out[i] = up ? (char)(l - 32) : l; } else out[i] = name[i]; }
	out[i] = 0;
}
extern "C" void h_c09_tables(void) {
	for (int color = 0; color < 2; ++color) for (int l = 0; l < 20; ++l) {
		vp_assert(text(elementLayoutName(LAY(l), color != 0), NAMES[color][l]), "the layout's documented name");
		vp_assert(elementLayoutFromName(NAMES[color][l]) == LAY(l), "the name gives the layout");
		vp_assert(elementLayoutSize(LAY(l)) == FMTS[l].size, "the size the name spells"); }
	vp_assert(text(elementLayoutName(LAY(3)), NAMES[0][3]), "XYZW names by default");
	for (int t = 0; t < 5; ++t) vp_assert(text(elementTypeName(TYP(t)), TYPES[t]) & (elementTypeFromName(TYPES[t]) == TYP(t)), "type names");
	for (int p = 0; p < 7; ++p) vp_assert(text(primitiveTypeName(static_cast<PrimitiveType>(p)), PRIMS[p]) & (primitiveTypeFromName(PRIMS[p]) == static_cast<PrimitiveType>(p)), "primitive names");
	vp_assert(elementLayoutFromName(nullptr) == ElementLayout::Invalid && elementTypeFromName(nullptr) == ElementType::Invalid && primitiveTypeFromName(nullptr) == PrimitiveType::Invalid, "null is Invalid");
	vp_assert(!elementLayoutName(ElementLayout::Invalid) && !elementLayoutName(ElementLayout::Invalid, true) && !elementTypeName(ElementType::Invalid) && !primitiveTypeName(PrimitiveType::Invalid) && elementLayoutSize(ElementLayout::Invalid) == 0, "Invalid has no name and no size");
	vp_cover("tables");
}
extern "C" void h_c09_valid(void) { // every pair of enum values; layouts also outside the enum
	int8_t l = (int8_t)vp_u8("layout"), t = (int8_t)vp_u8("type"); vp_assume((t >= -1) & (t <= 4));
	bool v = isElementValid(LAY(l), TYP(t));
	bool ok = (l >= 0) & (l < 20) & (t >= 0) & ((l >= 18) ? (t == T_F) : (l >= 10) ? (t >= T_U) : (l >= 6) ? true : (t != T_F));
	vp_assert(v == ok, "exactly the documented pairs are valid"); vp_cover(v ? "valid pair" : "invalid pair");
}
extern "C" void h_c09_range(void) { // values outside the enumerations have no name, size or validity
	int8_t x = (int8_t)vp_u8("value"); vp_assume((x < 0) | (x >= 20));
	vp_assert(!elementLayoutName(LAY(x)) && !elementLayoutName(LAY(x), true), "no layout name"); vp_assert(elementLayoutSize(LAY(x)) == 0, "no size");
	vp_assert(!elementTypeName(TYP(x)), "no type name"); vp_assert(!primitiveTypeName(static_cast<PrimitiveType>(x)), "no primitive name"); vp_cover("outside");
}
extern "C" void h_c09_case(void) { // params: 1 = which table, 2 = entry
	char s[32]; int w = (int)vp_param(1), i = (int)vp_param(2);
	if (w < 2) { anyCase(s, NAMES[w][i]); vp_assert(elementLayoutFromName(s) == LAY(i), "layout name in any case"); }
	else if (w == 2) { anyCase(s, TYPES[i]); vp_assert(elementTypeFromName(s) == TYP(i), "type name in any case"); }
	else { anyCase(s, PRIMS[i]); vp_assert(primitiveTypeFromName(s) == static_cast<PrimitiveType>(i), "primitive name in any case"); }
	vp_cover("any case");
}
static bool equalNoCase(const char *a, const char *b) { for (;; ++a, ++b) { if (low(*a) != low(*b)) return false; if (!*a) return true; } }
extern "C" void h_c09_any(void) { // params: 1 = which function, 2 = number of free characters, 3/4 = a name they replace the start or end of
	size_t n = (size_t)vp_param(2); char s[40]; long w = vp_param(1), pre = vp_param(3), keep = vp_param(4);
	const char *base = pre < 0 ? "" : w == 0 ? NAMES[pre / 20][pre % 20] : w == 1 ? TYPES[pre] : PRIMS[pre];
	std::memcpy(s, base, (size_t)keep); vp_sym(s + keep, n, "text"); s[(size_t)keep + n] = 0;
	int got, want = -1;
	if (w == 0) { got = (int)elementLayoutFromName(s); for (int c = 0; c < 2; ++c) for (int l = 0; l < 20; ++l) if (equalNoCase(s, NAMES[c][l])) want = l; }
	else if (w == 1) { got = (int)elementTypeFromName(s); for (int t = 0; t < 5; ++t) if (equalNoCase(s, TYPES[t])) want = t; }
	else { got = (int)primitiveTypeFromName(s); for (int p = 0; p < 7; ++p) if (equalNoCase(s, PRIMS[p])) want = p; }
	vp_assert(got == want, "exactly the known names are known"); vp_cover(want < 0 ? "unknown name" : "known name");
}

// ---- C10
static std::string symName(int kind) { // 0..2 free characters, or a long name that differs in the last one
	if (kind == 1) { std::string s("aFairlyLongElementName"); char c = (char)vp_u8("last"); vp_assume(c != 0); s += c; return s; }
	size_t n = (size_t)vp_fork(vp_u8("length") % 3); char b[3] = {0, 0, 0}; vp_sym(b, n, "name"); for (size_t i = 0; i < n; ++i) vp_assume(b[i] != 0);
	return std::string(b, n);
}
struct Model { int n = 0; std::string name[320]; int lay[320], typ[320]; unsigned off[320], stride = 0; };
static void compare(const VertexFormat &f, const Model &m) {
	vp_assert(f.size() == (size_t)m.n && f.empty() == (m.n == 0) && (size_t)(f.end() - f.begin()) == (size_t)m.n, "exactly the accepted elements");
	vp_assert(f.stride() == m.stride, "the stride is the sum of the sizes");
	for (int i = 0; i < m.n && (size_t)i < f.size(); ++i) { const VertexElement &e = f[(size_t)i];
		vp_assert((e.offset == m.off[i]) & (e.layout == LAY(m.lay[i])) & (e.type == TYP(m.typ[i])), "elements in order without gaps");
		vp_assert(e.name == m.name[i], "element names"); }
}
static void append(VertexFormat &f, Model &m, const std::string &name, int l, int t) {
	bool dup = false; for (int i = 0; i < m.n; ++i) dup = dup || m.name[i] == name;
	VertexFormat::AddResult r = f.appendElement(name, LAY(l), TYP(t));
	bool ok = fmtValid(l, t);
	if (ok && !dup) { vp_assert(r == VertexFormat::AddResult::Succeeded, "accepted"); m.name[m.n] = name; m.lay[m.n] = l; m.typ[m.n] = t; m.off[m.n] = m.stride; m.stride += FMTS[l].size; ++m.n; vp_cover("accepted"); }
	else { vp_assert((!ok && r == VertexFormat::AddResult::ElementInvalid) || (dup && r == VertexFormat::AddResult::NameNotUnique), "rejected for its reason"); vp_cover(ok ? "duplicate" : "invalid"); }
}
// params: 1 = appends, 2 = which append has a free layout and type, 3 = names, 4.. = packed layout*8+type of the others
extern "C" void h_c10_seq(void) {
	VertexFormat f; Model m; int n = (int)vp_param(1), k = (int)vp_param(2); compare(f, m);
	for (int i = 0; i < n; ++i) {
		int l = (int)vp_param((unsigned)(4 + i)) / 8, t = (int)vp_param((unsigned)(4 + i)) % 8;
		if (i == k) { l = (int)(int8_t)vp_u8("layout"); t = (int)(int8_t)vp_u8("type"); vp_assume((l >= -1) & (l <= 20) & (t >= -1) & (t <= 4)); l = (int)(int64_t)vp_fork((uint64_t)(int64_t)l); t = (int)(int64_t)vp_fork((uint64_t)(int64_t)t); }
		append(f, m, symName((int)vp_param(3)), l, t); compare(f, m);
	}
	std::string q = symName((int)vp_param(3)); int at = -1; for (int i = 0; i < m.n; ++i) if (m.name[i] == q) at = i;
	VertexFormat::const_iterator it = f.find(q), it2 = f.find(q.c_str());
	vp_assert(it == it2 && (at < 0 ? it == f.end() : it - f.begin() == at), "found by name"); vp_cover(at < 0 ? "not found" : "found");
	VertexFormat c = f; vp_assert(c == f && !(c != f) && c.containsElements(f), "a copy is equal");
	c.clear(); Model none; compare(c, none); vp_assert((c == f) == (m.n == 0) && f.containsElements(c) && c.containsElements(f) == (m.n == 0), "an empty format");
}
// many elements. params: 1 = appends, 2 = which append has a free layout and type, 3 = which append has a free last character
extern "C" void h_c10_many(void) {
	VertexFormat f; static Model m; int n = (int)vp_param(1), k = (int)vp_param(2); static const int L[5] = {17, 0, 8, 18, 13}, T[5] = {T_F, T_U, T_F, T_F, T_S};
	for (int i = 0; i < n; ++i) { int l = L[i % 5], t = T[i % 5]; if (i == k) { l = (int)(int8_t)vp_u8("layout"); t = (int)(int8_t)vp_u8("type"); vp_assume((l >= 0) & (l <= 20) & (t >= 0) & (t <= 4)); l = (int)vp_fork((uint64_t)l); t = (int)vp_fork((uint64_t)t); }
		std::string nm = "vertexElement" + std::to_string(i); if (i == (int)vp_param(3)) { char c = (char)vp_u8("last"); vp_assume((c >= '0') & (c <= '9')); nm.back() = c; } append(f, m, nm, l, t); }
	compare(f, m); for (int i = 0; i < m.n; ++i) { VertexFormat::const_iterator it = f.find(m.name[i]); bool ok = it != f.end() && it - f.begin() == i; vp_assert(ok, "found by name"); } vp_cover("found"); vp_assert(f.find("vertexElement") == f.end() && f.find("vertexElement1000") == f.end() && f.find("") == f.end(), "other names are not found");
	VertexFormat c = f; vp_assert(c == f && f.containsElements(c), "a copy is equal"); bool r = c.appendElement("other", ElementLayout::X8, ElementType::UInt) == VertexFormat::AddResult::Succeeded; vp_assert(r && c != f && c.containsElements(f) && !f.containsElements(c), "and not with another element"); }
static std::string shortName(const char *w) { char c = (char)vp_u8(w); vp_assume(c != 0); return std::string(1, c); }
// params: 1, 2 = elements of the two formats; equality and containment
extern "C" void h_c10_two(void) {
	VertexFormat f[2]; Model m[2]; static const int L[6] = {0, 6, 10, 13, 4, 18}, T[6] = {T_U, T_F, T_F, T_F, T_UN, T_F};
	for (int k = 0; k < 2; ++k) for (int i = 0; i < (int)vp_param((unsigned)(1 + k)); ++i) { uint8_t w = vp_u8("kind"); vp_assume(w < 3); w = (uint8_t)vp_fork(w); append(f[k], m[k], shortName("name"), L[w + 3 * (i % 2)], T[w + 3 * (i % 2)]); }
	bool eq = m[0].n == m[1].n, has = true;
	for (int i = 0; eq && i < m[0].n; ++i) eq = m[0].name[i] == m[1].name[i] && m[0].lay[i] == m[1].lay[i] && m[0].typ[i] == m[1].typ[i];
	for (int i = 0; i < m[1].n; ++i) { bool any = false; for (int j = 0; j < m[0].n; ++j) any = any || m[1].name[i] == m[0].name[j]; has = has && any; }
	vp_assert((f[0] == f[1]) == eq && (f[0] != f[1]) == !eq, "equal exactly when the elements are"); vp_assert(f[0].containsElements(f[1]) == has, "contains exactly when every name is there");
	vp_cover(eq ? "equal" : "different"); vp_cover(has ? "contained" : "not contained");
}

// ---- C11
extern "C" void h_c11_count(void) {
	int8_t p = (int8_t)vp_u8("primitive"); uint32_t n = vp_u32("count"), patch = vp_u32("patch"); vp_assume((p != 6) | (patch > 0));
	bool r = isVertexCountValid(static_cast<PrimitiveType>(p), n, patch), w = false;
	switch (p) { case 0: w = true; break; case 1: w = n % 2 == 0; break; case 2: w = (n == 0) | (n >= 2); break; case 3: w = n % 3 == 0; break; case 4: case 5: w = (n == 0) | (n >= 3); break; case 6: w = n % patch == 0; break; default: break; }
	vp_assert(r == w, "whole primitives exactly"); vp_cover(r ? "whole" : "partial");
	if (p != 6) vp_assert(isVertexCountValid(static_cast<PrimitiveType>(p), n) == w, "the patch size only matters for patches");
}
extern "C" void h_c11_index(void) { // params: 1 = index type, 2 = indices in the buffer, 3 = offset of the buffer in bytes (a multiple of the index size)
	int t = (int)vp_param(1); IndexType ty = static_cast<IndexType>(t); size_t n = (size_t)vp_param(2), w = t == 1 ? 2 : 4, off = (size_t)vp_param(3);
	alignas(8) unsigned char b[96]; vp_assume(off + n * w + 8 <= sizeof b); vp_sym(b, sizeof b, "buffer"); unsigned char o[96]; std::memcpy(o, b, sizeof b);
	uint32_t i = vp_u32("position"), v = vp_u32("value"), d = vp_u32("default"); vp_assume(i < n); i = (uint32_t)vp_fork(i);
	uint32_t before = 0; for (size_t k = 0; k < w; ++k) before |= (uint32_t)b[off + i * w + k] << (8 * k);
	vp_assert(getIndexValue(ty, b + off, i, d) == before && getIndexValue(ty, b + off, i) == before, "reads the index at the position");
	vp_assert(setIndexValue(ty, b + off, i, v), "writing succeeds");
	vp_assert(getIndexValue(ty, b + off, i, d) == (t == 1 ? (v & 0xFFFF) : v), "reads back what was written");
	bool others = true; for (size_t k = 0; k < sizeof b; ++k) if (k < off + i * w || k >= off + i * w + w) others &= b[k] == o[k];
	vp_assert(others, "other bytes are left alone"); vp_cover("index written");
}
extern "C" void h_c11_misc(void) {
	uint8_t t = vp_u8("type"); uint32_t i = vp_u32("position"), v = vp_u32("value"), d = vp_u32("default"); IndexType ty = static_cast<IndexType>(t);
	vp_assert(getIndexValue(ty, nullptr, i, d) == d && getIndexValue(ty, nullptr, i) == 0xFFFFFFFFu, "missing data yields the default"); vp_assert(!setIndexValue(ty, nullptr, i, v), "missing data is not written");
	if (t != 1 && t != 2) { unsigned char b[8] = {1, 2, 3, 4, 5, 6, 7, 8}; vp_assert(getIndexValue(ty, b, i, d) == d && !setIndexValue(ty, b, i, v) && b[0] == 1 && b[7] == 8, "no indices: nothing read or written"); }
	vp_assert(indexSize(ty) == (t == 1 ? 2u : t == 2 ? 4u : 0u), "size of an index");
	if (t <= 2) vp_assert(maxIndexValue(ty) == (t == 1 ? 0xFFFEu : t == 2 ? 0xFFFFFFFEu : 0u), "largest index besides the restart value");
	if (t == 1 || t == 2) vp_assert(primitiveRestartIndexValue(ty) == (t == 1 ? 0xFFFFu : 0xFFFFFFFFu), "restart value");
	vp_cover("index types");
}
