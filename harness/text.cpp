// Base64 and path helpers of the tool: C21, C22.
#include "vp.h"
#include "Base64.h"
#include "Path.h"
#include <cstring>
#include <string>
#include <vector>
extern "C" unsigned vp_cpu_ecx(void) { return 0; }
static unsigned char digit(unsigned v) { unsigned char r = (unsigned char)('A' + v); r = v >= 26 ? (unsigned char)('a' + (v - 26)) : r; r = v >= 52 ? (unsigned char)('0' + (v - 52)) : r; r = v == 62 ? (unsigned char)'+' : r; return v == 63 ? (unsigned char)'/' : r; }
static bool isDigit(unsigned char c) { return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '+') | (c == '/'); }
static unsigned value(unsigned char c) { unsigned r = 0; r = (c >= 'A') & (c <= 'Z') ? c - 'A' : r; r = (c >= 'a') & (c <= 'z') ? c - 'a' + 26u : r; r = (c >= '0') & (c <= '9') ? c - '0' + 52u : r; r = c == '+' ? 62u : r; return c == '/' ? 63u : r; }
// params: 1 = bytes, 2 = every how many are free, besides the last (0: all)
extern "C" void h_c21_enc(void) {
	size_t n = (size_t)vp_param(1); unsigned char *d = new unsigned char[n]; if (n) vp_sym(d, n, "bytes"); if (size_t k = (size_t)vp_param(2)) for (size_t i = 0; i + 1 < n; ++i) if (i % k) d[i] = (unsigned char)(i * 41 + 3);
	std::string s = base64::encode(d, n); size_t len = (n + 2) / 3 * 4; vp_assert(s.size() == len, "whole groups of four"); if (s.size() != len) return;
	bool ok = true; for (size_t i = 0; i < len; ++i) { size_t bit = (i / 4) * 24 + (i % 4) * 6; unsigned char want = '='; 
		if (bit / 8 < n) { unsigned hi = d[bit / 8], lo = bit / 8 + 1 < n ? d[bit / 8 + 1] : 0; want = digit(((hi << 8 | lo) >> (10 - bit % 8)) & 63u); } ok &= (unsigned char)s[i] == want; }
	vp_assert(ok, "the standard base64 text");
	std::vector<uint8_t> back; vp_assert(base64::decode(back, s.c_str()), "its own text is accepted"); vp_assert(back.size() == n, "as many bytes come back"); if (back.size() != n) return;
	bool same = true; for (size_t i = 0; i < n; ++i) same &= back[i] == d[i]; vp_assert(same, "the same bytes come back"); vp_cover("encoded"); delete[] d;
}
// params: 1 = characters, 2 = every how many are free, besides the last four (0: all)
extern "C" void h_c21_dec(void) {
	size_t n = (size_t)vp_param(1); char *s = new char[n + 1]; if (n) vp_sym(s, n, "text"); s[n] = 0; if (size_t k = (size_t)vp_param(2)) for (size_t i = 0; i + 4 < n; ++i) if (i % k) s[i] = (char)digit((unsigned)(i * 29 + 5) % 64); bool ok = n % 4 == 0;
	for (size_t i = 0; i < n; ++i) { unsigned char c = (unsigned char)s[i]; vp_assume(c != 0); bool good = isDigit(c); if (i + 1 == n) good |= c == '='; if (i + 2 == n) good |= (c == '=') & (s[n - 1] == '='); ok &= good; }
	std::vector<uint8_t> out; bool r = base64::decode(out, s); vp_assert(r == ok, "accepted exactly when it is base64 text"); vp_cover(r ? "accepted" : "rejected");
	if (r) { size_t pad = n ? (size_t)vp_fork((size_t)(s[n - 1] == '=') + (size_t)(s[n - 2] == '=')) : 0, want = n / 4 * 3 - pad; vp_assert(out.size() == want, "its bytes"); if (out.size() != want) return;
		bool same = true; for (size_t i = 0; i < want; ++i) { size_t bit = i * 8, q = bit / 6; unsigned hi = value((unsigned char)s[q]), lo = value((unsigned char)s[q + 1]); same &= out[i] == (unsigned char)((hi << 6 | lo) >> (4 - bit % 6)); } vp_assert(same, "its bytes"); }
	delete[] s;
}
extern "C" void h_c21_null(void) { std::vector<uint8_t> out; vp_assert(!base64::decode(out, nullptr) && out.empty(), "no text is refused"); vp_assert(base64::encode(nullptr, 0).empty(), "nothing encodes to nothing"); vp_cover("null"); }

// ---- C22
static std::string text(size_t n, const char *name) { std::string s(n, 'x'); if (n) { vp_sym(&s[0], n, name); for (char c : s) vp_assume(c != 0); } return s; }
static bool eq(const std::string &s, const char *p, size_t n) { if (s.size() != n) return false; bool r = true; for (size_t i = 0; i < n; ++i) r &= s[i] == p[i]; return r; }
// params: 1 = characters
extern "C" void h_c22_split(void) {
	size_t n = (size_t)vp_param(1); std::string p = text(n, "path"), keep = p; size_t last = 0; for (size_t i = 0; i < n; ++i) last = p[i] == '/' ? i + 1 : last; last = (size_t)vp_fork(last);
	std::string f = path::getFileName(p), d = path::getParentDirectory(p); bool abs = path::isAbsolute(p);
	vp_assert(eq(f, p.data() + last, n - last), "the file name follows the last separator"); vp_assert(eq(d, p.data(), last == 0 ? 0 : last == 1 ? 1 : last - 1), "the parent directory precedes it");
	vp_assert(abs == (n > 0 && p[0] == '/'), "absolute exactly when it begins with a separator"); vp_assert(eq(p, keep.data(), n), "the path is not changed");
	std::string j = path::join(d, f); // the same file: separators may only be dropped where several stood together
	bool same = false; if (f.empty()) same = j == d; else if (eq(j, p.data(), n)) same = true; else if (last >= 2 && p[last - 2] == '/') same = eq(j, (p.substr(0, last - 1) + f).data(), n - 1);
	vp_assert(same, "joining them gives the file again"); vp_cover(last ? "with directory" : "bare");
}
// params: 1, 2 = characters
extern "C" void h_c22_join(void) {
	size_t a = (size_t)vp_param(1), b = (size_t)vp_param(2); std::string l = text(a, "left"), r = text(b, "right"), j = path::join(l, r);
	bool abs = vp_fork(b > 0 && r[0] == '/') != 0, sep = vp_fork(a > 0 && l[a - 1] == '/') != 0; std::string want = a == 0 || abs ? r : b == 0 ? l : sep ? l + r : l + '/' + r;
	vp_assert(eq(j, want.data(), want.size()), "joined with one separator"); vp_cover("joined");
}
