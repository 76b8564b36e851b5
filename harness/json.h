// A reader for JSON text, independent of rapidjson. Numbers may also be in the reversible spelling of vfs/rj_numbers.h.
#pragma once
#include "vp.h"
#include <cstring>
#include <string>
#include <utility>
#include <vector>
struct J { char kind; uint64_t num; std::string str; std::vector<std::string> names; std::vector<J> items; // kind: 0 error, n t f, # unsigned or negative integer, d double bits, s a o
	J() : kind(0), num(0) {}
	const J &operator[](const char *n) const { static const J none; for (size_t i = 0; i < names.size(); ++i) if (names[i] == n) return items[i]; return none; }
	bool has(const char *n) const { for (auto &x : names) if (x == n) return true; return false; }
	bool isUInt(uint64_t v) const { return kind == '#' && num == v; } bool isStr(const std::string &s) const { if (kind != 's' || str.size() != s.size()) return false; bool r = true; for (size_t i = 0; i < s.size(); ++i) r &= str[i] == s[i]; return r; }
};
struct JsonReader { const unsigned char *p, *e; bool ok, tokens; // tokens: whether numbers may be in that spelling
	JsonReader(const std::string &s, bool tok = true) : p((const unsigned char *)s.data()), e((const unsigned char *)s.data() + s.size()), ok(true), tokens(tok) {}
	int cur() const { return p < e ? *p : -1; }
	void ws() { while (p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) ++p; }
	bool word(const char *w) { size_t n = std::strlen(w); if ((size_t)(e - p) < n) return ok = false; for (size_t i = 0; i < n; ++i) if (p[i] != (unsigned char)w[i]) return ok = false; p += n; return true; }
	std::string string() { std::string s; if (cur() != '"') { ok = false; return s; } ++p;
		while (true) { int c = cur(); if (c < 0x20) { ok = false; return s; } ++p; if (c == '"') return s; if (c != '\\') { s.push_back((char)c); continue; }
			c = cur(); ++p; switch (c) { case '"': case '\\': case '/': s.push_back((char)c); break; case 'b': s.push_back(8); break; case 'f': s.push_back(12); break; case 'n': s.push_back(10); break; case 'r': s.push_back(13); break; case 't': s.push_back(9); break;
				case 'u': { if (e - p < 4) { ok = false; return s; } unsigned v = 0; for (int i = 0; i < 4; ++i, ++p) { unsigned h = *p, d = 0; d = (h >= '0') & (h <= '9') ? h - '0' : d; d = (h >= 'A') & (h <= 'F') ? h - 'A' + 10 : d; d = (h >= 'a') & (h <= 'f') ? h - 'a' + 10 : d; bool hex = ((h >= '0') & (h <= '9')) | ((h >= 'A') & (h <= 'F')) | ((h >= 'a') & (h <= 'f')); if (!hex) { ok = false; return s; } v = v * 16 + d; }
					if (v < 0x80) s.push_back((char)v); else if (v < 0x800) { s.push_back((char)(0xC0 | v >> 6)); s.push_back((char)(0x80 | (v & 63))); } else { s.push_back((char)(0xE0 | v >> 12)); s.push_back((char)(0x80 | (v >> 6 & 63))); s.push_back((char)(0x80 | (v & 63))); } break; }
				default: ok = false; return s; } } }
	J value(int depth) { J j; ws(); if (depth > 8) ok = false; if (!ok) return j; int c = cur();
		if (c == '{') { j.kind = 'o'; ++p; ws(); if (cur() == '}') { ++p; return j; } while (ok) { ws(); j.names.push_back(string()); ws(); if (!ok || cur() != ':') { ok = false; break; } ++p; j.items.push_back(value(depth + 1)); ws(); if (cur() == ',') { ++p; continue; } if (cur() == '}') { ++p; break; } ok = false; } return j; }
		if (c == '[') { j.kind = 'a'; ++p; ws(); if (cur() == ']') { ++p; return j; } while (ok) { j.items.push_back(value(depth + 1)); ws(); if (cur() == ',') { ++p; continue; } if (cur() == ']') { ++p; break; } ok = false; } return j; }
		if (c == '"') { j.kind = 's'; j.str = string(); return j; }
		if (c == 'n') { j.kind = 'n'; word("null"); return j; } if (c == 't') { j.kind = 't'; word("true"); return j; } if (c == 'f') { j.kind = 'f'; word("false"); return j; }
		if (tokens && c >= 1 && c <= 6) { int n = c <= 2 ? 8 : 16; ++p; if (e - p < n) { ok = false; return j; } for (int i = 0; i < n; ++i, ++p) j.num |= (uint64_t)(*p & 15) << (4 * i); j.kind = c == 5 ? 'd' : c == 6 ? 0 : '#'; if (c == 2) j.num = (uint64_t)(int64_t)(int32_t)j.num; return j; }
		if ((c >= '0' && c <= '9') || c == '-') { bool neg = c == '-', big = false; if (neg) ++p; if (cur() < '0' || cur() > '9') { ok = false; return j; } bool zero = cur() == '0'; int digits = 0;
			while (cur() >= '0' && cur() <= '9') { if (++digits > 1 && zero) { ok = false; return j; } if (digits > 18) big = true; j.num = j.num * 10 + (uint64_t)(cur() - '0'); ++p; } if (neg) j.num = (uint64_t)(-(int64_t)j.num); j.kind = big ? 'd' : '#'; // 'd': not an integer of 18 digits; the value is not kept
			if (cur() == '.') { ++p; j.kind = 'd'; if (cur() < '0' || cur() > '9') { ok = false; return j; } while (cur() >= '0' && cur() <= '9') ++p; }
			if (cur() == 'e' || cur() == 'E') { ++p; j.kind = 'd'; if (cur() == '+' || cur() == '-') ++p; if (cur() < '0' || cur() > '9') { ok = false; return j; } while (cur() >= '0' && cur() <= '9') ++p; }
			return j; }
		ok = false; return j; }
	J document() { J j = value(0); ws(); if (p != e) ok = false; return j; }
};
