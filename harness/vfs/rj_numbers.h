// rapidjson's number formatting, replaced by a reversible spelling: 0x01, the kind, the bits as letters. Parsing text is rapidjson's own code.
#pragma once
#define RAPIDJSON_DTOA_
#define RAPIDJSON_ITOA_
#include <cstdint>
#include <cstring>
#include <rapidjson/rapidjson.h>
#include <rapidjson/internal/diyfp.h>
#include <rapidjson/internal/ieee754.h>
RAPIDJSON_NAMESPACE_BEGIN
namespace internal {
inline char *vpToken(char *b, char kind, uint64_t v, int nibbles) { *b++ = kind; for (int i = 0; i < nibbles; ++i) *b++ = (char)(0x40 + ((v >> (4 * i)) & 15)); return b; }
inline char *u32toa(uint32_t v, char *b) { return vpToken(b, 1, v, 8); } inline char *i32toa(int32_t v, char *b) { return vpToken(b, 2, (uint32_t)v, 8); }
inline char *u64toa(uint64_t v, char *b) { return vpToken(b, 3, v, 16); } inline char *i64toa(int64_t v, char *b) { return vpToken(b, 4, (uint64_t)v, 16); }
inline char *dtoa(double v, char *b, int places = 324) { uint64_t u; std::memcpy(&u, &v, 8); return vpToken(b, places == 324 ? 5 : 6, u, 16); }
}
RAPIDJSON_NAMESPACE_END
