// Harness interface. In the symbolic executor these are built in; natively they replay a model (replay.cpp).
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void vp_sym(void *p, unsigned long n, const char *name);   // make n bytes symbolic
uint8_t vp_u8(const char *name); uint16_t vp_u16(const char *name); uint32_t vp_u32(const char *name); uint64_t vp_u64(const char *name);
double vp_f64(const char *name); float vp_f32(const char *name);
void vp_assume(int cond); void vp_assert(int cond, const char *msg); void vp_cover(const char *msg);
long vp_param(unsigned long i); uint64_t vp_fork(uint64_t v);   // v, as a concrete value per path
void vp_finding(const char *id, int cond);                       // a listed known finding shows when cond can hold
int vp_symbolic(void); void vp_note(const char *msg);
}
#define CHECK(c) vp_assert(!!(c), #c)
