// Native counterpart of the harness interface: feeds the values of a solver model to the real code.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <string>
#include <vector>
static std::vector<std::vector<unsigned char>> vals; static size_t nextVal = 0; static int failed = 0;
static void take(void *p, size_t n, const char *name) {
	if (nextVal < vals.size()) { auto &v = vals[nextVal++]; if (v.size() != n) { fprintf(stderr, "REPLAY-MISMATCH size of %s\n", name); exit(78); } if (n) memcpy(p, v.data(), n); }
	else memset(p, 0, n);
}
static std::vector<long> &params() { // also needed by static initialisers, before main
	static std::vector<long> *p = nullptr;
	if (!p) { p = new std::vector<long>; std::string all, cur; int arg = 0; if (FILE *f = fopen("/proc/self/cmdline", "r")) { int c; while ((c = fgetc(f)) != EOF) { if (arg == 2) { if (c == ',' || c == 0) { if (!cur.empty() && cur != "-") p->push_back(strtol(cur.c_str(), nullptr, 0)); cur.clear(); } else cur += (char)c; } if (c == 0) ++arg; } fclose(f); } }
	return *p;
}
extern "C" {
void vp_sym(void *p, unsigned long n, const char *name) { take(p, n, name); }
uint8_t vp_u8(const char *n) { uint8_t v; take(&v, 1, n); return v; }
uint16_t vp_u16(const char *n) { uint16_t v; take(&v, 2, n); return v; }
uint32_t vp_u32(const char *n) { uint32_t v; take(&v, 4, n); return v; }
uint64_t vp_u64(const char *n) { uint64_t v; take(&v, 8, n); return v; }
double vp_f64(const char *n) { double v; take(&v, 8, n); return v; }
float vp_f32(const char *n) { float v; take(&v, 4, n); return v; }
void vp_assume(int c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(failed ? 1 : 77); } }
void vp_assert(int c, const char *m) { if (!c) { printf("ASSERT %s\n", m); fflush(stdout); failed = 1; } }
void vp_cover(const char *m) { printf("COVER %s\n", m); }
long vp_param(unsigned long i) { return i < params().size() ? params()[i] : 0; }
uint64_t vp_fork(uint64_t v) { return v; }
void vp_finding(const char *id, int c) { if (c) printf("FINDING %s\n", id); }
int vp_symbolic(void) { return 0; }
void vp_note(const char *) {}
}
int main(int argc, char **argv) { // entry params model
	if (argc < 4) return 2;
	if (FILE *f = fopen(argv[3], "r")) { char *line = nullptr; size_t cap = 0; ssize_t n;
		while ((n = getline(&line, &cap, f)) > 0) { std::vector<unsigned char> v; for (ssize_t i = 0; i + 1 < n && line[i] != '\n' && line[i] != ' '; i += 2) { unsigned x; sscanf(line + i, "%2x", &x); v.push_back((unsigned char)x); } vals.push_back(v); } free(line); fclose(f); }
	void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 2; }
	fn();
	if (!failed) printf("DONE\n");
	return failed;
}
