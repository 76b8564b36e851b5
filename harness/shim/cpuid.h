// Stands in for the compiler's <cpuid.h>: the harness decides what CPU the code under test sees.
#pragma once
extern "C" unsigned vp_cpu_ecx(void);
static inline int __get_cpuid(unsigned, unsigned *a, unsigned *b, unsigned *c, unsigned *d) { *a = *b = *d = 0; *c = vp_cpu_ecx(); return 1; }
