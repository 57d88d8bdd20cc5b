// CPU-visible nondeterminism (cpuid, tsc, hardware rng) goes to the simulator.
#pragma once
#include <cstdint>
#include <immintrin.h>
#include <x86intrin.h>
extern "C" {
void simcpu_cpuid(int out[4], int leaf, int sub);
unsigned long long simcpu_xgetbv(unsigned);
unsigned long long simcpu_rdtsc(void);
int simcpu_rdrand64(unsigned long long*);
int simcpu_rdseed64(unsigned long long*);
int simcpu_rdrand32(unsigned*);
int simcpu_rdseed32(unsigned*);
}
static inline void simcpu__cpuid(int out[4], int leaf) { simcpu_cpuid(out, leaf, 0); }
#undef __cpuid
#undef __cpuidex
#undef _xgetbv
#undef __rdtsc
#undef _rdrand32_step
#undef _rdrand64_step
#undef _rdseed32_step
#undef _rdseed64_step
#define __cpuid(o, l) simcpu__cpuid((int*)(o), (l))
#define __cpuidex(o, l, s) simcpu_cpuid((int*)(o), (l), (s))
#define _xgetbv(i) simcpu_xgetbv(i)
#define __rdtsc() simcpu_rdtsc()
#define _rdrand64_step(p) simcpu_rdrand64((unsigned long long*)(p))
#define _rdseed64_step(p) simcpu_rdseed64((unsigned long long*)(p))
#define _rdrand32_step(p) simcpu_rdrand32((unsigned*)(p))
#define _rdseed32_step(p) simcpu_rdseed32((unsigned*)(p))
#define _umul128 simcpu_umul128
static inline uint64_t simcpu_umul128(uint64_t a, uint64_t b, uint64_t* hi) { unsigned __int128 r = (unsigned __int128)a * b; *hi = (uint64_t)(r >> 64); return (uint64_t)r; }
