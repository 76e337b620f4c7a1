/* Native side of the verification intrinsics: the symbolic executor intercepts
   these by name; compiled natively they read the bytes of one concrete input. */
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
static const uint8_t *buf; static size_t len, pos;
static const uint64_t *par; static size_t npar;
void __symc_set(const uint8_t *b, size_t n, const uint64_t *p, size_t np) { buf = b; len = n; pos = 0; par = p; npar = np; }
void __sym_bytes(uint8_t *p, uint64_t n) { for (uint64_t i = 0; i < n; i++) { p[i] = pos < len ? buf[pos] : 0; pos++; } }
uint64_t __sym_param(uint64_t i) { return i < npar ? par[i] : 0; }
void __sym_assume(uint32_t c) { if (!c) { printf("ASSUME\n"); fflush(stdout); _Exit(78); } }
void __sym_assert(uint32_t c, uint64_t id) { if (!c) { printf("ASSERT %llu\n", (unsigned long long)id); fflush(stdout); _Exit(77); } }
void __sym_observe(uint64_t t, uint64_t v) { printf("OBS %llu %llu\n", (unsigned long long)t, (unsigned long long)v); }
void __sym_finding(uint64_t id) { printf("FINDING %llu\n", (unsigned long long)id); }
void __sym_reach(uint64_t t) { (void)t; }
uint64_t __sym_concrete(uint64_t v) { return v; }
/* symbolically: how many instructions the path has executed; natively: time, but
   only where a reported violation is replayed, as time is not exact */
uint64_t __sym_steps(void) { struct timespec t; clock_gettime(CLOCK_PROCESS_CPUTIME_ID, &t); return (uint64_t)t.tv_sec * 1000000000ull + (uint64_t)t.tv_nsec; }
/* how often to measure: 0 for not at all */
uint64_t __sym_reps(void) { return getenv("HARNESS_TIMING") ? 40 : 0; }
