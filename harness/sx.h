// Interface between a harness and the symbolic executor (engine/), and a native
// replay runtime for it (SX_NATIVE): the inputs of a counterexample are read
// from the file named by SX_INPUT, one "sequence-number value" per line.
#pragma once
#include <cstdint>
#include <cstddef>
extern "C" {
void sx_sym(void *p, size_t elemBytes, size_t count, const char *name);	// fresh symbols
uint64_t sx_bits(int n, const char *name);			// fresh n-bit symbol
void sx_assume(int c);						// restrict to c
void sx_assert(int c, const char *what);			// obligation
void sx_reach(const char *label);				// vacuity marker
int sx_choice(int lo, int hi, const char *name);		// one path per value
void sx_merge(int mode);					// 0 fork paths, 1 merge, 2 merge if integers agree, +4 fork on symbolic addresses of symbolic data
uint64_t sx_concretize(uint64_t x);				// one path per feasible value
void sx_note(const char *what, int64_t x);
void sx_tt(int bits);						// support size of table normalisation, 255 default
int sx_is_symbolic(uint64_t x);
}
template <typename T> static inline T sx_any(const char *name) { T t; sx_sym(&t, sizeof(T), 1, name); return t; }
static inline int8_t sx_soft(int bits, const char *name) { return (int8_t)((uint8_t)sx_bits(bits, name) << (8 - bits)) >> (8 - bits); }	// signed
#ifdef SX_NATIVE
#include <cstdio>
#include <cstdlib>
#include <cstring>
static uint64_t sx_inv[1 << 16]; static char sx_inh[1 << 16]; static unsigned sx_seq; static bool sx_loaded; static int sx_failed;
static uint64_t sx_next(int bits)
{
	if (!sx_loaded) { sx_loaded = true; if (const char *f = getenv("SX_INPUT")) if (FILE *fp = fopen(f, "r")) { unsigned s; unsigned long long v; char line[256]; while (fgets(line, sizeof line, fp)) if (sscanf(line, "%u %llu", &s, &v) == 2) if (s < (1 << 16)) { sx_inv[s] = v; sx_inh[s] = 1; } fclose(fp); } }
	static int rnd = getenv("SX_RANDOM") ? atoi(getenv("SX_RANDOM")) : -1; static uint64_t st = 88172645463325252ull + 977 * (uint64_t)(rnd + 1);
	uint64_t v; unsigned q = sx_seq++;
	if (q < (1 << 16) && sx_inh[q]) v = sx_inv[q]; else if (rnd >= 0) { for (int i = 0; i < 3; ++i) { st ^= st << 13; st ^= st >> 7; st ^= st << 17; } v = st * 0x2545F4914F6CDD1Dull >> 3; } else v = 0;
	return bits < 64 ? v & (((uint64_t)1 << bits) - 1) : v;
}
extern "C" {
void sx_sym(void *p, size_t eb, size_t n, const char *) { for (size_t i = 0; i < n; ++i) { uint64_t v = sx_next(8 * eb); memcpy((char*)p + i * eb, &v, eb); } }
uint64_t sx_bits(int n, const char *) { return sx_next(n); }
void sx_assume(int c) { if (!c) { fprintf(stderr, "ASSUMPTION NOT MET\n"); exit(sx_failed ? 1 : 77); } }
void sx_assert(int c, const char *w) { if (!c) { fprintf(stderr, "ASSERT FAILED: %s\n", w); sx_failed = 1; } }
void sx_reach(const char *) {}
int sx_choice(int lo, int hi, const char *) { int64_t v = (int32_t)sx_next(32); if (v < lo || v > hi) v = lo + (int64_t)((uint64_t)v % (uint64_t)(hi - lo + 1)); return v; }
void sx_merge(int) {} void sx_tt(int) {} int sx_is_symbolic(uint64_t) { return 0; }
uint64_t sx_concretize(uint64_t x) { return x; }
void sx_note(const char *w, int64_t x) { fprintf(stderr, "NOTE %s = %lld\n", w, (long long)x); }
void harness();
}
int main() { harness(); if (sx_failed) return 1; return 0; }
#endif
