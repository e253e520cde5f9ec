// Cauchy Reed-Solomon erasure coding. MODE 0: bulk multiply and accumulate, 1: round trip of any data, 2: round trip for symbolic block identifiers
#include <utility>
#include "sx.h"
#include <cassert>
#include <cstring>
#include "galois_field.hh"
#include "cauchy_reed_solomon_erasure_coding.hh"
typedef CODE::GaloisField<M_, POLY_, TYPE_> GF;
typedef GF::ValueType V; typedef GF::IndexType I;
typedef CODE::CauchyReedSolomonErasureCoding<GF> CRS;
static const uint32_t N = (1u << M_) - 1;
static uint32_t xtime(uint32_t a) { return ((a << 1) ^ (-(a >> (M_ - 1) & 1) & (uint32_t)POLY_)) & N; }
static uint32_t mulref(uint32_t a, uint32_t b) { uint32_t p = 0; for (int i = 0; i < M_; ++i) { p ^= -(b >> i & 1) & a; a = xtime(a); } return p & N; }
alignas(64) static TYPE_ A[384], C[384], A0[384], C0[384];
extern "C" void harness()
{
	static GF inst;
#if MODE == 0
	int len = LENS, oa = sx_choice(0, OFFS - 1, "offset of a") , oc = sx_choice(0, OFFS - 1, "offset of c");
	const int total = 160;
	uint32_t bv = BSYM ? (uint32_t)sx_bits(M_, "b") : (uint32_t)((sx_choice(0, BN - 1, "which b") * 40503u + 1) % N + 1);
	sx_assume(bv != 0); sx_assume(bv <= N);
	sx_sym(A, sizeof(TYPE_), total, "a"); sx_sym(C, sizeof(TYPE_), total, "c");
	for (int i = 0; i < total; ++i) { A[i] &= N; C[i] &= N; A0[i] = A[i]; C0[i] = C[i]; }
	I b = index(V(bv));
	bool init = sx_choice(0, 1, "init");
	sx_merge(1);
	oa = oa * STEP_; oc = oc * STEP_;
	CRS::multiply_accumulate((V *)C + 32 + oc, (const V *)A + oa, b, len, init);
	for (int i = 0; i < total; ++i) {
		int k = i - 32 - oc; uint32_t want = C0[i];
		if (k >= 0 && k < len) want = (init ? 0 : C0[i]) ^ (BSYM ? mulref(A0[oa + k], bv) : mulref(bv, A0[oa + k]));
		sx_assert(C[i] == want, "product accumulated"); sx_assert(A[i] == A0[i], "source untouched");
	}
	sx_reach("done");
#else
	static CRS crs;
	const int n = CNT, len = LEN;
	TYPE_ ids[n];
#if MODE == 2
	for (int i = 0; i < n; ++i) { uint32_t x = sx_bits(M_, "id"); sx_assume(x >= (uint32_t)n && x <= N); ids[i] = x; for (int j = 0; j < i; ++j) sx_assume(ids[j] != ids[i]); }
	sx_merge(1);
	int col = sx_choice(0, n - 1, "block of ones");
#else
	int p = sx_choice(0, IDS - 1, "identifiers");
	uint32_t st = 88675123u + 7919u * p;
	for (int i = 0; i < n; ++i) {
		bool again = true;
		for (int tries = 0; again; ++tries) { st ^= st << 13; st ^= st >> 17; st ^= st << 5; ids[i] = p == 0 ? n + i : p == 1 ? (uint32_t)(N - i) : p == 2 ? (uint32_t)(2 * n - 1 - i) : n + st % (N + 1 - n); again = false; for (int j = 0; j < i; ++j) again |= ids[j] == ids[i]; }
	}
	sx_merge(1);
#endif
	TYPE_ ids0[n]; for (int i = 0; i < n; ++i) ids0[i] = ids[i];
	alignas(64) static TYPE_ data[n * len], keep[n * len], blocks[n * len + 1], out[n * len + 1];
	for (int i = 0; i < n * len; ++i) {
#if MODE == 2
		data[i] = i / len == col;
#else
		data[i] = SYMB == 0 || (i / len) % SYMB == p % SYMB ? sx_bits(M_, "data") : (i * 73 + 19 * p + 5) & N;
#endif
		keep[i] = data[i];
	}
	blocks[n * len] = out[n * len] = 0x5a & N;
	for (int i = 0; i < n; ++i) {
		if (API == 0) crs.encode((const V *)data, (V *)blocks + len * i, (int)ids[i], len, n);
		else if (API == 1) crs.encode(data, blocks + len * i, (int)ids[i], len, n);
		else crs.encode((const void *)data, (void *)(blocks + len * i), (int)ids[i], len * (int)sizeof(TYPE_), n);
	}
	int first = ORDER == 1 ? n - 1 : 0;
	for (int q = 0; q < n; ++q) {
		int i = ORDER == 1 ? n - 1 - q : q;
		if (API == 0) crs.decode((V *)out + len * i, (const V *)blocks, (const V *)ids, i, len, n);
		else if (API == 1) crs.decode(out + len * i, blocks, ids, i, len, n);
		else crs.decode((void *)(out + len * i), (const void *)blocks, ids, i, len * (int)sizeof(TYPE_), n);
	}
	(void)first;
	for (int i = 0; i < n * len; ++i) { sx_assert(out[i] == keep[i], "data recovered"); sx_assert(data[i] == keep[i], "data untouched by the encoder"); }
	for (int i = 0; i < n; ++i) sx_assert(ids[i] == ids0[i], "identifiers untouched");
	sx_assert(blocks[n * len] == (0x5a & N) && out[n * len] == (0x5a & N), "nothing outside the blocks is written");
	sx_reach("recovered");
#endif
}
