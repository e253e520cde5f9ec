// C03/C04/C05: Reed-Solomon encoder and decoder
#include <cstdint>
#include <algorithm>
#include <iostream>
#include "sx.h"
#include "galois_field.hh"
#include "reed_solomon_encoder.hh"
#include "reed_solomon_decoder.hh"
typedef CODE::GaloisField<M_, POLY_, TYPE_> GF;
typedef GF::ValueType V; typedef GF::IndexType I;
typedef CODE::ReedSolomonEncoder<NR_, FCR_, GF> ENC; typedef CODE::ReedSolomonDecoder<NR_, FCR_, GF> DEC;
static const int N = (1 << M_) - 1, K = N - NR_;
static uint32_t xtime(uint32_t a) { return ((a << 1) ^ (-(a >> (M_ - 1) & 1) & (uint32_t)POLY_)) & N; }
// value of the polynomial code[0] x^(n-1) + ... + code[n-1] at x^e, all by shift and XOR
static uint32_t evaluate(const TYPE_ *d, int n, const TYPE_ *p, int e)
{
	uint32_t s = 0;
	for (int i = 0; i < n + NR_; ++i) { for (int k = 0; k < e; ++k) s = xtime(s); s ^= i < n ? d[i] : p[i - n]; }
	return s;
}
static bool codeword(const TYPE_ *d, int n, const TYPE_ *p) { uint32_t bad = 0; for (int r = 0; r < NR_; ++r) bad |= evaluate(d, n, p, FCR_ + r); return bad == 0; }
#ifndef LEN_LO
#define LEN_LO K
#define LEN_HI K
#endif
#ifndef SYMD
#define SYMD 1
#endif
#ifndef DMERGE
#define DMERGE 0
#endif
extern "C" void harness()
{
	sx_merge(2);
	GF *gf = new GF(); ENC *enc = new ENC();
	int n = sx_choice(LEN_LO, LEN_HI, "data_len");
	static TYPE_ data[K + 2], orig[K + 2], par[NR_ + 2], opar[NR_ + 2];
	for (int i = 0; i < n; ++i) { data[i] = 0; if (i % SYMD == 0) data[i] = sx_bits(M_, "data"); orig[i] = data[i]; }
	data[n] = 5; par[NR_] = 9;
	int dl = n != K ? 0 : MODE == 0 ? sx_choice(0, 1, "default length") : 0;
	if (dl) (*enc)(data, par); else (*enc)(data, par, n);
#if MODE == 0
	for (int r = 0; r < NR_; ++r) sx_assert(evaluate(data, n, par, FCR_ + r) == 0, "root of the generator is a root of the code polynomial");
	for (int i = 0; i < n; ++i) sx_assert(data[i] == orig[i], "data untouched");
	sx_assert(data[n] == 5 && par[NR_] == 9, "nothing written past the end");
	sx_reach("encoded");
	if (n == K) { V s[NR_]; DEC *dec = new DEC(); sx_assert(dec->compute_syndromes(reinterpret_cast<const V*>(data), reinterpret_cast<const V*>(par), s) == 0, "syndromes of a codeword are zero"); delete dec; }
#else
	for (int i = 0; i < NR_; ++i) opar[i] = par[i];
	sx_merge(DMERGE);
	DEC *dec = new DEC();
	static TYPE_ era[NR_ + 1]; int ne = 0;
	auto flip = [&](int pos, uint32_t m) { if (pos < n) data[pos] ^= m; else par[pos - n] ^= m; };
#if MODE == 1
	// ERR_ errors and ERA_ erasures at any positions, any magnitudes
	static TYPE_ mag[NR_ + 1]; int cnt = 0; int pos[NR_ + 1];
#ifdef P0_LO
	int lo = P0_LO, hi = P0_HI;
#else
	int lo = 0, hi = N;
#endif
	int tot = n + NR_;
	for (int i = 0; i < ERR_; ++i) { pos[i] = i ? sx_choice(pos[i - 1] + 1, tot - 1, "error position") : sx_choice(lo, std::min(hi, tot - 1), "error position"); mag[i] = sx_bits(M_, "error"); flip(pos[i], mag[i]); cnt += mag[i] != 0; }
	for (int i = 0; i < ERA_; ++i) {
		int j = ERR_ + i; pos[j] = i ? sx_choice(pos[j - 1] + 1, tot - 1, "erasure position") : ERR_ ? sx_choice(0, tot - 1, "erasure position") : sx_choice(lo, std::min(hi, tot - 1), "erasure position");
		for (int k = 0; k < ERR_; ++k) sx_assume(pos[k] != pos[j]);
		mag[j] = sx_bits(M_, "erased"); flip(pos[j], mag[j]); cnt += mag[j] != 0;
	}
	int rev = ERA_ > 1 ? sx_choice(0, 1, "order") : 0;
	for (int i = 0; i < ERA_; ++i) era[i] = pos[ERR_ + (rev ? ERA_ - 1 - i : i)];
	int ret = ERA_ ? (*dec)(data, par, era, ERA_, n) : n == K && (pos[0] & 1) ? (*dec)(data, par) : (*dec)(data, par, 0, 0, n);
	sx_assert(ret == cnt, "returns the number of corrected symbols");
	for (int i = 0; i < n; ++i) sx_assert(data[i] == orig[i], "data restored");
	for (int i = 0; i < NR_; ++i) sx_assert(par[i] == opar[i], "parity restored");
	sx_assert(data[n] == 5 && par[NR_] == 9, "nothing written past the end");
	sx_reach("corrected");
#else
	// MODE 2: every received word is a codeword plus a change of the NR parity symbols
	static TYPE_ rd[K + 2], rp[NR_ + 2];
#ifndef CSPLIT
#define CSPLIT 0
#define P0_LO 0
#define P0_HI 0
#endif
	for (int i = 0; i < NR_; ++i) par[i] ^= i < CSPLIT ? sx_choice(i ? 0 : P0_LO, i ? N : P0_HI, "change") : sx_bits(M_, "change");
	for (int i = 0; i < n; ++i) rd[i] = data[i];
	for (int i = 0; i < NR_; ++i) rp[i] = par[i];
	for (int i = 0; i < ERA_; ++i) { int tot = n + NR_; era[i] = sx_choice(i ? era[i - 1] + 1 : 0, tot - 1, "erasure position"); }
	int ret = (*dec)(data, par, ERA_ ? era : 0, ERA_, n);
	sx_assert(ret >= -1 && ret <= NR_, "return value in range");
	if (ret < 0) {
		for (int i = 0; i < n; ++i) sx_assert(data[i] == rd[i], "failure leaves the data alone");
		for (int i = 0; i < NR_; ++i) sx_assert(par[i] == rp[i], "failure leaves the parity alone");
		sx_reach("failure");
	} else {
		int diff = 0; for (int i = 0; i < n; ++i) diff += data[i] != rd[i]; for (int i = 0; i < NR_; ++i) diff += par[i] != rp[i];
		sx_assert(diff == ret, "return value counts the changed symbols");
		sx_assert(codeword(data, n, par), "success yields a codeword");
		sx_reach("success");
	}
	sx_assert(data[n] == 5 && par[NR_] == 9, "nothing written past the end");
#endif
	delete dec;
#endif
	delete enc; delete gf;
}
