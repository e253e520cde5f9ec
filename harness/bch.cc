// C06/C07/C08: BCH encoder and decoder, packed bits and reference
#include <cstdint>
#include <algorithm>
#include <iostream>
#include "sx.h"
#include "galois_field.hh"
#include "bose_chaudhuri_hocquenghem_encoder.hh"
#include "reed_solomon_error_correction.hh"
#include "bose_chaudhuri_hocquenghem_decoder.hh"
typedef CODE::GaloisField<M_, POLY_, TYPE_> GF;
typedef GF::ValueType V; typedef GF::IndexType I;
static const int N = (1 << M_) - 1, K = K_, NP = N - K, DB = (K + 7) / 8, PB = (NP + 7) / 8;
typedef CODE::BoseChaudhuriHocquenghemEncoder<N, K> ENC; typedef CODE::BoseChaudhuriHocquenghemEncoderReference<NR_, FCR_, K, GF> ENCR;
typedef CODE::BoseChaudhuriHocquenghemDecoder<NR_, FCR_, K, GF> DEC; typedef CODE::BoseChaudhuriHocquenghemDecoderReference<NR_, FCR_, K, GF> DECR;
static const int minpoly[] = {POLYS_}; static const int NM = sizeof(minpoly) / sizeof(int);
static int bit(const uint8_t *b, int i) { return b[i / 8] >> (7 - i % 8) & 1; }
static void flipbit(uint8_t *b, int i, int v) { b[i / 8] ^= v << (7 - i % 8); }
// all minimal polynomials divide the code polynomial
static bool codeword(const uint8_t *c, int n)
{
	uint32_t bad = 0;
	for (int k = 0; k < NM; ++k) { int m = minpoly[k], deg = 0; while (m >> deg > 1) ++deg; uint32_t r = 0; for (int i = 0; i < n; ++i) { r = r << 1 | c[i]; r ^= -(r >> deg & 1) & m; } bad |= r; }
	return bad == 0;
}
#ifndef LEN_LO
#define LEN_LO K
#define LEN_HI K
#endif
#ifndef SYMD
#define SYMD 1
#endif
#ifndef DMERGE
#define DMERGE 6
#endif
static uint8_t data[DB + 1], par[PB + 1], od[DB + 1], op[PB + 1], cb[N];
static uint8_t *bits(int n) { for (int i = 0; i < n; ++i) cb[i] = bit(data, i); for (int i = 0; i < NP; ++i) cb[n + i] = bit(par, i); return cb; }
extern "C" void harness()
{
	sx_merge(2);
	GF *gf = new GF(); ENC *enc = new ENC({POLYS_});
	int n = sx_choice(LEN_LO, LEN_HI, "data_len");
	for (int i = 0; i < DB; ++i) { if (SYMD == 0 || i % (SYMD + !SYMD)) data[i] = i * 37 + 5; else data[i] = sx_bits(8, "data"); od[i] = data[i]; }
	data[DB] = 77; par[PB] = 99; for (int i = 0; i < PB; ++i) par[i] = 0xa5;
	if (n == K && (K & 1)) (*enc)(data, par); else (*enc)(data, par, n);
#if MODE == 0
	sx_assert(codeword(bits(n), n + NP), "every minimal polynomial divides the code polynomial");
	for (int i = 0; i < DB; ++i) sx_assert(data[i] == od[i], "data untouched"); sx_assert(data[DB] == 77 && par[PB] == 99, "nothing written past the end");
	for (int i = NP; i < 8 * PB; ++i) sx_assert(bit(par, i) == 0, "unused parity bits are zero");
	sx_reach("encoded");
#ifndef NOREF
	static TYPE_ d2[K], p2[NP + 1]; for (int i = 0; i < n; ++i) d2[i] = bit(data, i); p2[NP] = 1;
	ENCR *er = new ENCR({POLYS_}); (*er)(reinterpret_cast<const V*>(d2), reinterpret_cast<V*>(p2), n);
	for (int i = 0; i < NP; ++i) sx_assert(p2[i] == bit(par, i), "reference encoder agrees"); sx_assert(p2[NP] == 1, "nothing written past the end");
	sx_reach("reference"); delete er;
#endif
#else
	for (int i = 0; i < PB; ++i) op[i] = par[i];
	sx_merge(DMERGE); DEC *dec = new DEC(); DECR *dr = new DECR();
	static TYPE_ era[NR_ + 1], e2[NR_ + 1], d2[K + 1], p2[NP + 1]; int tot = n + NP, ret, ret2;
	auto flip = [&](int pos, int v) { if (pos < n) flipbit(data, pos, v); else flipbit(par, pos - n, v); };
	auto ref = [&](int ne) { for (int i = 0; i < n; ++i) d2[i] = bit(data, i); for (int i = 0; i < NP; ++i) p2[i] = bit(par, i); d2[n] = 2; p2[NP] = 2; for (int i = 0; i < ne; ++i) e2[i] = era[i]; };
	auto agree = [&] { uint32_t bad = ret ^ ret2; for (int i = 0; i < n; ++i) bad |= d2[i] ^ bit(data, i); for (int i = 0; i < NP; ++i) bad |= p2[i] ^ bit(par, i); bad |= (d2[n] ^ 2) | (p2[NP] ^ 2); sx_assert(bad == 0, "reference decoder agrees"); };
#if MODE == 1	// ERR_ errors, ERA_ erasures with any content
	int pos[ERR_ + ERA_ + 1], cnt = ERR_;
#ifdef STRIDE	// patterns p, p + STRIDE, ...
	
#ifndef P0MAX
#define P0MAX (tot - 1)
#endif
	int p0 = sx_choice(0, P0MAX, "first position"); for (int i = 0; i < ERR_ + ERA_; ++i) pos[i] = (p0 + i * STRIDE) % tot;
#else
	for (int i = 0; i < ERR_; ++i) pos[i] = sx_choice(i ? pos[i - 1] + 1 : 0, tot - ERR_ + i, "error position");
	for (int i = 0; i < ERA_; ++i) { int j = ERR_ + i; pos[j] = sx_choice(i ? pos[j - 1] + 1 : 0, tot - 1, "erasure position"); for (int k = 0; k < ERR_; ++k) sx_assume(pos[k] != pos[j]); }
#endif
	for (int i = 0; i < ERR_; ++i) flip(pos[i], 1);
	for (int i = 0; i < ERA_; ++i) { int v = sx_bits(1, "erased"); cnt += v; flip(pos[ERR_ + i], v); era[i] = pos[ERR_ + i]; }
	ref(ERA_);
	ret = ERA_ || n < K ? (*dec)(data, par, ERA_ ? era : 0, ERA_, n) : (*dec)(data, par);
	sx_assert(ret == cnt, "returns the number of corrected bits");
	for (int i = 0; i < DB; ++i) sx_assert(data[i] == od[i], "data restored"); for (int i = 0; i < PB; ++i) sx_assert(par[i] == op[i], "parity restored");
	sx_assert(data[DB] == 77 && par[PB] == 99, "nothing written past the end"); sx_reach("corrected");
#ifndef NOREF
	ret2 = (*dr)(reinterpret_cast<V*>(d2), reinterpret_cast<V*>(p2), ERA_ ? reinterpret_cast<I*>(e2) : 0, ERA_, n); agree();
#endif
#else	// MODE 2: every received word
	for (int i = 0; i < NP; ++i) flipbit(par, i, sx_bits(1, "change"));
	for (int i = 0; i < ERA_; ++i) era[i] = sx_choice(i ? era[i - 1] + 1 : 0, tot - 1, "erasure position");
	static uint8_t rd[DB + 1], rp[PB + 1]; for (int i = 0; i < DB; ++i) rd[i] = data[i]; for (int i = 0; i < PB; ++i) rp[i] = par[i];
	ref(ERA_);
	ret = (*dec)(data, par, ERA_ ? era : 0, ERA_, n);
	sx_assert(ret >= -1 && ret <= NR_, "return value in range"); bool okay = ret >= 0;
	int diff = 0; for (int i = 0; i < n; ++i) diff += bit(data, i) ^ bit(rd, i); for (int i = 0; i < NP; ++i) diff += bit(par, i) ^ bit(rp, i);
	sx_assert(okay || diff == 0, "failure leaves the word alone"); sx_assert(!okay || diff == ret, "return value counts the changed bits");
	sx_assert(!okay || codeword(bits(n), tot), "success yields a code word");
	for (int i = n; i < 8 * DB; ++i) sx_assert(bit(data, i) == bit(rd, i), "bits behind the data untouched"); for (int i = NP; i < 8 * PB; ++i) sx_assert(bit(par, i) == bit(rp, i), "bits behind the parity untouched");
	sx_assert(data[DB] == 77 && par[PB] == 99, "nothing written past the end"); sx_reach("decoded");
#ifndef NOREF
	ret2 = (*dr)(reinterpret_cast<V*>(d2), reinterpret_cast<V*>(p2), ERA_ ? reinterpret_cast<I*>(e2) : 0, ERA_, n); agree();
#endif
#endif
	delete dec; delete dr;
#endif
	delete enc; delete gf;
}
