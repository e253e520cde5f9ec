// Ordered statistics decoding, linear codes and generator matrices.
// MODE 0: decoder, 1: list decoder, 2: generator matrix of a BCH code, 3: linear encoder with any matrix
#include "sx.h"
#include <cassert>
#include <iostream>
#include <functional>
#include "osd.hh"
static int bit(const uint8_t *p, int i) { return (p[i / 8] >> (7 - i % 8)) & 1; }
#if MODE < 2
#ifndef O_
#define O_ 1
#endif
#ifndef L_
#define L_ 4
#endif
#ifdef BCH_
struct row_t
{
	uint64_t a, b;
	row_t(uint64_t x = 0) : a(x), b(0) {}
	row_t operator<<(int n) const { row_t r(0); r.a = n < 64 ? a << n : 0; r.b = n == 0 ? b : n < 64 ? (b << n) | (a >> (64 - n)) : a << (n - 64); return r; }
	row_t operator^(row_t o) const { o.a ^= a; o.b ^= b; return o; }
	void operator^=(row_t o) { a ^= o.a; b ^= o.b; }
	int operator>>(int n) const { return (n < 64 ? a >> n : b >> (n - 64)) & 1; }
};
static row_t rows[K_];	// multiples of the generator polynomial
static void make_rows()
{
	row_t g = 1; int polys[] = { BCH_ };
	for (int m : polys) { row_t t = 0; for (int j = 0; m >> j; ++j) if ((m >> j) & 1) t ^= g << j; g = t; }
	for (int j = 0; j < K_; ++j) rows[j] = g << j;
}
#else
typedef uint32_t row_t;
static const row_t rows[K_] = { ROWS };	// bit i of a row: column i
static void make_rows() {}
#endif
static int8_t genmat[N_ * K_];
static int mags[N_], order[N_], basis[K_];
static row_t sysrow[K_];
static void profile(int p)
{
	uint32_t st = 2463534242u + 7919u * p;
	auto rnd = [&]() { st ^= st << 13; st ^= st >> 17; st ^= st << 5; return st; };
	for (int i = 0; i < N_; ++i) {
		if (TIES == 3) mags[i] = 1;
		else if (TIES == 2) mags[i] = rnd() % 3;
		else if (TIES == 1) mags[i] = rnd() % 8 * (p % 3 == 2 ? 18 : 1) + (p % 3 == 2);
		else for (bool again = true; again;) { mags[i] = p % 4 == 3 ? 128 - N_ + rnd() % N_ : p % 4 == 2 ? rnd() % N_ : rnd() % 128; again = false; for (int j = 0; j < i; ++j) again |= mags[j] == mags[i]; }
	}
	for (int i = 0; i < N_; ++i) order[i] = i;
	for (int i = 1; i < N_; ++i) for (int j = i; j && mags[order[j - 1]] < mags[order[j]]; --j) { int t = order[j]; order[j] = order[j - 1]; order[j - 1] = t; }
	for (int j = 0; j < K_; ++j) sysrow[j] = rows[j];
	int r = 0;
	for (int i = 0; i < N_ && r < K_; ++i) {	// greedy: most reliable independent columns, reduced as we go
		int c = order[i], q = r;
		while (q < K_ && !((sysrow[q] >> c) & 1)) ++q;
		if (q == K_) continue;
		row_t t = sysrow[q]; sysrow[q] = sysrow[r]; sysrow[r] = t;
		for (int j = 0; j < K_; ++j) if (j != r && ((sysrow[j] >> c) & 1)) sysrow[j] ^= sysrow[r];
		basis[r++] = c;
	}
	assert(r == K_);
}
static int8_t soft[N_], keep[N_];
static int hardbit[N_], base[N_];
static const int MAXC = 4000;
static int met[MAXC], cnt;
static int corr(row_t x)	// correlation of the base word with pattern x flipped
{
	int s = 0;
	for (int i = 0; i < N_; ++i) { int v = soft[i] < -127 ? -127 : soft[i]; s += (base[i] ^ ((x >> i) & 1)) ? -v : v; }
	return s;
}
static void candidates(int from, int left, row_t x) { met[cnt++] = corr(x); if (left) for (int j = from; j < K_; ++j) candidates(j + 1, left - 1, x ^ sysrow[j]); }
extern "C" void harness()
{
	make_rows();
	for (int j = 0; j < K_; ++j) for (int i = 0; i < N_; ++i) genmat[N_ * j + i] = (rows[j] >> i) & 1;
	int p = sx_choice(P0, P0 + PROFILES - 1, "profile");
	profile(p);
	sx_merge(MERGE_);
	int nsym = 0;
	for (int i = 0; i < N_; ++i) {
		int sym = 1;
		if (NSYM < N_) { int rank = 0; for (int j = 0; j < N_; ++j) if (order[j] == i) rank = j; sym = rank >= N_ - NSYM; }
		int s = sym ? (int)sx_bits(1, "sign") : (p >> (i % 5)) & 1 & (i % 3 == 0);
		nsym += sym;
		soft[i] = s ? -mags[i] : (mags[i] == 128 ? 127 : mags[i]);
		if (TIES == 0 && p % 4 == 3 && mags[i] == 127) soft[i] = s ? -128 : 127;
		hardbit[i] = soft[i] < 0; keep[i] = soft[i];
	}
	for (int i = 0; i < N_; ++i) { base[i] = 0; for (int j = 0; j < K_; ++j) base[i] ^= hardbit[basis[j]] & ((sysrow[j] >> i) & 1); }
#if MODE == 0
	static CODE::OrderedStatisticsDecoder<N_, K_, O_> decode;
	uint8_t out[(N_ + 7) / 8 + 2]; for (int i = 0; i < (N_ + 7) / 8 + 2; ++i) out[i] = 0x5a;
	bool unique = decode(out, soft, genmat);
#else
	static CODE::OrderedStatisticsListDecoder<N_, K_, O_, L_> decode;
	const int NB = (N_ + 7) / 8;
	uint8_t out[NB * L_ + 2]; for (int i = 0; i < NB * L_ + 2; ++i) out[i] = 0x5a;
	int rank[L_ + 1]; rank[L_] = -77;
	decode(rank, out, soft, genmat);
#endif
	sx_reach("decoded");
	for (int i = 0; i < N_; ++i) sx_assert(soft[i] == keep[i], "soft input untouched");
	cnt = 0; candidates(0, O_ < K_ ? O_ : K_, 0);
#if MODE == 0
	int best = met[0]; for (int c = 1; c < cnt; ++c) best = met[c] > best ? met[c] : best;
	int ties = 0; for (int c = 0; c < cnt; ++c) ties += met[c] == best;
	sx_assert(unique == (ties == 1), "reports a unique best code word exactly if there is only one");
	int d[K_], flips = 0, m = 0;
	for (int j = 0; j < K_; ++j) { d[j] = bit(out, basis[j]) ^ hardbit[basis[j]]; flips += d[j]; }
	for (int i = 0; i < N_; ++i) { int b = base[i]; for (int j = 0; j < K_; ++j) b ^= d[j] & ((sysrow[j] >> i) & 1); sx_assert(b == bit(out, i), "result is a code word"); int v = soft[i] < -127 ? -127 : soft[i]; m += bit(out, i) ? -v : v; }
	sx_assert(flips <= O_, "result is within reach of the basis");
	sx_assert(m == best, "result has the greatest correlation of the candidates");
	for (int i = N_; i < ((N_ + 7) / 8 + 2) * 8; ++i) sx_assert(bit(out, i) == ((0x5a >> (7 - i % 8)) & 1), "nothing outside the word is written");
#else
	int prev = 0, mm[L_];
	for (int l = 0; l < L_; ++l) {
		const uint8_t *o = out + l * NB; int d[K_], flips = 0, m = 0;
		for (int j = 0; j < K_; ++j) { d[j] = bit(o, basis[j]) ^ hardbit[basis[j]]; flips += d[j]; }
		for (int i = 0; i < N_; ++i) { int b = base[i]; for (int j = 0; j < K_; ++j) b ^= d[j] & ((sysrow[j] >> i) & 1); sx_assert(b == bit(o, i), "entry is a code word"); int v = soft[i] < -127 ? -127 : soft[i]; m += bit(o, i) ? -v : v; }
		sx_assert(flips <= O_, "entry is within reach of the basis");
		mm[l] = m;
		if (l) sx_assert(m <= mm[l - 1], "list is in order of correlation");
		sx_assert(rank[l] == (l ? prev + (mm[l - 1] != m) : 0), "rank counts distinct correlations");
		prev = rank[l];
		int better = 0; for (int c = 0; c < cnt; ++c) better += met[c] > m;
		sx_assert(better <= l, "no candidate left out is better");
		for (int k = 0; k < l; ++k) { int diff = 0; for (int i = 0; i < N_; ++i) diff |= bit(o, i) ^ bit(out + k * NB, i); sx_assert(diff, "entries are distinct"); }
		for (int i = N_; i < NB * 8; ++i) sx_assert(bit(o, i) == ((0x5a >> (7 - i % 8)) & 1), "nothing outside the words is written");
	}
	sx_assert(out[NB * L_] == 0x5a && out[NB * L_ + 1] == 0x5a && rank[L_] == -77, "nothing outside the lists is written");
#endif
}
#elif MODE == 2
extern "C" void harness()
{
	const int NP = N_ - K_;
	int polys[] = { POLYS_ };
	int8_t ref[NP + 1] = { 1 }; int deg = 0;	// ref[i]: coefficient of x^i
	for (int m : polys) {
		int md = 0; while (m >> (md + 1)) ++md;
		int8_t t[NP + 1]; for (int i = 0; i <= NP; ++i) { t[i] = 0; for (int j = 0; j <= md && j <= i; ++j) t[i] ^= ref[i - j] & (m >> j); }
		for (int i = 0; i <= NP; ++i) ref[i] = t[i] & 1;
		deg += md;
	}
	assert(deg == NP);
	int8_t poly[NP + 3]; for (int i = 0; i < NP + 3; ++i) poly[i] = 77;
	CODE::BoseChaudhuriHocquenghemGenerator<N_, K_>::poly(poly, { POLYS_ });
	for (int i = 0; i <= NP; ++i) sx_assert(poly[i] == ref[NP - i], "generator polynomial");
	sx_assert(poly[NP + 1] == 77 && poly[NP + 2] == 77, "nothing outside the polynomial is written");
	int sys = sx_choice(0, 1, "systematic");
	static int8_t mat[N_ * K_ + 2]; for (int i = 0; i < N_ * K_ + 2; ++i) mat[i] = 77;
	CODE::BoseChaudhuriHocquenghemGenerator<N_, K_>::matrix(mat, sys, { POLYS_ });
	sx_assert(mat[N_ * K_] == 77 && mat[N_ * K_ + 1] == 77, "nothing outside the matrix is written");
	for (int i = 0; i < N_ * K_; ++i) sx_assert((mat[i] & ~1) == 0, "matrix of bits");
	const int KB = (K_ + 7) / 8, NB = (N_ + 7) / 8;
	uint8_t msg[KB], word[NB + 1]; int m[K_];
	sx_sym(msg, 1, KB, "message"); sx_sym(word, 1, NB, "buffer"); word[NB] = 0x5a;
	uint8_t before = word[NB - 1];
	for (int i = 0; i < K_; ++i) m[i] = bit(msg, i);
	sx_merge(1);
	CODE::LinearEncoder<N_, K_> encode;
	encode(word, msg, mat);
	sx_reach("encoded");
	if (sys) {	// data first, then the remainder: divisible by the generator
		int r[N_]; for (int i = 0; i < N_; ++i) r[i] = bit(word, i);
		for (int i = 0; i < K_; ++i) sx_assert(r[i] == m[i], "systematic");
		for (int i = 0; i < K_; ++i) for (int j = NP; j >= 0; --j) r[i + NP - j] ^= r[i] & (j == NP ? 0 : ref[j]);
		for (int i = K_; i < N_; ++i) sx_assert(r[i] == 0, "code word is a multiple of the generator polynomial");
	} else for (int i = 0; i < N_; ++i) {
		int b = 0; for (int j = 0; j < K_; ++j) if (i - j >= 0 && i - j <= NP) b ^= m[j] & ref[NP - (i - j)];
		sx_assert(bit(word, i) == b, "code word is message times generator polynomial");
	}
	for (int i = 0; i < K_; ++i) sx_assert(bit(msg, i) == m[i], "message untouched");
	sx_assert(word[NB] == 0x5a && (N_ % 8 == 0 || ((word[NB - 1] ^ before) & ((1 << (NB * 8 - N_)) - 1)) == 0), "nothing outside the word is written");
}
#else
extern "C" void harness()
{
	const int KB = (K_ + 7) / 8, NB = (N_ + 7) / 8;
	int8_t mat[N_ * K_]; uint8_t msg[KB], word[NB + 1], old[NB + 1];
	for (int i = 0; i < N_ * K_; ++i) mat[i] = sx_bits(1, "matrix");
	sx_sym(msg, 1, KB, "message"); sx_sym(word, 1, NB + 1, "buffer"); for (int i = 0; i <= NB; ++i) old[i] = word[i];
	sx_merge(1);
	CODE::LinearEncoder<N_, K_> encode;
	encode(word, msg, mat);
	sx_reach("encoded");
	for (int i = 0; i < N_; ++i) { int b = 0; for (int j = 0; j < K_; ++j) b ^= bit(msg, j) & mat[N_ * j + i]; sx_assert(bit(word, i) == b, "bit of the code word"); }
	for (int i = N_; i < NB * 8 + 8; ++i) sx_assert(bit(word, i) == bit(old, i), "nothing outside the word is written");
}
#endif
