// Cauchy prime field erasure coding: round trip through any set of blocks
#include "sx.h"
#include <cassert>
#include <cstring>
#include "prime_field.hh"
#include "cauchy_prime_field_erasure_coding.hh"
typedef CODE::PrimeField<TYPE_, P_> PF;
typedef CODE::CauchyPrimeFieldErasureCoding<PF, IO_, MAXL> CPF;
static const int P = P_;
static CPF cpf;
extern "C" void harness()
{
	const int n = CNT, len = LEN;
	IO_ ids[n];
	int p = sx_choice(P0, P0 + IDS - 1, "identifiers");
	uint32_t st = 88675123u + 7919u * p;
	for (int i = 0; i < n; ++i) {
		bool again = true;
		while (again) { st ^= st << 13; st ^= st >> 17; st ^= st << 5; ids[i] = p == 0 ? n + i : p == 1 ? P / 2 - 1 - i : p == 2 ? 2 * n - 1 - i : n + st % (P / 2 - n); again = false; for (int j = 0; j < i; ++j) again |= ids[j] == ids[i]; }
	}
	static IO_ data[n * len], keep[n * len], blocks[n * len + 1], out[n * len + 1]; IO_ subs[n], subs0[n];
	int where = NSYM >= n * len ? 0 : sx_choice(0, n * len - NSYM, "symbolic data");
	for (int i = 0; i < n * len; ++i) {
		if (NSYM >= n * len || (i >= where && i < where + NSYM)) data[i] = IOBITS == SYMBITS ? (IO_)sx_bits(SYMBITS, "data") : (IO_)((FILL == 1 ? -1 : i * 977 + 12345) ^ (sx_bits(SYMBITS, "data") << sx_choice(0, 1, "shift") * (IOBITS - SYMBITS)));
		else data[i] = FILL == 0 ? 0 : FILL == 1 ? (IO_)-1 : FILL == 3 ? (IO_)((uint64_t)ids[0] * i % P) : (IO_)(i * 40503u + p * 977 + 12345);
		keep[i] = data[i];
	}
	blocks[n * len] = out[n * len] = 0x5a;
	sx_merge(IOBITS == SYMBITS ? 1 : 5);
	for (int i = 0; i < n; ++i) {
		int sub = cpf.encode(data, blocks + len * i, ids[i], len, n);
		sx_assert(sub >= 0 && sub < P - 1, "substitute is a field element of the block alphabet");
		subs[i] = subs0[i] = sub;
	}
	sx_merge(1);
	for (int q = 0; q < n; ++q) { int i = (q + p) % n; cpf.decode(out + len * i, blocks, subs, ids, i, len, n); }
	for (int i = 0; i < n * len; ++i) { sx_assert(out[i] == keep[i], "data recovered"); sx_assert(data[i] == keep[i], "data untouched by the encoder"); }
	for (int i = 0; i < n; ++i) sx_assert(subs[i] == subs0[i], "substitutes untouched");
	sx_assert(blocks[n * len] == 0x5a && out[n * len] == 0x5a, "nothing outside the blocks is written");
	sx_reach("recovered");
}
