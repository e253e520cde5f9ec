// C20/C21: Hadamard and simplex codes
#include <cstdint>
#include <cstdlib>
#include <algorithm>
#include "sx.h"
#if HAD
#include "hadamard_encoder.hh"
#include "hadamard_decoder.hh"
typedef CODE::HadamardEncoder<K_> ENC; typedef CODE::HadamardDecoder<K_> DEC; static const int N = 1 << (K_ - 1);
static uint32_t column(int i) { return i | N; }
#else
#include "simplex_encoder.hh"
#include "simplex_decoder.hh"
typedef CODE::SimplexEncoder<K_> ENC; typedef CODE::SimplexDecoder<K_> DEC; static const int N = (1 << K_) - 1;
static uint32_t column(int i) { return i + 1; }
#endif
static const int W = 1 << K_;
static int bitOf(uint32_t msg, int i) { uint32_t x = msg & column(i); int p = 0; for (int k = 0; k < K_; ++k) p ^= x >> k & 1; return p; }
extern "C" void harness()
{
	ENC *enc = new ENC();
#if PART == 0
	uint32_t msg = (uint32_t)sx_bits(K_, "msg"); int8_t code[N + 1]; code[N] = 42;
	(*enc)(code, msg);
	for (int i = 0; i < N; ++i) sx_assert(code[i] == 1 - 2 * bitOf(msg, i), "code symbol is the parity of the masked message");
	sx_assert(code[N] == 42, "stays inside"); sx_reach("encoded");
#elif PART == 4	// a code word with symbols of any amplitude, up to the extremes
	DEC *dec = new DEC(); int8_t soft[N]; uint32_t msg = (sx_choice(0, MSGS_ - 1, "msg") * 2654435761u) >> (32 - K_); (*enc)(soft, msg); int a = sx_bits(7, "amplitude");
	for (int i = 0; i < N; ++i) soft[i] = soft[i] < 0 ? -1 - a : a + (a < 1);
	sx_assert((*dec)(soft) == (int)msg, "a code word of any amplitude is decoded"); for (int i = 0; i < N; ++i) soft[i] = 0; sx_assert((*dec)(soft) == -1, "nothing is decoded from nothing"); sx_reach("decoded"); delete dec;
#else
	sx_merge(MERGE_);
	DEC dec; int8_t soft[N];
#if PART == 1	// any soft word
	for (int i = 0; i < N; ++i) { soft[i] = 0; if (i % EVERY == 0 && i / EVERY < SYM_) soft[i] = sx_soft(BITS_, "soft"); else soft[i] = (i * 29 + 7) % 13 - 6; }
#elif PART == 2	// a code word, a few of its symbols changed at will
	uint32_t msg = (sx_choice(0, MSGS_ - 1, "msg") * 37u + 11) % W; (*enc)(soft, msg);
	for (int i = 0; i < N; ++i) soft[i] *= AMP;
	for (int i = 0; i < SYM_; ++i) { int p = (N / SYM_ * i + (int)msg * 5) % N; soft[p] = sx_soft(BITS_, "soft"); }
#else	// between two code words: one symbol of any value decides
	uint32_t msg = (sx_choice(0, MSGS_ - 1, "msg") * 37u + 11) % W, other = (msg + 1 + sx_choice(0, MSGS_ - 1, "other") * 29u % (W - 1)) % W; int8_t b[N]; (*enc)(soft, msg); (*enc)(b, other);
	int at = -1; for (int i = 0; i < N; ++i) if (soft[i] == b[i]) soft[i] *= AMP; else { soft[i] = 0; if (at < 0 || i % 3 == 0) at = i; }
	soft[at] = sx_soft(8, "soft");
#endif
	int word = dec(soft);
	int met[W]; for (int m = 0; m < W; ++m) { int s = 0; for (int i = 0; i < N; ++i) s += bitOf(m, i) ? -soft[i] : soft[i]; met[m] = s; }
	sx_assert(word >= -1 && word < W, "message or failure");
	int tot = 0; for (int m = 0; m < W; ++m) tot += met[m];
	sx_assert(tot == 0, "correlations sum to zero, so the greatest is positive unless all are zero");
	for (int m = 0; m < W; ++m) {
		bool only = met[m] > 0; for (int k = 0; k < W; ++k) if (k != m) only &= met[k] < met[m];
		sx_assert((word == m) == only, "returns the one message of greatest correlation, fails if there are several");
	}
	sx_reach("decoded");
#endif
	delete enc;
}
