// C22/C23: short BCH codes, encoder, bounded distance decoder, soft decoder
#include <cstdint>
#include <cstdlib>
#include <algorithm>
#include "sx.h"
#include "short_bch_code_encoder.hh"
#include "short_bch_code_decoder.hh"
static const int P = N_ - K_;
typedef CODE::ShortBCHCodeEncoder<N_, K_, G_> ENC; typedef CODE::ShortBCHCodeDecoder<N_, K_, G_, T_> DEC;
static uint32_t rest(uint32_t x) { for (int i = N_ - 1; i >= P; --i) x ^= (-(x >> i & 1)) & ((uint32_t)(G_) << (i - P)); return x; }	// remainder modulo the generator
static int weight(uint32_t x) { int n = 0; for (int i = 0; i < N_; ++i) n += x >> i & 1; return n; }
extern "C" void harness()
{
	sx_merge(2);
	ENC *enc = new ENC();
#if PART == 0	// encoder and every received word
	DEC *dec = new DEC();
	int msg = sx_bits(K_, "msg"), cw = (*enc)(msg);
	sx_assert((cw >> P) == msg, "systematic"); sx_assert(rest(cw) == 0, "multiple of the generator");
	int8_t code[N_ + 1]; code[N_] = 99; int again = (*enc)(code, msg);
	sx_assert(again == cw, "both encoders agree"); for (int i = 0; i < N_; ++i) sx_assert(code[i] == 1 - 2 * (cw >> i & 1), "bits as signs"); sx_assert(code[N_] == 99, "stays inside");
	sx_reach("encoded");
	int rec = cw ^ (int)sx_bits(P, "change"), out = (*dec)(rec);
	sx_assert(out >= -1 && (out < 0 || out >> (N_ - 1) >> 1 == 0), "code word or failure");
	sx_assert((out < 0) | (rest(out) == 0), "success yields a code word");
	sx_assert((out < 0) | (weight(out ^ rec) <= T_), "at most T corrections");
	sx_reach("decoded");
	delete dec;
#elif PART == 1	// every error pattern of at most T bits
	DEC *dec = new DEC();
	int msg = sx_bits(K_, "msg"), cw = (*enc)(msg), e = 0, t = sx_choice(TMIN, TMAX, "errors"), p = -1;
	for (int i = 0; i < t; ++i) { p = sx_choice(p + 1, N_ - t + i, "position"); e |= 1 << p; }
	sx_assert((*dec)(cw ^ e) == cw, "corrects up to T errors"); sx_reach("corrected");
	delete dec;
#elif PART == 2	// maximum likelihood, any soft word
	sx_merge(MERGE_); DEC *dec = new DEC(); int8_t soft[N_]; int signs = sx_choice(0, (1 << std::min(N_, 8)) - 1, "signs") * (N_ > 8 ? 2654435761u >> (32 - N_) | 1 : 1) & ((1 << N_) - 1); for (int i = 0; i < N_; ++i) { int8_t mag = (i + signs) % N_ < SYM_ ? sx_bits(BITS_, "magnitude") : (i * 37 + signs * 11) % 120 + 4; soft[i] = signs >> i & 1 ? -1 - mag : mag; }
	int out = (*dec)(soft), W = 1 << K_, met[1 << K_];
	for (int m = 0; m < W; ++m) { int s = 0, u = 0, tot = 0, c = (*enc)(m); for (int i = 0; i < N_; ++i) { s += c >> i & 1 ? -soft[i] : soft[i]; u -= c >> i & 1 ? soft[i] : 0; tot += soft[i]; } sx_assert(s == tot + 2 * u, "order by correlation is the order by the ones"); met[m] = u; }
	for (int m = 0; m < W; ++m) { bool only = true; for (int k = 0; k < W; ++k) if (k != m) only &= met[k] < met[m]; sx_assert((out == (*enc)(m)) == only, "returns the one code word of greatest correlation"); }
	int any = out == -1; for (int m = 0; m < W; ++m) any |= out == (*enc)(m); sx_assert(any, "code word or failure"); sx_reach("decoded");
	delete dec;
#else	// soft words around a code word
	sx_merge(MERGE_); DEC *dec = new DEC();
	int8_t soft[N_]; int msg = (sx_choice(0, MSGS_ - 1, "msg") * 39916801u) & ((1 << K_) - 1), cw = (*enc)(soft, msg), shift = sx_choice(0, SHIFTS_ - 1, "shift");
	// ERR strong errors, WEAK erroneous positions of low reliability, SYM positions of any value of few bits
	for (int i = 0; i < N_; ++i) soft[i] *= 40 + (i * 7 + shift) % 23;
	auto at = [&](int k) { return (k * STEP_ + shift) % N_; };
	for (int i = 0; i < ERR_; ++i) { int8_t &x = soft[at(i)]; x = x < 0 ? 8 + i : -8 - i; }
	for (int i = 0; i < WEAK_; ++i) { int8_t &x = soft[at(ERR_ + i)]; x = x < 0 ? 3 + i : -3 - i; }
	for (int i = 0; i < SYM_; ++i) soft[at(ERR_ + WEAK_ + i)] = sx_soft(BITS_, "soft");
	int out = (*dec)(soft);
	// oracle: hard decision, the T least reliable positions in order (ties: any), correlation of the code word
	int hard = 0; for (int i = 0; i < N_; ++i) hard |= (soft[i] < 0) << i;
	auto corr = [&](int c) { int s = 0; for (int i = 0; i < N_; ++i) s += c >> i & 1 ? -soft[i] : soft[i]; return s; };
	int c0 = corr(cw);
	bool best = true; for (int m = 0; m < 1 << K_; ++m) if (m != msg) best &= corr((*enc)(m)) < c0;
	// errors of the hard decision that are not certainly among the T least reliable positions
	int left = 0; for (int i = 0; i < N_; ++i) { int less = 0; for (int j = 0; j < N_; ++j) less += j != i && std::abs((int)soft[j]) <= std::abs((int)soft[i]); left += ((hard ^ cw) >> i & 1) && less >= T_; }
	sx_assert(!(best && left <= T_) || out == cw, "returns the one most likely code word if at most T errors lie outside the T least reliable positions");
	sx_assert(out == -1 || rest(out) == 0, "code word or failure"); sx_reach("decoded");
	delete dec;
#endif
	delete enc;
}
