// C15: interleaving and permutations
#include <cstdint>
#include <utility>
#include "sx.h"
#include "interleave.hh"
#include "permute.hh"
template <typename T, int S, int O> static void inter()
{
	T in[S], out[S + 1], back[S + 1]; sx_sym(in, sizeof(T), S, "in"); out[S] = back[S] = 42;
	CODE::Interleave<S, O>(out, in);
	for (int i = 0; i < S; ++i) sx_assert(out[i] == in[(i % O) * (S / O) + i / O], "row and column exchanged");
	CODE::Deinterleave<S, O>(back, out); for (int i = 0; i < S; ++i) sx_assert(back[i] == in[i], "deinterleaving restores");
	CODE::Deinterleave<S, O>(back, in); CODE::Interleave<S, O>(out, back); for (int i = 0; i < S; ++i) sx_assert(out[i] == in[i], "interleaving restores");
	sx_assert(out[S] == 42 && back[S] == 42, "stays inside"); sx_reach("interleaved");
}
template <typename T, int S> static void shuffle()
{
	T in[S], a[S + 1], tag[S + 1]; sx_sym(in, sizeof(T), S, "in"); for (int i = 0; i < S; ++i) { a[i] = in[i]; tag[i] = i; } a[S] = tag[S] = 42;
	CODE::FisherYatesShuffle<S> f; CODE::ReverseFisherYatesShuffle<S> r;
	f(a); f(tag); bool seen[S] = {}; 
	for (int i = 0; i < S; ++i) { unsigned t = tag[i]; sx_assert(t < S && !seen[t % S], "a permutation"); seen[t % S] = true; sx_assert(a[i] == in[t % S], "the same permutation for every content"); }
	r(a); for (int i = 0; i < S; ++i) sx_assert(a[i] == in[i], "reverse undoes the shuffle");
	r(a); f(a); for (int i = 0; i < S; ++i) sx_assert(a[i] == in[i], "the shuffle undoes the reverse");
	uint32_t y = 2463534242u; T exp[S]; for (int i = 0; i < S; ++i) exp[i] = in[i];	// Fisher-Yates with the published generator
	for (int i = 0; i < S - 1; ++i) { y ^= y << 13; y ^= y >> 17; y ^= y << 5; int j = i + y % (S - i); T t = exp[i]; exp[i] = exp[j]; exp[j] = t; }
	f(a); for (int i = 0; i < S; ++i) sx_assert(a[i] == exp[i], "Fisher-Yates shuffle");
	sx_assert(a[S] == 42 && tag[S] == 42, "stays inside"); sx_reach("shuffled");
}
template <typename T, int S> static void rev()
{
	T in[S], a[S + 1]; sx_sym(in, sizeof(T), S, "in"); for (int i = 0; i < S; ++i) a[i] = in[i]; a[S] = 42;
	CODE::BitReversalPermute<S>(a);
	for (int i = 0; i < S; ++i) { int j = 0; for (int k = 1; k < S; k *= 2) j = 2 * j + !!(i & k); sx_assert(a[j] == in[i], "bit reversed"); }
	CODE::BitReversalPermute<S>(a); for (int i = 0; i < S; ++i) sx_assert(a[i] == in[i], "an involution");
	sx_assert(a[S] == 42, "stays inside"); sx_reach("reversed");
}
extern "C" void harness()
{
	switch (sx_choice(0, 19, "case")) {
	case 0: inter<uint8_t, 1, 1>(); break; case 1: inter<uint8_t, 12, 3>(); break; case 2: inter<uint32_t, 12, 4>(); break; case 3: inter<int8_t, 64, 8>(); break;
	case 4: inter<uint16_t, 35, 5>(); break; case 5: inter<uint16_t, 35, 7>(); break; case 6: inter<uint8_t, 9, 1>(); break; case 7: inter<uint8_t, 9, 9>(); break; case 8: inter<uint8_t, 256, 16>(); break;
	case 9: shuffle<uint8_t, 2>(); break; case 10: shuffle<uint8_t, 3>(); break; case 11: shuffle<uint32_t, 17>(); break; case 12: shuffle<uint8_t, 128>(); break; case 13: shuffle<uint16_t, 1000>(); break;
	case 14: rev<uint8_t, 1>(); break; case 15: rev<uint8_t, 2>(); break; case 16: rev<uint32_t, 8>(); break; case 17: rev<int8_t, 64>(); break; case 18: rev<uint16_t, 512>(); break; default: rev<uint8_t, 4>(); break;
	}
}
