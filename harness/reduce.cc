// C16: exclusive_reduce
#include <cstdint>
#include "sx.h"
#include "exclusive_reduce.hh"
template <typename T, typename F> static void check(int n, F op)
{
	T in[HI], orig[HI], out[HI + 1]; for (int i = 0; i < n; ++i) in[i] = orig[i] = sx_any<T>("in"); for (int i = 0; i <= n; ++i) out[i] = 42;
	CODE::exclusive_reduce(in, out, n, op);
	for (int k = 0; k < n; ++k) { T e = 0; bool first = true; for (int i = 0; i < n; ++i) if (i != k) { e = first ? orig[i] : op(e, orig[i]); first = false; } sx_assert(out[k] == e, "every output combines all other inputs"); sx_assert(in[k] == orig[k], "input untouched"); }
	sx_assert(out[n] == 42, "stays inside"); sx_reach("reduced");
}
extern "C" void harness()
{
	int n = sx_choice(2, HI, "N");
	switch (OP) {
	case 0: check<uint32_t>(n, [](uint32_t a, uint32_t b) { return a + b; }); break;
	case 1: check<uint8_t>(n, [](uint8_t a, uint8_t b) { return uint8_t(a ^ b); }); break;
	case 2: check<int8_t>(n, [](int8_t a, int8_t b) { return a < b ? a : b; }); break;
	case 3: check<uint16_t>(n, [](uint16_t a, uint16_t b) { return uint16_t(a & b); }); break;
	case 4: check<uint8_t>(n, [](uint8_t a, uint8_t b) { int s = (a ^ b) & 0x80; int x = a & 127, y = b & 127; return uint8_t(s | (x < y ? x : y)); }); break;	// min-sum
	}
}
