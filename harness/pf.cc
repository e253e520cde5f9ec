// C02: prime field arithmetic of prime_field.hh
#include "sx.h"
#include <cassert>
#include "prime_field.hh"
typedef TYPE_ T;
typedef CODE::PrimeField<T, P_> PF;
static const uint64_t P = P_;
static uint64_t bval(uint64_t k)	// values at the edges and in between
{
	static const uint64_t v[] = { 0, 1, 2, 3, P - 1, P - 2, P / 2, P / 2 + 1, 16, 256 % P, 255 % P, 5, 7, P / 3, 1000 % P, 40503 % P, 32768 % P, 65535 % P };
	return k < 18 ? v[k] : (k * 40503u + 77) % P;
}
extern "C" void harness()
{
	uint64_t a = sx_bits(BITS_, "a"), b = BSYM ? sx_bits(BITS_, "b") : bval(sx_choice(0, BSYM_N - 1, "which b"));
	sx_assume((a < P) & (b < P));
	sx_merge(1);
	PF x((T)a), y((T)b);
	sx_assert((x + y)() == (a + b) % P, "sum");
	sx_assert((x - y)() == (a + P - b) % P, "difference");
	sx_assert((x * y)() == a * b % P, "product");
	sx_assert((-x)() == (P - a) % P, "negation");
	sx_assert((x == y) == (a == b) && (x != y) == (a != b), "comparison");
	sx_assert(reduce(add(x, y))() == (a + b) % P && reduce(sub(x, y))() == (a + P - b) % P && reduce(mul(x, y))() == a * b % P && reduce(neg(x))() == (P - a) % P, "forms without reduction");
	{ PF t(x); t += y; sx_assert(t() == (a + b) % P, "+="); t = x; PF r = t -= y; sx_assert(t() == (a + P - b) % P && r == t, "-="); t = x; t *= y; sx_assert(t() == a * b % P, "*="); }
	sx_assert(reduce(add(mul(x, y), x))() == (a * b + a) % P, "multiply and add");
	sx_reach("ring");
	{	// powers
		T m = MSYM ? (T)sx_bits(6, "exponent") : (T)bval(sx_choice(0, 9, "exponent"));
		uint64_t e = 1; uint64_t sq = a; for (int i = 0; i < (MSYM ? 6 : 17); ++i) { e = (m >> i) & 1 ? e * sq % P : e; sq = sq * sq % P; }
		sx_assert(pow(x, m)() == e, "power");
	}
	sx_assume(b != 0);
	sx_assert((rcp(y) * y)() == 1, "reciprocal");
	PF q = x / y; sx_assert(q() < P && q() * b % P == a, "quotient times divisor");
	{ PF t(x); t /= y; sx_assert(t == q, "/="); sx_assert(reduce(div(x, y)) == q, "division without reduction"); }
	sx_assume(a != 0);
	sx_assert(rcp(x)() < P && rcp(x)() * a % P == 1, "reciprocal");
	sx_reach("division");
}
