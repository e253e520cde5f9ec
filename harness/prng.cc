// C14: maximum length sequences and xorshift generators
#include <cstdint>
#include "sx.h"
#include "mls.hh"
#include "xorshift.hh"
extern "C" void harness()
{
#if PART == 0
	// one step of the register, any polynomial of degree 1 to 30 and any state
	int d = sx_choice(1, 30, "degree"); uint32_t p = (uint32_t)sx_bits(d, "poly") | (1u << d), r = sx_bits(d, "state");
	CODE::MLS m(p, sx_choice(0, 1, "constructor") ? r : 3); m.reset(r);
	uint32_t x = r;
	for (int i = 0; i < 3; ++i) {
		bool out = x >> (d - 1) & 1; x = (x << 1) ^ (out ? p : 0);
		sx_assert(m() == out, "output is the leading coefficient");
		sx_assert(x < (1u << d), "reference stays in range");
	}
	CODE::MLS q(p, x); for (int i = 0; i < d; ++i) { bool a = m(); sx_assert(a == q(), "state after the steps"); }
	m.reset(); CODE::MLS one(p); for (int i = 0; i < 3; ++i) { bool a = m(); sx_assert(a == one(), "reset starts at one"); }
	CODE::MLS def; CODE::MLS def2(0x100009); for (int i = 0; i < 24; ++i) { bool a = def(); sx_assert(a == def2(), "default polynomial"); }
	sx_reach("step");
#elif PART == 1
	// bad(r): the cycle through r has not all nonzero states
	int d = DEG; sx_merge(0);
	uint32_t p = (1u << d) | 1 | 2 * sx_choice(0, (1 << (d - 1)) - 1, "poly"), r = sx_bits(d, "state");
	uint32_t x = r; bool early = false; int len = (1 << d) - 1;
	for (int i = 1; i <= len; ++i) { bool out = x >> (d - 1) & 1; x = (x << 1) ^ (out ? p : 0); if (i < len) early |= x == r; }
	bool full = !early & (x == r);
	CODE::MLS m(p, 1); bool bad = m.bad(r);
	sx_assert(bad == !full, "bad reports exactly the sequences that are not of maximum length");
	if (bad) sx_reach("bad"); else { sx_reach("good"); CODE::MLS q(p, r); for (int i = 0; i < d; ++i) { bool a = m(); sx_assert(a == q(), "a good check returns to the start"); } }
#else
	uint32_t a[6], b[6]; for (int i = 0; i < 6; ++i) a[i] = sx_any<uint32_t>("a"), b[i] = sx_any<uint32_t>("b");
	int how = sx_choice(0, 1, "reset");
	switch (sx_choice(0, 3, "generator")) {
	case 0: {
		CODE::Xorshift32 g(how ? 1 : a[0]), h(b[0]); if (how) g.reset(a[0]);
		for (int k = 0; k < 3; ++k) { uint32_t y = a[0]; y ^= y << 13; y ^= y >> 17; y ^= y << 5; a[0] = y; sx_assert(g() == y, "Xorshift32"); if (!k) sx_assert(y != h() || [&] { uint32_t z = b[0]; z ^= z << 13; z ^= z >> 17; z ^= z << 5; return z == y; }(), "step is a function of the state"); }
		CODE::Xorshift32 p, q; uint32_t s = sx_any<uint32_t>("s"), t = sx_any<uint32_t>("t"); p.reset(s); q.reset(t); sx_assume(s != t); sx_assert(p() != q(), "different states never meet"); sx_assume(s != 0); p.reset(s); sx_assert(p() != 0, "never zero");
		CODE::Xorshift32 def; sx_assert(def() == 723471715u && def() == 2497366906u && def() == 2064144800u, "published sequence"); def.reset(); sx_assert(def() == 723471715u, "reset to the published seed");
		sx_assert(CODE::Xorshift32::min() == 0 && CODE::Xorshift32::max() == 4294967295u, "range"); sx_reach("32"); break; }
	case 1: {
		uint64_t s = a[0] | (uint64_t)a[1] << 32, t = b[0] | (uint64_t)b[1] << 32;
		CODE::Xorshift64 g(how ? 1 : s); if (how) g.reset(s);
		uint64_t x = s; for (int k = 0; k < 3; ++k) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; sx_assert(g() == x, "Xorshift64"); }
		CODE::Xorshift64 p(s), q(t); sx_assume(s != t); sx_assert(p() != q(), "different states never meet"); sx_assume(s != 0); p.reset(s); sx_assert(p() != 0, "never zero");
		CODE::Xorshift64 def; sx_assert(def() == 8748534153485358512ull && def() == 3040900993826735515ull, "published sequence"); def.reset(); sx_assert(def() == 8748534153485358512ull, "reset to the published seed"); sx_reach("64"); 
		sx_assert(CODE::Xorshift64::min() == 0 && CODE::Xorshift64::max() == UINT64_MAX, "range"); break; }
	case 2: {
		CODE::Xorshift128 g(a[0], a[1], a[2], a[3]); if (how) { g(); g.reset(a[0], a[1], a[2], a[3]); }
		uint32_t x = a[0], y = a[1], z = a[2], w = a[3];
		for (int k = 0; k < 5; ++k) { uint32_t t = x ^ (x << 11); x = y; y = z; z = w; w = w ^ (w >> 19) ^ t ^ (t >> 8); sx_assert(g() == w, "Xorshift128"); }
		CODE::Xorshift128 p(a[0], a[1], a[2], a[3]), q(b[0], b[1], b[2], b[3]); int diff = 0; for (int i = 0; i < 4; ++i) diff |= a[i] != b[i]; sx_assume(diff);
		int out = 0; for (int i = 0; i < 4; ++i) out |= p() != q(); sx_assert(out, "four outputs determine the state");
		CODE::Xorshift128 def; sx_assert(def() == 3701687786u && def() == 458299110u && def() == 2500872618u, "published sequence"); def.reset(); sx_assert(def() == 3701687786u, "reset to the published seed"); sx_reach("128");
		sx_assert(CODE::Xorshift128::min() == 0 && CODE::Xorshift128::max() == 4294967295u, "range"); break; }
	default: {
		CODE::Xorwow g(a[0], a[1], a[2], a[3], a[4], a[5]); if (how) { g(); g.reset(a[0], a[1], a[2], a[3], a[4], a[5]); }
		uint32_t x = a[0], y = a[1], z = a[2], w = a[3], v = a[4], d = a[5];
		for (int k = 0; k < 6; ++k) { uint32_t t = x ^ (x >> 2); x = y; y = z; z = w; w = v; v = v ^ (v << 4) ^ t ^ (t << 1); sx_assert(g() == (d += 362437) + v, "Xorwow"); }
		CODE::Xorwow def; sx_assert(def() == 246875399u && def() == 3690007200u && def() == 1264581005u, "published sequence"); def.reset(); sx_assert(def() == 246875399u, "reset to the published seed"); sx_reach("wow");
		sx_assert(CODE::Xorwow::min() == 0 && CODE::Xorwow::max() == 4294967295u, "range"); break; }
	}
#endif
}
