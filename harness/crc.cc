// C12: cyclic redundancy check
#include <cstdint>
#include "sx.h"
#include "crc.hh"
typedef TYPE_ T;
static const int W = 8 * sizeof(T);
static const uint64_t polys[] = { POLYS_ };
// one bit of a reflected linear feedback shift register
static T bit(T s, int b, T poly) { int fb = (s ^ b) & 1; s = s >> 1; if (W > 1 && fb) s ^= poly; return s; }
static T feed(T s, uint64_t d, int n, T poly) { for (int i = 0; i < n; ++i) s = bit(s, d >> i & 1, poly); return s; }
extern "C" void harness()
{
#ifdef ANYPOLY
	T poly = sx_any<T>("poly");
#else
	T poly = polys[sx_choice(0, sizeof(polys) / sizeof(polys[0]) - 1, "poly")];
#endif
	T init = sx_any<T>("init"); int how = sx_choice(0, 2, "start");
	CODE::CRC<T> crc(poly, how ? how == 1 ? T(0) : T(85) : init);
	if (how == 1) crc.reset(init); if (how == 2) { crc(uint8_t(7)); crc.reset(); init = 0; }
	T ref = init; sx_assert(crc() == ref, "initial value");
	for (int step = 0; step < STEPS; ++step) {
		T got;
		switch (sx_choice(0, OPS_, "operand")) {
		case 0: { bool b = sx_bits(1, "bit"); got = crc(b); ref = feed(ref, b, 1, poly); break; }
		case 1: { uint8_t b = sx_any<uint8_t>("u8"); got = crc(b); ref = feed(ref, b, 8, poly); break; }
		case 2: { uint16_t b = sx_any<uint16_t>("u16"); got = crc(b); ref = feed(ref, b, 16, poly); break; }
		case 3: { uint32_t b = sx_any<uint32_t>("u32"); got = crc(b); ref = feed(ref, b, 32, poly); break; }
		default: { uint64_t b = sx_any<uint64_t>("u64"); got = crc(b); ref = feed(ref, b, 64, poly); break; }
		}
		sx_assert(got == ref, "returned value is that of the shift register");
		sx_assert(crc() == ref, "state is that of the shift register");
	}
	sx_reach("fed");
	T rem = crc();	// appending the checksum itself leaves zero
	if (sx_choice(0, 1, "as bytes")) for (int i = 0; i < W / 8; ++i) crc(uint8_t(rem >> 8 * i)); else crc(rem);
	sx_assert(crc() == 0, "message with its checksum has remainder zero");
}
