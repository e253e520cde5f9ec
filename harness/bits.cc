// C13: Bitstream and bit manipulation
#include <cstdint>
#include <algorithm>
#include "sx.h"
#include "bitstream.hh"
#include "bitman.hh"
static const int S = SIZE_, B = (S + 7) / 8;
static bool ref[8 * B];
template <typename T> static void rw(CODE::Bitstream<S> &bs, int pos)
{
	int num = sx_choice(0, std::min<int>(8 * sizeof(T), S - pos), "num"); T v = sx_any<T>("value");
	if (sx_choice(0, 1, "read")) {
		T got = 99; bs.readbits(&got, num); T exp = 0; for (int i = 0; i < num; ++i) exp |= T(ref[pos + i]) << i;
		sx_assert(got == exp, "readbits");
	} else { bs.writebits(v, num); for (int i = 0; i < num; ++i) ref[pos + i] = v >> i & 1; }
	sx_assert(bs.tell() == pos + num, "position"); sx_reach("bits");
}
extern "C" void harness()
{
#if PART == 0
	CODE::Bitstream<S> bs; bs.reset(); sx_assert(bs.tell() == 0, "reset position"); for (int i = 0; i < B; ++i) sx_assert(bs.data()[i] == 0, "reset clears");
	sx_assert(CODE::Bitstream<S>::BITS == S && CODE::Bitstream<S>::BYTES == B, "sizes");
	for (int i = 0; i < B; ++i) { uint8_t b = bs.data()[i] = sx_any<uint8_t>("content"); for (int k = 0; k < 8; ++k) ref[8 * i + k] = b >> k & 1; }
	for (int step = 0; step < STEPS; ++step) {
		int pos = step ? bs.tell() : sx_choice(0, S, "position"); if (!step) bs.seek(pos); sx_assert(bs.tell() == pos, "seek");
		int op = sx_choice(0, 9, "operation"), left = S - pos;
		switch (op) {
		case 0: if (left < 1) break; { bool b = sx_bits(1, "bit"); bs.putbit(b); ref[pos] = b; sx_assert(bs.tell() == pos + 1, "position"); } break;
		case 1: if (left < 1) break; sx_assert(bs.getbit() == ref[pos], "getbit"); sx_assert(bs.tell() == pos + 1, "position"); break;
		case 2: if (left < 8) break; { uint8_t b = sx_any<uint8_t>("byte"); bs.putbyte(b); for (int k = 0; k < 8; ++k) ref[pos + k] = b >> k & 1; sx_assert(bs.tell() == pos + 8, "position"); } break;
		case 3: if (left < 8) break; { uint8_t e = 0; for (int k = 0; k < 8; ++k) e |= ref[pos + k] << k; sx_assert(bs.getbyte() == e, "getbyte"); sx_assert(bs.tell() == pos + 8, "position"); } break;
		case 4: case 5: { int n = sx_choice(0, left / 8, "bytes"); uint8_t v[B + 1]; for (int i = 0; i < n; ++i) v[i] = sx_any<uint8_t>("data"); v[n] = 77;
			if (op == 4) { bs.writebytes(v, n); for (int k = 0; k < 8 * n; ++k) ref[pos + k] = v[k / 8] >> (k % 8) & 1; }
			else { bs.readbytes(v, n); for (int i = 0; i < n; ++i) { uint8_t e = 0; for (int k = 0; k < 8; ++k) e |= ref[pos + 8 * i + k] << k; sx_assert(v[i] == e, "readbytes"); } sx_assert(v[n] == 77, "readbytes stays inside"); }
			sx_assert(bs.tell() == pos + 8 * n, "position"); sx_reach("bytes"); break; }
		case 6: rw<uint8_t>(bs, pos); break;
		case 7: rw<uint16_t>(bs, pos); break;
		case 8: rw<uint32_t>(bs, pos); break;
		default: rw<uint64_t>(bs, pos); break;
		}
		for (int i = 0; i < B; ++i) { uint8_t e = 0; for (int k = 0; k < 8; ++k) e |= ref[8 * i + k] << k; sx_assert(bs.data()[i] == e, "exactly the addressed bits change"); }
	}
#else
	uint8_t buf[B]; for (int i = 0; i < B; ++i) { uint8_t b = buf[i] = sx_any<uint8_t>("content"); for (int k = 0; k < 8; ++k) ref[8 * i + k] = b >> k & 1; }
	int pos = sx_choice(0, 8 * B - 1, "position"), at = pos / 8 * 8 + 7 - pos % 8; bool v = sx_bits(1, "bit");
	switch (sx_choice(0, 5, "operation")) {
	case 0: CODE::set_le_bit(buf, pos, v); ref[pos] = v; break;
	case 1: CODE::set_be_bit(buf, pos, v); ref[at] = v; break;
	case 2: CODE::xor_le_bit(buf, pos, v); ref[pos] ^= v; break;
	case 3: CODE::xor_be_bit(buf, pos, v); ref[at] ^= v; break;
	case 4: sx_assert(CODE::get_le_bit(buf, pos) == ref[pos], "get_le_bit"); break;
	default: sx_assert(CODE::get_be_bit(buf, pos) == ref[at], "get_be_bit"); break;
	}
	for (int i = 0; i < B; ++i) { uint8_t e = 0; for (int k = 0; k < 8; ++k) e |= ref[8 * i + k] << k; sx_assert(buf[i] == e, "exactly the addressed bit changes"); }
	sx_reach("bit");
#endif
}
