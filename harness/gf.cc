// C01: finite field arithmetic of galois_field.hh
#include <cstdint>
#include <utility>
#include "sx.h"
#include "galois_field.hh"
#ifndef M_
#define M_ 8
#define POLY_ 0b100011101
#define TYPE_ uint8_t
#endif
typedef CODE::GaloisField<M_, POLY_, TYPE_> GF;
typedef GF::ValueType V; typedef GF::IndexType I;
static const int N = (1 << M_) - 1;
// independent definition: schoolbook product of polynomials over GF(2) modulo POLY
static uint32_t xtime(uint32_t a) { return ((a << 1) ^ (-(a >> (M_ - 1) & 1) & (uint32_t)POLY_)) & N; }
#ifdef SMALL
static uint32_t mulref(uint32_t a, uint32_t b) { uint32_t p = 0; for (int i = 0; i < M_; ++i) { p ^= -(b >> i & 1) & a; a = xtime(a); } return p & N; }
#endif
static TYPE_ gpow[1 << M_];
extern "C" void harness()
{
	GF *inst = new GF();
	uint32_t g = 1; for (int i = 0; i <= N; ++i) { gpow[i] = g; g = xtime(g); }
#ifdef SMALL
	uint32_t a = sx_bits(M_, "a"), b = sx_bits(M_, "b"), c = sx_bits(M_, "c");
	V va(a), vb(b), vc(c);
	sx_assert((va + vb).v == (a ^ b), "sum is the XOR");
	sx_assert((va - vb).v == (a ^ b) && (-va).v == a, "difference and negation");
	sx_assert((va == vb) == (a == b) && (va != vb) == (a != b), "comparison");
	sx_assert(bool(va) == (a != 0) && int(va) == (int)a && V::zero().v == 0, "conversions");
	uint32_t ab = mulref(a, b);
	sx_assert((va * vb).v == ab, "value*value");
	sx_assert(fma(va, vb, vc).v == (ab ^ c), "fma(value,value,value)");
	{ V t = va; t *= vb; sx_assert(t.v == ab, "value*=value"); t = va; t += vb; sx_assert(t.v == (a ^ b), "value+=value"); }
	sx_reach("arith");
	int which = sx_choice(0, 1, "which");
	if (which == 0) {	// non-zero divisor b
		sx_assume(b != 0);
		I ib = index(vb);
		sx_assert(value(ib).v == b, "value(index(b)) is b");
		sx_assert(int(ib) < N && ib.i == (TYPE_)int(ib), "index below the modulus");
		sx_assert((va * ib).v == ab && (ib * va).v == ab, "value*index, index*value");
		sx_assert(fma(va, ib, vc).v == (ab ^ c), "fma(value,index,value)");
		sx_assert(fma(ib, va, vc).v == (ab ^ c), "fma(index,value,value)");
		{ V t = va; t *= ib; sx_assert(t.v == ab, "value*=index"); }
		V q = va / vb;
		sx_assert(mulref(q.v, b) == a, "a/b times b is a");
		sx_assert((va / ib).v == q.v, "value/index");
		V r = rcp(vb);
		sx_assert(mulref(r.v, b) == 1, "rcp(b) times b is one");
		sx_assert(value(rcp(ib)).v == r.v, "rcp(index)");
		sx_reach("nonzero b");
	} else {	// index pairs
		sx_assume(a != 0); sx_assume(b != 0);
		I ia = index(va), ib = index(vb);
		sx_assert(value(ia * ib).v == ab, "index*index");
		sx_assert(fma(ia, ib, vc).v == (ab ^ c), "fma(index,index,value)");
		sx_assert(mulref(value(ia / ib).v, b) == a, "index/index");
		sx_assert(mulref((ia / vb).v, b) == a, "index/value");
		{ I t = ia; t *= ib; sx_assert(value(t).v == ab, "index*=index"); t = ia; t /= ib; sx_assert(mulref(value(t).v, b) == a, "index/=index"); }
		sx_reach("indices");
	}
#else
	// wide fields: over exponents; i -> g^i is proved to be a bijection onto the non-zero values first
	int which = sx_choice(0, 2, "which");
	uint32_t i = sx_bits(M_, "i"), j = sx_bits(M_, "j"), c = sx_bits(M_, "c");
	sx_assume(i < (uint32_t)N); sx_assume(j < (uint32_t)N);
	V vc(c);
	if (which == 0) {
		V vi = value(I((TYPE_)i));
		sx_assert(vi.v == gpow[i], "value(index i) is x^i");
		sx_assert(vi.v != 0, "powers are not zero");
		sx_assert(index(vi).i == i, "index(value(i)) is i");
		if (c) { I k = index(vc); sx_assert(int(k) < N, "index below the modulus"); sx_assert(value(k).v == c, "value(index(c)) is c"); }
		uint32_t d = sx_bits(M_, "d");
		sx_assert((vc + V((TYPE_)d)).v == (c ^ d) && (vc - V((TYPE_)d)).v == (c ^ d) && (-vc).v == c, "sum, difference, negation");
		V z = V::zero(); int zz = sx_choice(0, 1, "zero operand"); V w((TYPE_)d);
		if (zz) { sx_assert((z * w).v == 0 && (w * z).v == 0 && fma(z, w, vc).v == c && fma(w, z, vc).v == c && (z * I((TYPE_)i)).v == 0 && (I((TYPE_)i) * z).v == 0 && fma(I((TYPE_)i), z, vc).v == c && fma(z, I((TYPE_)i), vc).v == c && (z / I((TYPE_)i)).v == 0, "products with zero"); if (d) sx_assert((z / w).v == 0, "zero divided"); }
		sx_reach("tables");
	} else {
		// operands are x^i and x^j
		I ii((TYPE_)i), ij((TYPE_)j);
		uint32_t s = i + j, d = i + N - j;
		I ab = ii * ij, dv = ii / ij;
		sx_assert(ab.i == (s >= (uint32_t)N ? s - N : s), "index*index adds exponents");
		sx_assert(dv.i == (d >= (uint32_t)N ? d - N : d), "index/index subtracts exponents");
		I rc = rcp(ij); sx_assert(rc.i == (j ? N - j : 0), "rcp(index) negates the exponent");
		sx_assert(value(ab).v == gpow[ab.i] && value(dv).v == gpow[dv.i], "product value");
		if (which == 2) {	// the mixed overloads reduce to the index forms
			V a = value(ii), b = value(ij);
			TYPE_ P = value(ab).v, Q = value(dv).v;
			sx_assert((a * b).v == P, "value*value"); sx_assert((a * ij).v == P && (ii * b).v == P, "mixed products");
			sx_assert((a / b).v == Q && (a / ij).v == Q && (ii / b).v == Q, "quotients");
			sx_assert(rcp(b).v == value(rc).v, "rcp(value)");
			TYPE_ F = P ^ c;
			sx_assert(fma(ii, ij, vc).v == F && fma(ii, b, vc).v == F && fma(a, ij, vc).v == F && fma(a, b, vc).v == F, "fma overloads");
			{ V t = a; t *= b; sx_assert(t.v == P, "value*=value"); t = a; t *= ij; sx_assert(t.v == P, "value*=index"); t = a; t += vc; sx_assert(t.v == (a.v ^ c), "value+=value"); I u = ii; u *= ij; sx_assert(u.i == ab.i, "index*=index"); u = ii; u /= ij; sx_assert(u.i == dv.i, "index/=index"); }
			sx_reach("mixed");
		} else sx_reach("indices");
	}
#endif
	delete inst;
}
