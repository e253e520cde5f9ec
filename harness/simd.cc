// C18: SIMD types of every back end against scalar definitions, lane by lane. C19: rotation
#include "sx.h"
#include <cassert>
#include <cstring>
#include <algorithm>
#include <type_traits>
#include "simd.hh"
#include "rotate.hh"
#ifdef FP
static uint64_t raw(float x) { uint32_t u; memcpy(&u, &x, 4); return u; }
static uint64_t raw(double x) { uint64_t u; memcpy(&u, &x, 8); return u; }
#endif
#define EACH(RES, REF, WHAT) do { auto res_ = RES; for (int i = 0; i < W; ++i) sx_assert(res_.v[i] == (REF), WHAT); } while (0)
#define EACHU(RES, REF, WHAT) do { auto res_ = RES; for (int i = 0; i < W; ++i) sx_assert(res_.u[i] == (REF), WHAT); } while (0)
template <typename T, int W> static void masks()
{
	typedef typename SIMD<T, W>::uint_type U; typedef SIMD<U, W> M;
	M p, q, m;
	for (int i = 0; i < W; ++i) { p.v[i] = sx_any<U>("p"); q.v[i] = sx_any<U>("q"); m.v[i] = sx_any<U>("m"); }
	EACH(vnot(p), (U)~p.v[i], "vnot");
	EACH(vorr(p, q), (U)(p.v[i] | q.v[i]), "vorr");
	EACH(vand(p, q), (U)(p.v[i] & q.v[i]), "vand");
	EACH(veor(p, q), (U)(p.v[i] ^ q.v[i]), "veor");
	EACH(vbic(p, q), (U)(p.v[i] & (U)~q.v[i]), "vbic");
	EACH(vbsl(m, p, q), (U)((m.v[i] & p.v[i]) | ((U)~m.v[i] & q.v[i])), "vbsl");
	EACH(vcgt(p, q), (U)(p.v[i] > q.v[i] ? ~(U)0 : 0), "vcgt unsigned");
	U x = sx_any<U>("x"); EACH(vdup<M>(x), x, "vdup unsigned"); EACH(vzero<M>(), 0, "vzero unsigned");
}
template <typename T, int W> static void shuffles()
{
	typedef SIMD<T, W> V; typedef typename V::uint_type U; typedef SIMD<U, W> M;
	V a, r; M k, p, ru; const int LOG = W <= 2 ? 1 : W <= 4 ? 2 : W <= 8 ? 3 : W <= 16 ? 4 : W <= 32 ? 5 : 6;
	// every index in every lane over distinct elements
	U in[W]; for (int i = 0; i < W; ++i) in[i] = (U)(0x9e3779b97f4a7c15u * (uint64_t)(i + 1) >> (64 - 8 * sizeof(U)) & ~(U)127) | (U)(2 * i + 1);
	for (int i = 0; i < W; ++i) { a.u[i] = in[i]; k.v[i] = sx_bits(LOG, "index"); sx_assume(k.v[i] < W); p.v[i] = in[i]; }
	r = vshuf(a, k); ru = vshuf(p, k);
	for (int i = 0; i < W; ++i) { U e = in[0]; for (int j = 1; j < W; ++j) e = k.v[i] == (U)j ? in[j] : e; sx_assert(r.u[i] == e, "vshuf"); sx_assert(ru.v[i] == e, "vshuf unsigned"); }
	// every content for some index vectors
	for (int i = 0; i < W; ++i) p.v[i] = a.u[i] = sx_any<U>("a");
	for (int n = 0; n < 6; ++n) {
		int d[W]; for (int i = 0; i < W; ++i) k.v[i] = d[i] = n == 0 ? i : n == 1 ? W - 1 - i : n == 2 ? (i + W / 2) % W : n == 3 ? (i * 7 + 3) % W : n == 4 ? 0 : (i * i + 1) % W;
		r = vshuf(a, k); ru = vshuf(p, k);
		for (int i = 0; i < W; ++i) { sx_assert(r.u[i] == a.u[d[i]], "vshuf of any content"); sx_assert(ru.v[i] == p.v[d[i]], "vshuf unsigned of any content"); }
	}
	sx_reach("shuffled");
}
#ifdef FP
template <typename T, int W> static void test()
{
	typedef SIMD<T, W> V; typedef typename V::uint_type U; typedef SIMD<U, W> M;
	const U SIGN = (U)1 << (8 * sizeof(U) - 1); const U ALL = ~(U)0;
	V a, b; U x = sx_any<U>("x"); T xv; memcpy(&xv, &x, sizeof x);
	for (int i = 0; i < W; ++i) { a.u[i] = sx_any<U>("a"); b.u[i] = sx_any<U>("b"); }
	EACHU(vdup<V>(xv), x, "vdup"); EACHU(vzero<V>(), 0, "vzero");
	EACHU(vmask(a), a.u[i], "vmask"); EACHU(vreinterpret<M>(a), a.u[i], "vreinterpret to mask");
	{ M m; for (int i = 0; i < W; ++i) m.v[i] = a.u[i]; EACHU(vreinterpret<V>(m), a.u[i], "vreinterpret from mask"); }
	EACHU(vneg(a), a.u[i] ^ SIGN, "vneg"); EACHU(vabs(a), a.u[i] & ~SIGN, "vabs");
	EACHU(vcopysign(a, b), (a.u[i] & ~SIGN) | (b.u[i] & SIGN), "vcopysign");
	EACHU(vcgtz(a), a.v[i] > 0 ? ALL : 0, "vcgtz"); EACHU(vcltz(a), a.v[i] < 0 ? ALL : 0, "vcltz"); EACHU(vclez(a), a.v[i] <= 0 ? ALL : 0, "vclez"); EACHU(vceqz(a), a.v[i] == 0 ? ALL : 0, "vceqz");
	EACHU(vcgt(a, b), a.v[i] > b.v[i] ? ALL : 0, "vcgt"); EACHU(vceq(a, b), a.v[i] == b.v[i] ? ALL : 0, "vceq");
	EACHU(vadd(a, b), raw(a.v[i] + b.v[i]), "vadd"); EACHU(vsub(a, b), raw(a.v[i] - b.v[i]), "vsub"); EACHU(vmul(a, b), raw(a.v[i] * b.v[i]), "vmul");
	sx_reach("compared");
	for (int i = 0; i < W; ++i) { sx_assume(a.v[i] == a.v[i]); sx_assume(b.v[i] == b.v[i]); sx_assume((a.v[i] != b.v[i]) | (a.u[i] == b.u[i])); }
	EACHU(vmin(a, b), a.v[i] < b.v[i] ? a.u[i] : b.u[i], "vmin"); EACHU(vmax(a, b), a.v[i] > b.v[i] ? a.u[i] : b.u[i], "vmax");
	{ U lu = sx_any<U>("lo"), hu = sx_any<U>("hi"); T lo, hi; memcpy(&lo, &lu, sizeof lo); memcpy(&hi, &hu, sizeof hi); sx_assume(lo < hi);
	  for (int i = 0; i < W; ++i) sx_assume(((a.v[i] != lo) | (a.u[i] == lu)) & ((a.v[i] != hi) | (a.u[i] == hu)));
	  EACHU(vclamp(a, lo, hi), a.v[i] < lo ? lu : a.v[i] > hi ? hu : a.u[i], "vclamp"); }
	EACHU(vsignum(a), a.v[i] > 0 ? raw((T)1) : a.v[i] < 0 ? raw((T)-1) : (U)(res_.u[i] & SIGN), "vsignum");
	sx_reach("ordered");
}
#else
template <typename T, int W> static void test()
{
	typedef SIMD<T, W> V; typedef typename V::uint_type U; typedef SIMD<U, W> M;
	const int B = 8 * sizeof(T); const T MIN = (T)((U)1 << (B - 1)), MAX = (T)~MIN; const U ALL = ~(U)0;
	V a, b, h, g, s, t; T x = sx_any<T>("x");
	for (int i = 0; i < W; ++i) {
		a.v[i] = sx_any<T>("a"); b.v[i] = sx_any<T>("b");
		if (B >= 32) { h.v[i] = a.v[i] >> 1; g.v[i] = b.v[i] >> 1; s.v[i] = (T)sx_soft(8, "s") * ((T)1 << i * 3 % (B / 2 - 7)); t.v[i] = (T)sx_soft(8, "t") * ((T)1 << i * 5 % (B / 2 - 7)); }
		else { h.v[i] = s.v[i] = a.v[i]; g.v[i] = t.v[i] = b.v[i]; }
	}
	EACH(vdup<V>(x), x, "vdup"); EACH(vzero<V>(), 0, "vzero");
	EACH(vmask(a), (U)a.v[i], "vmask"); EACH(vunsigned(a), (U)a.v[i], "vunsigned"); EACH(vreinterpret<M>(a), (U)a.v[i], "vreinterpret to unsigned");
	{ M m; for (int i = 0; i < W; ++i) m.v[i] = a.u[i]; EACH(vsigned(m), a.v[i], "vsigned"); EACH(vreinterpret<V>(m), a.v[i], "vreinterpret to signed"); }
	EACH(vneg(h), (T)(0 - (U)h.v[i]), "vneg"); EACH(vabs(h), (T)(h.v[i] < 0 ? 0 - (U)h.v[i] : (U)h.v[i]), "vabs");
	EACH(vqabs(a), (T)(a.v[i] == MIN ? MAX : a.v[i] < 0 ? (T)(0 - (U)a.v[i]) : a.v[i]), "vqabs");
	EACH(vcgtz(a), (U)(a.v[i] > 0 ? ALL : 0), "vcgtz"); EACH(vcltz(a), (U)(a.v[i] < 0 ? ALL : 0), "vcltz"); EACH(vclez(a), (U)(a.v[i] <= 0 ? ALL : 0), "vclez"); EACH(vceqz(a), (U)(a.v[i] == 0 ? ALL : 0), "vceqz");
	EACH(vcgt(a, b), (U)(a.v[i] > b.v[i] ? ALL : 0), "vcgt"); EACH(vceq(a, b), (U)(a.v[i] == b.v[i] ? ALL : 0), "vceq");
	EACH(vadd(h, g), (T)((U)h.v[i] + (U)g.v[i]), "vadd"); EACH(vsub(h, g), (T)((U)h.v[i] - (U)g.v[i]), "vsub");
	EACH(vmul(s, t), (T)((int64_t)s.v[i] * (int64_t)t.v[i]), "vmul");
	EACH(vmin(a, b), a.v[i] < b.v[i] ? a.v[i] : b.v[i], "vmin"); EACH(vmax(a, b), a.v[i] > b.v[i] ? a.v[i] : b.v[i], "vmax");
	{ T lo = sx_any<T>("lo"), hi = sx_any<T>("hi"); sx_assume(lo <= hi); EACH(vclamp(a, lo, hi), a.v[i] < lo ? lo : a.v[i] > hi ? hi : a.v[i], "vclamp"); }
	EACH(vsignum(a), (T)(a.v[i] > 0 ? 1 : a.v[i] < 0 ? -1 : 0), "vsignum");
	EACH(vsign(h, b), (T)(b.v[i] > 0 ? h.v[i] : b.v[i] < 0 ? (T)(0 - (U)h.v[i]) : 0), "vsign");
	if constexpr (sizeof(T) <= 2) {
		EACH(vqadd(a, b), (T)std::min<int>(std::max<int>((int)a.v[i] + b.v[i], MIN), MAX), "vqadd");
		EACH(vqsub(a, b), (T)std::min<int>(std::max<int>((int)a.v[i] - b.v[i], MIN), MAX), "vqsub");
		M p, q; for (int i = 0; i < W; ++i) { p.v[i] = a.u[i]; q.v[i] = b.u[i]; }
		EACH(vqsub(p, q), (U)(p.v[i] > q.v[i] ? p.v[i] - q.v[i] : 0), "vqsub unsigned");
	}
	sx_reach("compared");
}
#endif
#ifdef ROT
template <int W, int D> static void rotation()
{
	typedef SIMD<T_, W> V; static CODE::Rotate<V, D> rot;
	V a; for (int i = 0; i < W; ++i) a.v[i] = sx_any<T_>("a");
	int s = sx_choice(-D + 1, D - 1, "shift");
	V r = rot(a, s);
	for (int j = 0; j < D; ++j) sx_assert(r.u[j] == a.u[((j - s) % D + D) % D], "rotated");
	for (int j = 0; j < D; ++j) sx_assert(rot(r, -s).u[j] == a.u[j], "rotated back");
	sx_reach("rotated");
}
template <int W, int D> static void widths(int d) { if (d == D) rotation<W, D>(); else if constexpr (D > 1) widths<W, D - 1>(d); }
extern "C" void harness() { sx_merge(1); widths<W_, W_>(sx_choice(1, W_, "width")); }
#else
template <int W> static void PART()
{
	if (PART_ == 0) test<T_, W>();
	if (PART_ == 1) { masks<T_, W>(); shuffles<T_, W>(); }
}
extern "C" void harness()
{
	sx_merge(1);
	const int N = 16 / sizeof(T_);
	switch (sx_choice(WLO, WHI, "width")) {
	case 1: PART<N>(); break;
	case 2: PART<2 * N>(); break;
	case 3: PART<3 * N>(); break;
	case 4: PART<4 * N>(); break;
	case 5: PART<3>(); break;
	}
}
#endif
