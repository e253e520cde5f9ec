// C17: sorting
#include <cstdint>
#include <cmath>
#include <cstdlib>
#include <algorithm>
#include "sx.h"
#include "simd.hh"
#include "sort.hh"
#include "simd_sort.hh"
struct KT { KEY_ k; uint8_t tag; };
static bool operator<(const KT &a, const KT &b) { return a.k < b.k; }
static const int HI = HI_, SYM = SYM_;
static KT a[HI + 2]; static KEY_ in[HI + 2], raw[HI + 2];
// SYM symbolic keys spread over an otherwise concrete array
static void fill(int n)
{
	for (int i = 0; i < n; ++i) in[i] = (i * 37 + PAT) % 23;
	if (n <= SYM) { for (int i = 0; i < n; ++i) in[i] = (KEY_)sx_bits(BITS_, "key"); }
	else for (int i = 0; i < SYM; ++i) in[sx_choice(0, 1, "where") ? n - 1 - i : i * n / SYM] = (KEY_)sx_bits(BITS_, "key");
	for (int i = 0; i < n; ++i) { a[i].k = raw[i] = in[i]; a[i].tag = i; }
	a[n].k = raw[n] = 5; a[n].tag = 201;
}
static void verify(int n, bool stable, const char *)
{
	bool seen[HI + 1] = {};
	for (int i = 0; i < n; ++i) { int t = a[i].tag; sx_assert(t < n && !seen[t < n ? t : 0], "a permutation of the input"); seen[t < n ? t : 0] = true; sx_assert(a[i].k == in[t < n ? t : 0], "elements stay intact"); }
	for (int i = 0; i + 1 < n; ++i) { sx_assert(!(a[i + 1].k < a[i].k), "ascending"); if (stable) sx_assert(a[i].k < a[i + 1].k || a[i].tag < a[i + 1].tag, "equal elements keep their order"); }
	sx_assert(a[n].k == 5 && a[n].tag == 201, "stays inside"); sx_reach("sorted");
}
extern "C" void harness()
{
	int n = sx_choice(LO_, HI, "n"); fill(n);
#if PART == 0
	CODE::insertion_sort(a, n); verify(n, true, "insertion");
#elif PART == 1	// custom order: descending
	CODE::insertion_sort(a, n, [](const KT &x, const KT &y) { return y.k < x.k; });
	for (int i = 0; i + 1 < n; ++i) sx_assert(!(a[i].k < a[i + 1].k) && (a[i + 1].k < a[i].k || a[i].tag < a[i + 1].tag), "descending and stable");
	for (int i = 0; i < n; ++i) sx_assert(a[i].tag < n && a[i].k == in[a[i].tag], "elements stay intact"); sx_reach("sorted");
#elif PART == 2	// with the permutation
	uint8_t p[HI + 2]; p[n] = 99; CODE::insertion_sort(p, raw, n); sx_assert(p[n] == 99, "stays inside");
	for (int i = 0; i < n; ++i) { a[i].k = raw[i]; a[i].tag = p[i]; } verify(n, true, "indexed");
#elif PART == 3
	CODE::MergeSort<KT, HI, MM> *s = new CODE::MergeSort<KT, HI, MM>; (*s)(a, n, [](const KT &x, const KT &y) { return x.k < y.k; }); verify(n, true, "merge"); delete s;
#elif PART == 4
	CODE::MergeSort<KT, HI, MM> *s = new CODE::MergeSort<KT, HI, MM>; (*s)(a, n); verify(n, true, "merge"); delete s;
#else
	typedef SIMD<KEY_, HI> V; V v; for (int i = 0; i < HI; ++i) v.v[i] = in[i];
	auto o = vorder(v); V s = vsort(v); for (int i = 0; i < HI; ++i) sx_assert(v.v[i] == in[i], "argument untouched");
	for (int i = 0; i < HI; ++i) { a[i].k = s.v[i]; a[i].tag = o.v[i]; } verify(HI, true, "simd");
#endif
}
