// Random differential test of the simplifier and the bit-blaster: random expression graphs are built through
// the constructors and compared with values computed directly.
#include "expr.hh"
#include "solver.hh"
#include <cstdio>
#include <cstdlib>
static u64 st = 88172645463325252ull;
static u64 rnd() { st ^= st << 13; st ^= st >> 7; st ^= st << 17; return st * 0x2545F4914F6CDD1Dull; }
static u64 rn(u64 n) { return (rnd() >> 20) % n; }
static const int NM = 6; static E lastc;
struct P { E e; u64 v[NM]; };
int main(int argc, char **argv)
{
	int rounds = argc > 1 ? atoi(argv[1]) : 200; g_ttbits = argc > 2 ? atoi(argv[2]) : 0; if (argc > 3) st += 7919 * atoi(argv[3]);
	bool sat = argc > 4;
	unsigned ws[] = {1, 1, 1, 2, 3, 4, 7, 8, 8, 8, 16, 16, 32, 32, 64};
	u64 checks = 0;
	for (int r = 0; r < rounds; ++r) {
		std::vector<P> pool; std::vector<u32> vars; Model m[NM];
		int nv = 1 + rn(4);
		for (int i = 0; i < nv; ++i) { unsigned w = ws[rn(15)]; if (g_ttbits && w > 8) w = 4; E e = mkVar(w, "x", i); P p; p.e = e; for (int j = 0; j < NM; ++j) { u64 v = rn(4) ? rnd() : rn(3) - 1; v &= msk(w); m[j].var[(u32)e->c] = v; p.v[j] = v; } pool.push_back(p); }
		for (int i = 0; i < 3; ++i) { unsigned w = ws[rn(15)]; u64 v = rn(3) ? rn(4) - 1 : rnd(); P p; p.e = mkC(w, v & msk(w)); for (int j = 0; j < NM; ++j) p.v[j] = v & msk(w); pool.push_back(p); }
		auto pick = [&](unsigned w) -> P {
			for (int t = 0; t < 30; ++t) { P p = pool[rn(4) ? pool.size() - 1 - rn(std::min<size_t>(pool.size(), 8)) : rn(pool.size())]; if (!w || p.e->w == w) return p; }
			P p = pool[rn(pool.size())]; P q = p; if (!w || p.e->w == w) return p;
			if (p.e->w > w) { q.e = mkExtract(p.e, w - 1, 0); for (int j = 0; j < NM; ++j) q.v[j] = p.v[j] & msk(w); }
			else if (rn(2)) q.e = mkZext(p.e, w); else { q.e = mkSext(p.e, w); for (int j = 0; j < NM; ++j) q.v[j] = (u64)sx(p.v[j], p.e->w) & msk(w); }
			return q;
		};
		for (int s = 0; s < 40; ++s) {
			P a = pick(0); unsigned w = a.e->w; P b = rn(5) ? pick(w) : a; P q; q.e = nullptr; u64 M = msk(w);
			if (!rn(4)) { u64 v = rn(3) ? rn(9) - 1 : rnd(); b.e = mkC(w, v & M); for (int j = 0; j < NM; ++j) b.v[j] = v & M; }
			if (!rn(6)) std::swap(a, b);
#define F(X, Y) { q.e = X; for (int j = 0; j < NM; ++j) { u64 x = a.v[j], y = b.v[j]; (void)x; (void)y; q.v[j] = Y; } }
			int op = rn(24);
			if ((op >= 3 && op <= 6) && w > 16 && sat) op = 0;
			switch (op) {
			case 0: F(mkAdd(a.e, b.e), (x + y) & M) break; case 1: F(mkSub(a.e, b.e), (x - y) & M) break; case 2: F(mkMul(a.e, b.e), (x * y) & M) break;
			case 3: F(mkUDiv(a.e, b.e), y ? x / y : M) break; case 4: F(mkURem(a.e, b.e), y ? x % y : x) break;
			case 5: { bool z = false; for (int j = 0; j < NM; ++j) z |= !b.v[j] || (sx(b.v[j], w) == -1); if (z) continue; F(mkSDiv(a.e, b.e), (u64)(sx(x, w) / sx(y, w)) & M) break; }
			case 6: { bool z = false; for (int j = 0; j < NM; ++j) z |= !b.v[j] || (sx(b.v[j], w) == -1); if (z) continue; F(mkSRem(a.e, b.e), (u64)(sx(x, w) % sx(y, w)) & M) break; }
			case 7: F(mkAnd(a.e, b.e), x & y) break; case 8: F(mkOr(a.e, b.e), x | y) break; case 9: case 10: F(mkXor(a.e, b.e), x ^ y) break; case 11: F(mkNot(a.e), ~x & M) break;
			case 12: F(mkShl(a.e, b.e), y >= w ? 0 : (x << y) & M) break; case 13: F(mkLShr(a.e, b.e), y >= w ? 0 : x >> y) break; case 14: F(mkAShr(a.e, b.e), (u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & M) break;
			case 15: case 16: { P c = pick(1); lastc = c.e; q.e = mkIte(c.e, a.e, b.e); for (int j = 0; j < NM; ++j) q.v[j] = c.v[j] ? a.v[j] : b.v[j]; break; }
			case 17: F(mkEq(a.e, b.e), x == y) break; case 18: F(mkUlt(a.e, b.e), x < y) break; case 19: F(mkSlt(a.e, b.e), sx(x, w) < sx(y, w)) break;
			case 20: { P c = pick(0); if (c.e->w + w > 64) continue; q.e = mkConcat(a.e, c.e); for (int j = 0; j < NM; ++j) q.v[j] = a.v[j] << c.e->w | c.v[j]; break; }
			case 21: { unsigned lo = rn(w), hi = lo + rn(w - lo); F(mkExtract(a.e, hi, lo), (x >> lo) & msk(hi - lo + 1)) break; }
			case 22: { if (w == 64) continue; unsigned nw = w + 1 + rn(64 - w); if (rn(2)) F(mkZext(a.e, nw), x) else F(mkSext(a.e, nw), (u64)sx(x, w) & msk(nw)) break; }
			case 23: { if (w > 10) continue; std::vector<u64> t; unsigned ew = ws[rn(15)]; u64 k = rnd(); for (u64 i = 0; i <= M; ++i) t.push_back((rn(2) ? i * 3 + k : rnd()) & msk(ew)); F(mkTable(internTable(ew, t), a.e), t[x]) break; }
			}
			if (!q.e) continue;
			for (int j = 0; j < NM; ++j) {
				++checks;
				m[j].val.clear(); m[j].have.clear();
				u64 g = m[j].eval(q.e);
				bool rng = !(q.v[j] < q.e->umin || q.v[j] > q.e->umax || sx(q.v[j], q.e->w) < q.e->smin || sx(q.v[j], q.e->w) > q.e->smax);
				if (g != q.v[j] || !rng) { if (lastc) printf("c=%s\n", show(lastc, 8).c_str()); printf("MISMATCH round %d step %d op %d w %u: got %llx want %llx range ok %d\n a=%s\n b=%s\n r=%s\n", r, s, op, w, (unsigned long long)g, (unsigned long long)q.v[j], rng, show(a.e, 8).c_str(), show(b.e, 8).c_str(), show(q.e, 8).c_str()); return 1; }
			}
			pool.push_back(q);
		}
		if (sat) for (int t = 0; t < 4; ++t) {
			P p = pool[pool.size() - 1 - rn(10)]; int j = rn(NM); std::vector<E> c;
			for (int i = 0; i < nv; ++i) c.push_back(mkEq(pool[i].e, mkC(pool[i].e->w, pool[i].v[j])));
			std::vector<E> d = c; d.push_back(mkEq(p.e, mkC(p.e->w, p.v[j]))); c.push_back(mkNe(p.e, mkC(p.e->w, p.v[j])));
			Model mm; Res r1 = solve(c, nullptr, true), r2 = solve(d, &mm, true);
			if (r1 != UNSAT_ || r2 != SAT_) { printf("SOLVER MISMATCH round %d: %d %d e=%s\n", r, r1, r2, show(p.e, 8).c_str()); return 1; }
			// a free model must satisfy what was asked
			std::vector<E> f{mkEq(p.e, mkC(p.e->w, p.v[j]))}; Model fm; if (solve(f, &fm, true) != SAT_ || fm.eval(p.e) != p.v[j]) { printf("MODEL MISMATCH round %d e=%s\n", r, show(p.e, 8).c_str()); return 1; }
			++checks;
		}
	}
	printf("selftest: %llu comparisons agree (tt %u)\n", (unsigned long long)checks, g_ttbits);
}
