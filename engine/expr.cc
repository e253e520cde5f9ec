// Expression DAG: hash-consing, ranges, normalisation rules, small-support canonicalisation.
#include "expr.hh"
#include <cstdio>
#include <cstdlib>
#include <map>
#include <chrono>

std::vector<VarInfo> g_vars;
bool g_absAdd = false;
std::vector<Table*> g_tables;
std::vector<std::string> g_ufs;
unsigned g_ttbits = 0;
u64 g_nexpr = 0, g_tt_rewrites = 0;
double g_tt_time = 0;
static const unsigned LEAFLIM = 64;

// ---------------------------------------------------------------- interning
static std::vector<char*> arena; static size_t apos = 0, acap = 0;
static void *alloc(size_t n)
{
	n = (n + 15) & ~(size_t)15;
	if (apos + n > acap) { acap = std::max<size_t>(n, 1 << 22); arena.push_back((char*)malloc(acap)); apos = 0; }
	void *p = arena.back() + apos; apos += n; return p;
}
static std::vector<Expr*> htab(1 << 16, nullptr); static size_t hcount = 0;
static u32 nextId = 1;
u32 numExprs() { return nextId; }
static inline u64 mix(u64 h, u64 v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; return h; }

static void ranges(Expr *e);
static E canon(Expr *e);

static E intern(Op op, unsigned w, const E *k, u32 n, u64 c, const u64 *co)
{
	u64 h = mix(mix(mix(0x1234567, op), w), c);
	for (u32 i = 0; i < n; ++i) h = mix(h, k[i]->id);
	if (co) for (u32 i = 0; i < n; ++i) h = mix(h, co[i]);
	if (hcount * 2 > htab.size()) {
		std::vector<Expr*> nt(htab.size() * 2, nullptr);
		for (Expr *e : htab) if (e) { size_t i = e->hash & (nt.size() - 1); while (nt[i]) i = (i + 1) & (nt.size() - 1); nt[i] = e; }
		htab.swap(nt);
	}
	size_t i = h & (htab.size() - 1);
	while (htab[i]) {
		Expr *e = htab[i];
		if (e->hash == h && e->op == op && e->w == w && e->c == c && e->n == n && !memcmp(e->k, k, n * sizeof(E)) && (!co || !memcmp(e->co, co, n * sizeof(u64))))
			return e;
		i = (i + 1) & (htab.size() - 1);
	}
	Expr *e = (Expr*)alloc(sizeof(Expr));
	E *kk = n ? (E*)alloc(n * sizeof(E)) : nullptr;
	for (u32 j = 0; j < n; ++j) kk[j] = k[j];
	u64 *cc = nullptr;
	if (co) { cc = (u64*)alloc(n * sizeof(u64)); memcpy(cc, co, n * sizeof(u64)); }
	e->op = op; e->w = w; e->id = nextId++; e->n = n; e->c = c; e->hash = h; e->k = kk; e->co = cc; e->leafy = 0;
	htab[i] = e; ++hcount; ++g_nexpr;
	if (op == CONST) e->leafy = 1;
	if (op == ITE && k[1]->leafy && k[2]->leafy && w <= 64) {
		unsigned l = k[1]->leafy + k[2]->leafy;
		e->leafy = l > LEAFLIM ? 0 : l;
	}
	ranges(e);
	return e;
}
static E mk(Op op, unsigned w, std::initializer_list<E> k, u64 c = 0)
{
	E r = intern(op, w, k.begin(), k.size(), c, nullptr);
	return g_ttbits ? canon((Expr*)r) : r;
}
static E mkv(Op op, unsigned w, const std::vector<E> &k, u64 c = 0, const u64 *co = nullptr)
{
	E r = intern(op, w, k.data(), k.size(), c, co);
	return g_ttbits ? canon((Expr*)r) : r;
}

static void full(Expr *e)
{
	if (e->w >= 64) { e->umin = 0; e->umax = ~(u64)0; e->smin = INT64_MIN; e->smax = INT64_MAX; }
	else { e->umin = 0; e->umax = msk(e->w); e->smin = -(i64)((u64)1 << (e->w - 1)); e->smax = (i64)(msk(e->w) >> 1); }
}
static void ranges(Expr *e)
{
	full(e);
	unsigned w = e->w;
	if (w > 64) return;
	u64 M = msk(w);
	auto setU = [&](u64 lo, u64 hi) { if (lo > e->umin) e->umin = lo; if (hi < e->umax) e->umax = hi; };
	auto setS = [&](i64 lo, i64 hi) { if (lo > e->smin) e->smin = lo; if (hi < e->smax) e->smax = hi; };
	E a = e->n > 0 ? e->k[0] : nullptr, b = e->n > 1 ? e->k[1] : nullptr;
	switch (e->op) {
	case CONST: e->umin = e->umax = e->c; e->smin = e->smax = sx(e->c, w); return;
	case ADD: {
		i128 lo = 0, hi = 0; bool ok = true;
		for (int mode = 0; mode < 2; ++mode) {
			lo = hi = 0; ok = true;
			i128 c = sx(e->c, w); lo += c; hi += c;
			for (u32 i = 0; i < e->n && ok; ++i) {
				i128 q = sx(e->co[i], w), x, y;
				if (mode == 0) { x = e->k[i]->smin; y = e->k[i]->smax; } else { x = e->k[i]->umin; y = e->k[i]->umax; }
				i128 p = q * x, r = q * y; if (p > r) std::swap(p, r);
				lo += p; hi += r;
				if (lo < -((i128)1 << 100) || hi > ((i128)1 << 100)) ok = false;
			}
			if (!ok) continue;
			i128 smn = w == 64 ? (i128)INT64_MIN : -((i128)1 << (w - 1)), smx = -smn - 1;
			if (lo >= smn && hi <= smx) setS((i64)lo, (i64)hi);
			if (lo >= 0 && hi <= (i128)M) setU((u64)lo, (u64)hi);
		}
		break; }
	case MUL: {
		u128 hi = (u128)a->umax * b->umax;
		if (hi <= M) setU((u64)((u128)a->umin * b->umin), (u64)hi);
		i128 c[4] = {(i128)a->smin * b->smin, (i128)a->smin * b->smax, (i128)a->smax * b->smin, (i128)a->smax * b->smax};
		i128 lo = *std::min_element(c, c + 4), h2 = *std::max_element(c, c + 4);
		i128 smn = w == 64 ? (i128)INT64_MIN : -((i128)1 << (w - 1)), smx = -smn - 1;
		if (lo >= smn && h2 <= smx) setS((i64)lo, (i64)h2);
		break; }
	case UDIV: if (b->umin) setU(a->umin / b->umax, a->umax / b->umin); break;
	case UREM: if (b->umin) setU(0, std::min(a->umax, b->umax - 1)); break;
	case SDIV: if (b->isC() && sx(b->c, w) > 0) { i64 d = sx(b->c, w); setS(a->smin / d, a->smax / d); } break;
	case SREM: if (b->isC() && sx(b->c, w) > 0) { i64 d = sx(b->c, w); setS(a->smin < 0 ? std::max(-(d - 1), a->smin) : 0, a->smax > 0 ? std::min(d - 1, a->smax) : 0); } break;
	case AND: setU(0, std::min(a->umax, b->umax)); if (a->smin >= 0 || b->smin >= 0) {} break;
	case OR: case XOR: {
		u64 m = 0; u64 lo = 0;
		for (u32 i = 0; i < e->n; ++i) { m |= e->k[i]->umax; if (e->op == OR) lo = std::max(lo, e->k[i]->umin); }
		if (e->op == XOR) m |= e->c;
		while (m & (m + 1)) m |= m >> 1;
		setU(lo, m);
		if (e->op == OR) { if (a->smin >= 0 && b->smin >= 0) {} }
		break; }
	case SHL: if (b->umax < 64) { u128 hi = (u128)a->umax << b->umax; if (hi <= M) setU(a->umin << b->umin, (u64)hi); } break;
	case LSHR: setU(b->umax >= 64 ? 0 : a->umin >> b->umax, b->umin >= 64 ? 0 : a->umax >> b->umin); break;
	case ASHR: { unsigned lo = std::min<u64>(b->umin, w - 1), hi = std::min<u64>(b->umax, w - 1);
		setS(a->smin < 0 ? a->smin >> lo : a->smin >> hi, a->smax < 0 ? a->smax >> hi : a->smax >> lo); break; }
	case ITE: a = e->k[1]; b = e->k[2]; setU(std::min(a->umin, b->umin), std::max(a->umax, b->umax)); setS(std::min(a->smin, b->smin), std::max(a->smax, b->smax)); break;
	case CONCAT: { u64 lo = 0, hi = 0; for (u32 i = 0; i < e->n; ++i) { lo = (e->k[i]->w >= 64 ? 0 : lo << e->k[i]->w) | e->k[i]->umin; hi = (e->k[i]->w >= 64 ? 0 : hi << e->k[i]->w) | e->k[i]->umax; } setU(lo, hi);
		{ u32 r = 1; if (a->w == 1) while (r < e->n && e->k[r] == a) ++r; if (r > 1) setS(-(i64)((u64)1 << (w - r)), (i64)((u64)1 << (w - r)) - 1); }	// copies of a sign bit
		break; }
	case EXTRACT: if (a->w <= 64) { u64 lo = a->umin >> e->c, hi = a->umax >> e->c; if (hi <= M) setU(lo, hi);
			else if (e->c == 0 && a->smin >= (w >= 64 ? INT64_MIN : -(i64)((u64)1 << (w - 1))) && a->smax <= (i64)(M >> 1)) setS(a->smin, a->smax); } break;
	case SEXT: setS(a->smin, a->smax); break;
	case TABLE: setU(g_tables[e->c]->lo, g_tables[e->c]->hi); break;
	default: break;
	}
	if (e->umax <= (M >> 1)) setS((i64)e->umin, (i64)e->umax);
	else if (w < 64 ? e->umin > (M >> 1) : (i64)e->umin < 0) setS(sx(e->umin, w), sx(e->umax, w));
	if (e->smin >= 0) setU((u64)e->smin, (u64)e->smax);
	else if (e->smax < 0) setU((u64)e->smin & M, (u64)e->smax & M);
}

// ---------------------------------------------------------------- evaluation
u64 evalOp(E e, const u64 *v)
{
	unsigned w = e->w; u64 M = msk(w);
	switch (e->op) {
	case CONST: return e->c;
	case ADD: { u64 s = e->c; for (u32 i = 0; i < e->n; ++i) s += e->co[i] * v[i]; return s & M; }
	case MUL: return (v[0] * v[1]) & M;
	case UDIV: return v[1] ? v[0] / v[1] : M;
	case UREM: return v[1] ? v[0] % v[1] : v[0];
	case SDIV: { i64 a = sx(v[0], w), b = sx(v[1], w); if (!b) return (a < 0 ? 1 : M); if (b == -1) return (0 - (u64)a) & M; return (u64)(a / b) & M; }
	case SREM: { i64 a = sx(v[0], w), b = sx(v[1], w); if (!b) return v[0]; if (b == -1) return 0; return (u64)(a % b) & M; }
	case AND: return v[0] & v[1];
	case OR: return v[0] | v[1];
	case XOR: { u64 s = e->c; for (u32 i = 0; i < e->n; ++i) s ^= v[i]; return s; }
	case SHL: return v[1] >= w ? 0 : (v[0] << v[1]) & M;
	case LSHR: return v[1] >= w ? 0 : v[0] >> v[1];
	case ASHR: return (u64)(sx(v[0], w) >> (v[1] >= w ? w - 1 : v[1])) & M;
	case ITE: return v[0] ? v[1] : v[2];
	case EQ: return v[0] == v[1];
	case ULT: return v[0] < v[1];
	case SLT: return sx(v[0], e->k[0]->w) < sx(v[1], e->k[1]->w);
	case CONCAT: { u64 s = 0; for (u32 i = 0; i < e->n; ++i) s = (e->k[i]->w >= 64 ? 0 : s << e->k[i]->w) | v[i]; return s & M; }
	case EXTRACT: return (v[0] >> e->c) & M;
	case SEXT: return (u64)sx(v[0], e->k[0]->w) & M;
	case TABLE: { Table *t = g_tables[e->c]; return v[0] < t->val.size() ? t->val[v[0]] : 0; }
	case UF: { u64 h = mix(e->c, 77); for (u32 i = 0; i < e->n; ++i) h = mix(h, v[i]); return h & M; }
	default: abort();
	}
}
u64 Model::eval(E root)
{
	if (root->w > 64) abort();
	std::vector<E> st{root};
	if (val.size() < nextId) { val.resize(nextId + nextId / 4); have.resize(val.size()); }
	u64 buf[8]; std::vector<u64> big;
	while (!st.empty()) {
		E e = st.back();
		if (have[e->id]) { st.pop_back(); continue; }
		if (e->op == VAR) { auto it = var.find((u32)e->c); val[e->id] = it == var.end() ? 0 : it->second & msk(e->w); have[e->id] = 1; st.pop_back(); continue; }
		if (e->op == UF) { auto it = uf.find(e->id); val[e->id] = it == uf.end() ? 0 : it->second; have[e->id] = 1; st.pop_back(); continue; }
		bool ready = true;
		if (e->op == EXTRACT && e->k[0]->w > 64) {
			// wide concat operand: should have been simplified away
			abort();
		}
		if (e->op == ITE) {	// lazily
			E c = e->k[0];
			if (!have[c->id]) { st.push_back(c); continue; }
			E x = val[c->id] ? e->k[1] : e->k[2];
			if (!have[x->id]) { st.push_back(x); continue; }
			val[e->id] = val[x->id]; have[e->id] = 1; st.pop_back(); continue;
		}
		for (u32 i = 0; i < e->n; ++i) if (!have[e->k[i]->id]) { st.push_back(e->k[i]); ready = false; }
		if (!ready) continue;
		u64 *v = buf; if (e->n > 8) { big.resize(e->n); v = big.data(); }
		for (u32 i = 0; i < e->n; ++i) v[i] = val[e->k[i]->id];
		val[e->id] = evalOp(e, v); have[e->id] = 1; st.pop_back();
	}
	return val[root->id];
}

// ---------------------------------------------------------------- small-support canonicalisation
// A node whose value is a function of at most g_ttbits linear forms (XORs of one-bit atoms) is represented by its complete
// function table over these forms, in reduced echelon form. Affine functions are rewritten to XORs of the atoms, equal functions share a node.
struct Fn { std::vector<E> at; u8 sz; std::vector<u8> d;
	u64 get(size_t i) const { switch (sz) { case 1: return d[i]; case 2: return ((const uint16_t*)d.data())[i]; case 4: return ((const u32*)d.data())[i]; default: return ((const u64*)d.data())[i]; } }
};
static std::unordered_map<u32, Fn*> fnOf;	// by expr id; nullptr = no table
static std::unordered_map<u64, std::vector<std::pair<Fn*, E>>> fnIndex;
static std::unordered_map<u32, E> canonOf;
static const Fn *getFn(E e);

typedef std::vector<E> Form;	// sorted by id
static bool byId(E a, E b) { return a->id < b->id; }
static Form formOf(E b)	// without the constant
{
	Form f;
	if (b->op == XOR && b->w == 1) { f.assign(b->k, b->k + b->n); if (!std::is_sorted(f.begin(), f.end(), byId)) std::sort(f.begin(), f.end(), byId); } else f.push_back(b);
	return f;
}
static u64 invOf(E b) { return b->op == XOR && b->w == 1 ? b->c : 0; }
static Form symdiff(const Form &a, const Form &b)
{
	Form r; r.reserve(a.size() + b.size()); size_t i = 0, j = 0;
	while (i < a.size() && j < b.size()) if (a[i] == b[j]) ++i, ++j; else if (byId(a[i], b[j])) r.push_back(a[i++]); else r.push_back(b[j++]);
	r.insert(r.end(), a.begin() + i, a.end()); r.insert(r.end(), b.begin() + j, b.end());
	return r;
}
static E formExpr(const Form &f) { return f.size() == 1 ? f[0] : mkv(XOR, 1, f, 0); }
// reduced echelon form, pivot = lowest id; false if the rank exceeds limit
static bool addForm(std::vector<Form> &B, Form f, unsigned limit)
{
	for (auto &b : B) if (std::binary_search(f.begin(), f.end(), b[0], byId)) f = symdiff(f, b);
	if (f.empty()) return true;
	if (B.size() >= limit) return false;
	for (auto &b : B) if (std::binary_search(b.begin(), b.end(), f[0], byId)) b = symdiff(b, f);
	B.insert(std::lower_bound(B.begin(), B.end(), f, [](const Form &x, const Form &y) { return byId(x[0], y[0]); }), f);
	return true;
}
static u64 coord(const std::vector<Form> &B, const Form &f)
{
	u64 m = 0;
	for (size_t j = 0; j < B.size(); ++j) if (std::binary_search(f.begin(), f.end(), B[j][0], byId)) m |= (u64)1 << j;
	return m;
}
static Fn *makeFn(const std::vector<E> &at, const std::vector<u64> &v)
{
	u64 mx = 0; for (u64 x : v) mx |= x;
	Fn *f = new Fn; f->at = at;
	f->sz = mx < 256 ? 1 : mx < 65536 ? 2 : mx <= 0xffffffffu ? 4 : 8;
	f->d.resize(v.size() * f->sz);
	for (size_t x = 0; x < v.size(); ++x) switch (f->sz) { case 1: f->d[x] = v[x]; break; case 2: ((uint16_t*)f->d.data())[x] = v[x]; break; case 4: ((u32*)f->d.data())[x] = v[x]; break; default: ((u64*)f->d.data())[x] = v[x]; }
	return f;
}
static Fn *identityFn(E e)
{
	std::vector<E> at; std::vector<u64> v((size_t)1 << e->w);
	for (unsigned i = 0; i < e->w; ++i) at.push_back(e->w == 1 ? e : mkExtract(e, i, i));
	// bits of a variable are atoms; order by id
	std::vector<unsigned> p(e->w); for (unsigned i = 0; i < e->w; ++i) p[i] = i;
	std::sort(p.begin(), p.end(), [&](unsigned a, unsigned b) { return byId(at[a], at[b]); });
	std::vector<E> at2; for (unsigned i : p) at2.push_back(at[i]);
	for (size_t x = 0; x < v.size(); ++x) { u64 y = 0; for (unsigned j = 0; j < e->w; ++j) if (x >> j & 1) y |= (u64)1 << p[j]; v[x] = y; }
	return makeFn(at2, v);
}
static Fn *buildFn(E e)
{
	if (e->w > 64) return nullptr;
	if (e->op == VAR || (e->op == EXTRACT && e->k[0]->op == VAR)) return e->w > g_ttbits ? nullptr : identityFn(e);
	if (e->op == UF) return nullptr;
	if (e->op == EXTRACT && e->w == 1 && !getFn(e->k[0])) return nullptr;	// it is an atom itself
	std::vector<Form> B; Form linear; bool lx = e->op == XOR && e->w == 1;
	if (lx) {
		bool pure = true; for (u32 i = 0; i < e->n && pure; ++i) { const Fn *f = getFn(e->k[i]); if (f && (f->at.size() != 1 || f->at[0] != e->k[i])) pure = false; }
		if (pure) { std::vector<u64> v = {e->c & 1, (e->c & 1) ^ 1}; return makeFn({e->c ? formExpr(formOf(e)) : e}, v); }
	}
	struct Src { const Fn *f; std::vector<E> bit; };
	std::vector<Src> src(e->n);
	for (u32 i = 0; i < e->n; ++i) {
		E k = e->k[i]; if (k->isC()) continue;
		const Fn *f = getFn(k); src[i].f = f;
		if (lx && (!f || (f->at.size() == 1))) { linear = symdiff(linear, formOf(k)); continue; }	// k is an atom
		if (f) { for (E a : f->at) if (!addForm(B, formOf(a), g_ttbits)) return nullptr; continue; }
		if (k->op == CONCAT || k->op == SEXT || (k->op == EXTRACT && k->w > 1)) return nullptr;
		if (k->w > g_ttbits) return nullptr;
		for (unsigned b = 0; b < k->w; ++b) {
			E x = k->w == 1 ? k : mkExtract(k, b, b); src[i].bit.push_back(x);
			if (!x->isC() && !addForm(B, formOf(x), g_ttbits)) return nullptr;
		}
	}
	if (lx && B.empty()) {
		if (linear.empty()) return nullptr;
		std::vector<u64> v = {e->c & 1, (e->c & 1) ^ 1};
		return makeFn({e->c ? formExpr(linear) : e}, v);
	}
	if (lx && !linear.empty() && !addForm(B, linear, g_ttbits)) return nullptr;
	unsigned n = B.size();
	if (e->w == 1) for (auto &f : B) if (f.size() == 1 && f[0] == e) return nullptr;
	size_t N = (size_t)1 << n;
	std::vector<u64> v(N, 0);
	if (lx) {
		if (!linear.empty()) { u64 m = coord(B, linear); for (size_t x = 0; x < N; ++x) v[x] = __builtin_parityll(x & m); }
		if (e->c & 1) for (u64 &x : v) x ^= 1;
	}
	std::vector<std::vector<u64>> kv(e->n);
	for (u32 i = 0; i < e->n; ++i) {
		E k = e->k[i]; const Fn *f = src[i].f;
		if (lx && (!f || f->at.size() == 1)) continue;
		kv[i].resize(N);
		if (k->isC()) { std::fill(kv[i].begin(), kv[i].end(), k->c); continue; }
		const std::vector<E> &s = f ? f->at : src[i].bit;
		std::vector<u64> contrib(n, 0); u64 base = 0;
		for (size_t j = 0; j < s.size(); ++j) {
			if (s[j]->isC()) { base ^= s[j]->c << j; continue; }
			base ^= invOf(s[j]) << j; u64 m = coord(B, formOf(s[j]));
			for (unsigned q = 0; q < n; ++q) if (m >> q & 1) contrib[q] |= (u64)1 << j;
		}
		std::vector<u32> idx(N); idx[0] = base;
		for (size_t x = 1; x < N; ++x) idx[x] = idx[x & (x - 1)] ^ contrib[__builtin_ctzll(x)];
		if (f) for (size_t x = 0; x < N; ++x) kv[i][x] = f->get(idx[x]);
		else for (size_t x = 0; x < N; ++x) kv[i][x] = idx[x];
		if (lx) for (size_t x = 0; x < N; ++x) v[x] ^= kv[i][x];
	}
	if (!lx) { std::vector<u64> tmp(e->n); for (size_t x = 0; x < N; ++x) { for (u32 i = 0; i < e->n; ++i) tmp[i] = kv[i][x]; v[x] = evalOp(e, tmp.data()); } }
	// drop forms without influence
	bool changed = false;
	for (unsigned j = 0; j < n;) {
		bool dep = false; size_t D = (size_t)1 << j;
		for (size_t x = 0; x < N && !dep; ++x) if (!(x & D) && v[x] != v[x | D]) dep = true;
		if (dep) { ++j; continue; }
		std::vector<u64> nv(N / 2);
		for (size_t x = 0; x < N / 2; ++x) nv[x] = v[((x >> j) << (j + 1)) | (x & (D - 1))];
		v.swap(nv); B.erase(B.begin() + j); --n; N /= 2; changed = true;
	}
	// directions d with f(x ^ d) = f(x) for all x
	std::vector<u64> K; std::vector<size_t> wit; u64 work = 0;
	for (u64 d = 3; d < N && work < (1u << 21); ++d) {
		if (!(d & (d - 1))) continue;
		bool red = false; for (u64 k : K) if (d >> (63 - __builtin_clzll(k)) & 1) red = true;
		if (red) continue;
		bool inv = true;
		for (size_t x : wit) if (v[x] != v[x ^ d]) { inv = false; break; }
		work += wit.size() + 1;
		if (!inv) continue;
		for (size_t x = 0; x < N; ++x, ++work) if (v[x] != v[x ^ d]) { inv = false; if (wit.size() < 12) wit.push_back(x); else wit[d % 12] = x; break; }
		if (inv) { u64 p = (u64)1 << (63 - __builtin_clzll(d)); for (u64 &k : K) if (k & p) k ^= d; K.push_back(d); }
	}
	if (!K.empty()) {	// quotient: forms x_j + sum over K of x_p k_j for the non-pivot coordinates
		std::vector<Form> nB; std::vector<unsigned> keep; u64 piv = 0;
		for (u64 k : K) piv |= (u64)1 << (63 - __builtin_clzll(k));
		for (unsigned j = 0; j < n; ++j) if (!(piv >> j & 1)) {
			Form f = B[j];
			for (u64 k : K) if (k >> j & 1) f = symdiff(f, B[63 - __builtin_clzll(k)]);
			keep.push_back(j); nB.push_back(f);
		}
		unsigned m = keep.size(); std::vector<u64> nv((size_t)1 << m);
		for (size_t y = 0; y < nv.size(); ++y) { u64 x = 0; for (unsigned j = 0; j < m; ++j) if (y >> j & 1) x |= (u64)1 << keep[j]; nv[y] = v[x]; }
		v.swap(nv); B.swap(nB); n = m; N = (size_t)1 << m; changed = true;
	}
	if (changed) {	// bring the basis back to reduced echelon form
		std::vector<Form> R; for (auto &f : B) addForm(R, f, 64);
		if (R.size() == B.size()) {
			std::vector<u64> c(n); bool same = true;
			for (unsigned j = 0; j < n; ++j) { c[j] = coord(R, B[j]); if (c[j] != (u64)1 << j) same = false; }
			if (!same) {	// old coordinate j = parity of the new ones in c[j]
				std::vector<u64> nv(N), contrib(n, 0); std::vector<u64> idx(N, 0);
				for (unsigned j = 0; j < n; ++j) for (unsigned q = 0; q < n; ++q) if (c[j] >> q & 1) contrib[q] |= (u64)1 << j;
				for (size_t x = 1; x < N; ++x) idx[x] = idx[x & (x - 1)] ^ contrib[__builtin_ctzll(x)];
				for (size_t x = 0; x < N; ++x) nv[x] = v[idx[x]];
				v.swap(nv); B.swap(R);
			}
		}
	}
	std::vector<E> at; for (auto &f : B) at.push_back(formExpr(f));
	return makeFn(at, v);
}
static const Fn *getFn(E e)
{
	auto it = fnOf.find(e->id);
	if (it != fnOf.end()) return it->second;
	auto t0 = std::chrono::steady_clock::now();
	Fn *f = buildFn(e);
	g_tt_time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	fnOf[e->id] = f;
	return f;
}
E fnRow(E e, unsigned n)	// the linear forms of e as in the n-th row where it is true, null if there are fewer
{
	const Fn *f = e->isC() || e->w != 1 ? nullptr : getFn(e); if (!f) return nullptr;
	size_t N = (size_t)1 << f->at.size(), start = (n * 0x9E3779B9u) & (N - 1);
	for (size_t i = 0; i < N; ++i) { size_t x = (start + i) & (N - 1); if (!f->get(x)) continue; if (n && i > N / 4) break; E r = mkB(true); auto at = f->at; unsigned s = g_ttbits; for (size_t j = 0; j < at.size(); ++j) { E q = x >> j & 1 ? at[j] : mkNot(at[j]); r = r->isC() ? q : intern(AND, 1, std::vector<E>{r, q}.data(), 2, 0, nullptr); } return r; }
	return nullptr;
}
bool hasFn(E e) { return g_ttbits && !e->isC() && e->w <= 64 && getFn(e); }
static int canonDepth = 0;
static E canon(Expr *e)
{
	if (e->op == CONST || e->op == VAR || e->w > 64) return e;
	auto ic = canonOf.find(e->id);
	if (ic != canonOf.end()) return ic->second;
	if (canonDepth > 400) return e;
	++canonDepth;
	E r = e;
	canonOf[e->id] = e;	// breaks recursion
	const Fn *f = getFn(e);
	if (f) {
		size_t N = (size_t)1 << f->at.size();
		if (N == 1) r = mkC(e->w, f->get(0));
		else {
			bool linop = e->op == XOR || (e->op == EXTRACT && e->k[0]->op == VAR) || e->op == CONCAT;
			// affine?
			u64 c0 = f->get(0); std::vector<u64> d(f->at.size());
			for (size_t j = 0; j < d.size(); ++j) d[j] = f->get((size_t)1 << j) ^ c0;
			bool aff = true;
			std::vector<u64> pred(N); pred[0] = c0;
			for (size_t x = 1; x < N && aff; ++x) { pred[x] = pred[x & (x - 1)] ^ d[__builtin_ctzll(x)]; aff = pred[x] == f->get(x); }
			if (aff) {
				bool mixed = false;	// an XOR with operands that are not atoms
				if (e->op == XOR && e->w == 1) for (u32 i = 0; i < e->n; ++i) { const Fn *g = getFn(e->k[i]); if (g && g->at.size() > 1) mixed = true; }
				if (!linop || (e->op == XOR && e->w > 1) || mixed) {
					std::vector<E> bits;
					for (int b = e->w - 1; b >= 0; --b) {
						Form s; u64 sc = (c0 >> b) & 1;
						for (size_t j = 0; j < d.size(); ++j) if ((d[j] >> b) & 1) { sc ^= invOf(f->at[j]); s = symdiff(s, formOf(f->at[j])); }
						bits.push_back(s.empty() ? mkC(1, sc) : s.size() == 1 && !sc ? s[0] : mkv(XOR, 1, s, sc));
					}
					r = mkConcatV(bits);
					++g_tt_rewrites;
				}
			} else {
				u64 h = mix(e->w, f->sz);
				for (E a : f->at) h = mix(h, a->id);
				for (size_t i = 0; i < f->d.size(); i += 8) { u64 x = 0; memcpy(&x, f->d.data() + i, std::min<size_t>(8, f->d.size() - i)); h = mix(h, x); }
				auto &bucket = fnIndex[h];
				bool hit = false;
				for (auto &p : bucket) if (p.second->w == e->w && p.first->at == f->at && p.first->sz == f->sz && p.first->d == f->d) { r = p.second; hit = true; ++g_tt_rewrites; break; }
				if (!hit) bucket.push_back({(Fn*)f, e});
			}
		}
	}
	--canonDepth;
	canonOf[e->id] = r;
	return r;
}

// ---------------------------------------------------------------- constructors
E mkC(unsigned w, u64 v)
{
	if (w > 64) {
		std::vector<E> k; unsigned top = w % 64;
		if (top) k.push_back(mkC(top, 0));
		for (unsigned i = w / 64; i-- > 0;) k.push_back(mkC(64, i ? 0 : v));
		return mkConcatV(k);
	}
	static E cache[65][260];
	v &= msk(w);
	if (v < 260) { E &r = cache[w][v]; if (!r) r = intern(CONST, w, nullptr, 0, v, nullptr); return r; }
	return intern(CONST, w, nullptr, 0, v, nullptr);
}
E mkVar(unsigned w, const std::string &name, u32 seq, bool undef)
{
	assert(w <= 64);
	g_vars.push_back({name, w, seq, undef});
	return intern(VAR, w, nullptr, 0, g_vars.size() - 1, nullptr);
}
static E chunk(E a, unsigned i, unsigned w) { return mkExtract(a, std::min(w, i + 64) - 1, i); }
static E wide2(E a, E b, E (*f)(E, E))
{
	std::vector<E> k;
	for (unsigned i = (a->w - 1) / 64 * 64 + 64; i > 0; i -= 64) k.push_back(f(chunk(a, i - 64, a->w), chunk(b, i - 64, a->w)));
	return mkConcatV(k);
}
// map over the constant leaves of an ITE tree
static E mapLeaves(E t, const std::function<E(E)> &f, std::unordered_map<E, E> &memo)
{
	if (t->isC()) return f(t);
	auto it = memo.find(t); if (it != memo.end()) return it->second;
	E r = mkIte(t->k[0], mapLeaves(t->k[1], f, memo), mapLeaves(t->k[2], f, memo));
	return memo[t] = r;
}
static E mapLeaves(E t, const std::function<E(E)> &f) { std::unordered_map<E, E> memo; return mapLeaves(t, f, memo); }
static bool tree(E a) { return a->op == ITE && a->leafy; }
#define LIFT2(F) \
	if (tree(a) && b->isC()) return mapLeaves(a, [&](E x) { return F(x, b); }); \
	if (tree(b) && a->isC()) return mapLeaves(b, [&](E x) { return F(a, x); }); \
	if (tree(a) && tree(b) && (unsigned)a->leafy * b->leafy <= LEAFLIM) return mapLeaves(a, [&](E x) { return mapLeaves(b, [&](E y) { return F(x, y); }); });

// linear sums
struct Lin { std::vector<std::pair<E, u64>> t; u64 c = 0; };
static void linAdd(std::vector<std::pair<E, u64>> &t, u64 &c, E e, u64 q, unsigned w)
{
	if (!q) return;
	if (e->isC()) { c += q * e->c; return; }
	if (e->op == ADD) { c += q * e->c; for (u32 i = 0; i < e->n; ++i) t.push_back({e->k[i], q * e->co[i]}); return; }
	if (e->op == XOR && e->c == msk(w) && e->n == 1) { c -= q; linAdd(t, c, e->k[0], 0 - q, w); return; }
	if (e->op == CONCAT && e->k[0]->isC() && e->k[0]->c) {	// constant high part
		unsigned hw = e->k[0]->w; c += q * (e->k[0]->c << (w - hw)); std::vector<E> kk(e->k, e->k + e->n); kk[0] = mkC(hw, 0);
		linAdd(t, c, mkConcatV(kk), q, w); return;
	}
	if (e->op == CONCAT && e->k[e->n - 1]->isC() && e->k[e->n - 1]->c == 0) {
		// x << k, as concat(extract(x, w-1-k, 0), 0) or concat(0, y, 0)
		E z = e->k[e->n - 1]; unsigned k = z->w;
		if (e->n == 2 && e->k[0]->op == EXTRACT && e->k[0]->c == 0 && e->k[0]->k[0]->w == w) { linAdd(t, c, e->k[0]->k[0], q << k, w); return; }
		std::vector<E> kk; kk.push_back(mkC(k, 0));
		for (u32 i = 0; i + 1 < e->n; ++i) kk.push_back(e->k[i]);
		E y = mkConcatV(kk);
		if (y->op != CONCAT || !(y->k[y->n - 1]->isC() && y->k[y->n - 1]->c == 0)) {
			t.push_back({y, q << k}); return;
		}
	}
	t.push_back({e, q});
}
static E linMake(std::vector<std::pair<E, u64>> &t, u64 c, unsigned w)
{
	u64 M = msk(w);
	std::sort(t.begin(), t.end(), [](const std::pair<E, u64> &a, const std::pair<E, u64> &b) { return a.first->id < b.first->id; });
	std::vector<E> k; std::vector<u64> co;
	for (size_t i = 0; i < t.size();) {
		u64 q = 0; size_t j = i;
		while (j < t.size() && t[j].first == t[i].first) q += t[j++].second;
		q &= M; if (q) { k.push_back(t[i].first); co.push_back(q); }
		i = j;
	}
	// a multiple of 2^z does not depend on the z highest bits: extend narrow sums and signs to the full width
	bool again = false;
	for (size_t i = 0; i < k.size(); ++i) {
		E e = k[i]; if (e->op != CONCAT || e->n != 2 || !e->k[0]->isC() || e->k[0]->c || (int)e->k[0]->w > __builtin_ctzll(co[i])) continue;
		E y = e->k[1]; if (y->op != SEXT && y->op != ADD && !(y->op == EXTRACT && y->c == 0 && y->k[0]->w == w)) continue;
		if (!again) { t.clear(); for (size_t j = 0; j < i; ++j) t.push_back({k[j], co[j]}); again = true; }
		if (y->op == SEXT) linAdd(t, c, mkSext(y->k[0], w), co[i], w);
		else if (y->op == ADD) { c += co[i] * y->c; for (u32 j = 0; j < y->n; ++j) linAdd(t, c, y->k[j]->op == SEXT ? mkSext(y->k[j]->k[0], w) : mkZext(y->k[j], w), co[i] * y->co[j], w); }
		else linAdd(t, c, y->k[0], co[i], w);
		for (size_t j = i + 1; j < k.size(); ++j) t.push_back({k[j], co[j]});
		break;
	}
	if (again) return linMake(t, c, w);
	c &= M;
	if (k.empty()) return mkC(w, c);
	if (k.size() == 1 && co[0] == 1 && c == 0) return k[0];
	if (k.size() == 1 && co[0] == M && c == M) return mkNot(k[0]);
	if (k.size() == 1 && c == 0 && (co[0] & (co[0] - 1)) == 0) {	// power of two: a shift
		unsigned s = __builtin_ctzll(co[0]);
		return mkConcat(mkExtract(k[0], w - 1 - s, 0), mkC(s, 0));
	}
	return mkv(ADD, w, k, c, co.data());
}
E mkAdd(E a, E b)
{
	unsigned w = a->w; assert(b->w == w && w <= 64);
	if (w == 1) return mkXor(a, b);
	if (a->isC() && b->isC()) return mkC(w, a->c + b->c);
	if (a->isC() && a->c == 0) return b;
	if (b->isC() && b->c == 0) return a;
	LIFT2(mkAdd)
	std::vector<std::pair<E, u64>> t; u64 c = 0;
	linAdd(t, c, a, 1, w); linAdd(t, c, b, 1, w);
	return linMake(t, c, w);
}
E mkSub(E a, E b)
{
	unsigned w = a->w; assert(b->w == w && w <= 64);
	if (w == 1) return mkXor(a, b);
	if (a == b) return mkC(w, 0);
	if (a->isC() && b->isC()) return mkC(w, a->c - b->c);
	if (b->isC() && b->c == 0) return a;
	LIFT2(mkSub)
	std::vector<std::pair<E, u64>> t; u64 c = 0;
	linAdd(t, c, a, 1, w); linAdd(t, c, b, ~(u64)0, w);
	return linMake(t, c, w);
}
E mkNeg(E a) { return mkSub(mkC(a->w, 0), a); }
E mkMul(E a, E b)
{
	unsigned w = a->w; assert(b->w == w && w <= 64);
	if (w == 1) return mkAnd(a, b);
	if (b->isC()) std::swap(a, b);
	if (a->isC()) {
		if (b->isC()) return mkC(w, a->c * b->c);
		if (a->c == 0) return a;
		if (a->c == 1) return b;
		LIFT2(mkMul)
		std::vector<std::pair<E, u64>> t; u64 c = 0;
		linAdd(t, c, b, a->c, w);
		return linMake(t, c, w);
	}
	LIFT2(mkMul)
	if (tree(a) && a->leafy <= 4) return mapLeaves(a, [&](E x) { return mkMul(x, b); });
	if (tree(b) && b->leafy <= 4) return mapLeaves(b, [&](E x) { return mkMul(x, a); });
	// one of few values times a wide number
	for (int t = 0; t < 2; ++t, std::swap(a, b)) if (a->smax - a->smin >= 0 && a->smax - a->smin <= 3 && w >= 32 && (b->smax > (i64)1 << 24 || b->smin < -((i64)1 << 24))) {
		E r = mkMul(mkC(w, (u64)a->smin & msk(w)), b);
		for (i64 v = a->smin + 1; v <= a->smax; ++v) r = mkIte(mkEq(a, mkC(w, (u64)v & msk(w))), mkMul(mkC(w, (u64)v & msk(w)), b), r);
		return r;
	}
	if (a->id > b->id) std::swap(a, b);
	// +-1 factors: (2*zext(bit)-1) and friends
	return mk(MUL, w, {a, b});
}
E mkUDiv(E a, E b)
{
	unsigned w = a->w;
	if (a->isC() && b->isC() && b->c) return mkC(w, a->c / b->c);
	if (b->isC() && b->c == 1) return a;
	LIFT2(mkUDiv)
	if (b->isC() && b->c && (b->c & (b->c - 1)) == 0) return mkLShr(a, mkC(w, __builtin_ctzll(b->c)));
	if (b->umin > a->umax) return mkC(w, 0);
	return mk(UDIV, w, {a, b});
}
E mkURem(E a, E b)
{
	unsigned w = a->w;
	if (a->isC() && b->isC() && b->c) return mkC(w, a->c % b->c);
	LIFT2(mkURem)
	if (b->umin > a->umax) return a;
	if (b->isC() && b->c && (b->c & (b->c - 1)) == 0) return mkAnd(a, mkC(w, b->c - 1));
	return mk(UREM, w, {a, b});
}
E mkSDiv(E a, E b)
{
	unsigned w = a->w;
	if (a->isC() && b->isC() && b->c) { i64 x = sx(a->c, w), y = sx(b->c, w); return mkC(w, y == -1 ? 0 - (u64)x : (u64)(x / y)); }
	if (b->isC() && b->c == 1) return a;
	LIFT2(mkSDiv)
	if (a->smin >= 0 && b->smin >= 0) return mkUDiv(a, b);
	return mk(SDIV, w, {a, b});
}
E mkSRem(E a, E b)
{
	unsigned w = a->w;
	if (a->isC() && b->isC() && b->c) { i64 x = sx(a->c, w), y = sx(b->c, w); return mkC(w, y == -1 ? 0 : (u64)(x % y)); }
	LIFT2(mkSRem)
	if (a->smin >= 0 && b->smin >= 0) return mkURem(a, b);
	return mk(SREM, w, {a, b});
}
E mkNot(E a) { return a->w > 64 ? wide2(a, a, [](E x, E) { return mkNot(x); }) : mkXor(a, mkC(a->w, msk(a->w))); }

// split a binary bitwise operation at the piece boundaries of a CONCAT operand
static E splitConcat(E a, E b, E (*f)(E, E))
{
	E c = a->op == CONCAT ? a : b, o = c == a ? b : a;
	std::vector<E> k; unsigned pos = c->w;
	for (u32 i = 0; i < c->n; ++i) {
		unsigned pw = c->k[i]->w; pos -= pw;
		k.push_back(f(c->k[i], mkExtract(o, pos + pw - 1, pos)));
	}
	return mkConcatV(k);
}
static E maskSplit(E x, u64 m, unsigned w, bool isOr)
{
	// AND with constant mask m (isOr: OR), split into runs
	std::vector<E> k; int i = w - 1;
	while (i >= 0) {
		int j = i; bool bit = (m >> i) & 1;
		while (j > 0 && (((m >> (j - 1)) & 1) == bit)) --j;
		if (isOr ? bit : !bit) k.push_back(mkC(i - j + 1, isOr ? msk(i - j + 1) : 0)); else k.push_back(mkExtract(x, i, j));
		i = j - 1;
	}
	return mkConcatV(k);
}
static bool isNotOf(E a, E b)	// a == ~b
{
	if (a->w != b->w || a->w > 64) return false;
	u64 M = msk(a->w);
	if (a->op == XOR && a->c == M && a->n == 1 && a->k[0] == b) return true;
	if (b->op == XOR && b->c == M && b->n == 1 && b->k[0] == a) return true;
	if (a->op == XOR && b->op == XOR && (a->c ^ b->c) == M && a->n == b->n && !memcmp(a->k, b->k, a->n * sizeof(E))) return true;
	return false;
}
E mkAnd(E a, E b)
{
	unsigned w = a->w; assert(b->w == w);
	if (a == b) return a;
	if (w > 64) return wide2(a, b, mkAnd);
	if (b->isC()) std::swap(a, b);
	u64 M = msk(w);
	if (a->isC()) {
		if (b->isC()) return mkC(w, a->c & b->c);
		if (a->c == 0) return a;
		if (a->c == M) return b;
		if (((a->c + 1) & a->c) == 0 && b->umax <= a->c) return b;
		LIFT2(mkAnd)
		return maskSplit(b, a->c, w, false);
	}
	if (isNotOf(a, b)) return mkC(w, 0);
	if (w > 1) {
		if (a->op == SEXT && a->k[0]->w == 1) return mkIte(a->k[0], b, mkC(w, 0));
		if (b->op == SEXT && b->k[0]->w == 1) return mkIte(b->k[0], a, mkC(w, 0));
		if (a->op == XOR && a->c == M && a->n == 1 && a->k[0]->op == SEXT && a->k[0]->k[0]->w == 1) return mkIte(a->k[0]->k[0], mkC(w, 0), b);
		if (b->op == XOR && b->c == M && b->n == 1 && b->k[0]->op == SEXT && b->k[0]->k[0]->w == 1) return mkIte(b->k[0]->k[0], mkC(w, 0), a);
		if (a->op == CONCAT || b->op == CONCAT) return splitConcat(a, b, mkAnd);
		if (tree(a) && a->leafy == 2 && a->k[1]->isC() && a->k[2]->isC()) return mkIte(a->k[0], mkAnd(a->k[1], b), mkAnd(a->k[2], b));
		if (tree(b) && b->leafy == 2 && b->k[1]->isC() && b->k[2]->isC()) return mkIte(b->k[0], mkAnd(b->k[1], a), mkAnd(b->k[2], a));
	} else {
		// absorption with shallow structure
		if (a->op == AND && (a->k[0] == b || a->k[1] == b)) return a;
		if (b->op == AND && (b->k[0] == a || b->k[1] == a)) return b;
		if (a->op == AND && (isNotOf(a->k[0], b) || isNotOf(a->k[1], b))) return mkC(1, 0);
		if (b->op == AND && (isNotOf(b->k[0], a) || isNotOf(b->k[1], a))) return mkC(1, 0);
	}
	if (a->id > b->id) std::swap(a, b);
	return mk(AND, w, {a, b});
}
E mkOr(E a, E b)
{
	unsigned w = a->w; assert(b->w == w);
	if (a == b) return a;
	if (w > 64) return wide2(a, b, mkOr);
	if (w == 1) return mkNot(mkAnd(mkNot(a), mkNot(b)));
	if (b->isC()) std::swap(a, b);
	u64 M = msk(w);
	if (a->isC()) {
		if (b->isC()) return mkC(w, a->c | b->c);
		if (a->c == 0) return b;
		if (a->c == M) return a;
		LIFT2(mkOr)
		return maskSplit(b, a->c, w, true);
	}
	if (isNotOf(a, b)) return mkC(w, M);
	if (a->op == SEXT && a->k[0]->w == 1) return mkIte(a->k[0], mkC(w, M), b);
	if (b->op == SEXT && b->k[0]->w == 1) return mkIte(b->k[0], mkC(w, M), a);
	// ite(c,x,0) | ite(c,0,y), ite(c,x,0)|ite(!c,y,0)
	if (a->op == ITE && b->op == ITE) {
		if (a->k[0] == b->k[0]) return mkIte(a->k[0], mkOr(a->k[1], b->k[1]), mkOr(a->k[2], b->k[2]));
		if (isNotOf(a->k[0], b->k[0])) return mkIte(a->k[0], mkOr(a->k[1], b->k[2]), mkOr(a->k[2], b->k[1]));
	}
	if (a->op == CONCAT || b->op == CONCAT) return splitConcat(a, b, mkOr);
	if (a->id > b->id) std::swap(a, b);
	return mk(OR, w, {a, b});
}
E mkXor(E a, E b)
{
	unsigned w = a->w; assert(b->w == w);
	if (w > 64) return wide2(a, b, mkXor);
	if (a == b) return mkC(w, 0);
	if (a->isC() && b->isC()) return mkC(w, a->c ^ b->c);
	if (a->isC() && a->c == 0) return b;
	if (b->isC() && b->c == 0) return a;
	LIFT2(mkXor)
	if (w > 1) {
		u64 M = msk(w);
		bool ac = a->isC(), bc = b->isC();
		if (ac || bc) {
			E c = ac ? a : b, o = ac ? b : a;
			if (o->op == CONCAT) return splitConcat(o, c, mkXor);
			if (o->op == SEXT && c->c == M) return mkSext(mkNot(o->k[0]), w);
			if (o->op == ITE && c->c == M && (o->k[1]->isC() || o->k[2]->isC())) return mkIte(o->k[0], mkXor(o->k[1], c), mkXor(o->k[2], c));
			if (c->c == M && o->op == ADD) return mkSub(c, o);	// ~x = -1 - x
		} else {
			if (a->op == CONCAT || b->op == CONCAT) return splitConcat(a, b, mkXor);
			if (!g_ttbits && a->op == SEXT && a->k[0]->w == 1) return mkIte(a->k[0], mkXor(b, mkC(w, M)), b);
			if (!g_ttbits && b->op == SEXT && b->k[0]->w == 1) return mkIte(b->k[0], mkXor(a, mkC(w, M)), a);
		}
	}
	// n-ary merge
	u64 c = 0; std::vector<E> r; r.reserve(a->n + b->n + 2);
	auto put = [&](E x, const E *&p, u32 &n, E &own) { own = x; p = &own; n = 1; if (x->isC()) { c ^= x->c; n = 0; } else if (x->op == XOR) { c ^= x->c; p = x->k; n = x->n; } };
	const E *pa, *pb; u32 na, nb; E oa, ob; put(a, pa, na, oa); put(b, pb, nb, ob);
	{ u32 i = 0, j = 0; while (i < na && j < nb) { if (pa[i] == pb[j]) ++i, ++j; else if (pa[i]->id < pb[j]->id) r.push_back(pa[i++]); else r.push_back(pb[j++]); } r.insert(r.end(), pa + i, pa + na); r.insert(r.end(), pb + j, pb + nb); }
	if (r.empty()) return mkC(w, c);
	if (r.size() == 1 && !c) return r[0];
	return mkv(XOR, w, r, c);
}
static unsigned log2ceil(u64 v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n; }
// constant amounts of shifts wider than 64 bits are concatenations
static E wideAmount(E b)
{
	E lo = mkExtract(b, 63, 0);
	if (!lo->isC()) return b;
	for (unsigned i = 64; i < b->w; i += 64) { E c = mkExtract(b, std::min<unsigned>(i + 63, b->w - 1), i); if (!c->isC()) return b; if (c->c) return mkC(64, ~(u64)0); }
	return lo;
}
E mkShl(E a, E b)
{
	unsigned w = a->w;
	if (w > 64 && !b->isC()) b = wideAmount(b);
	if (b->isC()) {
		if (b->c >= w) return mkC(w, 0);
		if (b->c == 0) return a;
		if (w > 64) return mkConcat(mkExtract(a, w - 1 - b->c, 0), mkC(b->c, 0));
		if (a->isC()) return mkC(w, a->c << b->c);
		if (tree(a)) return mapLeaves(a, [&](E x) { return mkShl(x, b); });
		return mkConcat(mkExtract(a, w - 1 - b->c, 0), mkC(b->c, 0));
	}
	assert(w <= 64);
	LIFT2(mkShl)
	if (tree(b) && b->leafy <= 8) return mapLeaves(b, [&](E x) { return mkShl(a, x); });
	return mk(SHL, w, {a, b});
}
E mkLShr(E a, E b)
{
	unsigned w = a->w;
	if (w > 64 && !b->isC()) b = wideAmount(b);
	if (b->isC()) {
		if (b->c >= w) return mkC(w, 0);
		if (b->c == 0) return a;
		if (w <= 64) {
			if (a->isC()) return mkC(w, a->c >> b->c);
			if (tree(a)) return mapLeaves(a, [&](E x) { return mkLShr(x, b); });
		}
		return mkConcat(mkC(b->c, 0), mkExtract(a, w - 1, b->c));
	}
	assert(w <= 64);
	LIFT2(mkLShr)
	if (tree(b) && b->leafy <= 8) return mapLeaves(b, [&](E x) { return mkLShr(a, x); });
	return mk(LSHR, w, {a, b});
}
E mkAShr(E a, E b)
{
	unsigned w = a->w; assert(w <= 64);
	if (b->isC()) {
		u64 s = b->c >= w ? w - 1 : b->c;
		if (s == 0) return a;
		if (a->isC()) return mkC(w, (u64)(sx(a->c, w) >> s));
		if (tree(a)) return mapLeaves(a, [&](E x) { return mkAShr(x, b); });
		return mkSext(mkExtract(a, w - 1, s), w);
	}
	LIFT2(mkAShr)
	if (tree(b) && b->leafy <= 8) return mapLeaves(b, [&](E x) { return mkAShr(a, x); });
	if (a->smin >= 0) return mkLShr(a, b);
	return mk(ASHR, w, {a, b});
}
E mkIte(E c, E t, E e)
{
	assert(c->w == 1 && t->w == e->w);
	if (c->isC()) return c->c ? t : e;
	if (t == e) return t;
	unsigned w = t->w;
	if (w > 64) {
		std::vector<E> k;
		for (unsigned i = (w - 1) / 64 * 64 + 64; i > 0; i -= 64) k.push_back(mkIte(c, chunk(t, i - 64, w), chunk(e, i - 64, w)));
		return mkConcatV(k);
	}
	// negated condition
	if (c->op == XOR && c->c == 1) { std::swap(t, e); c = mkNot(c); }
	if (t->op == ITE && t->k[0] == c) t = t->k[1];
	if (e->op == ITE && e->k[0] == c) e = e->k[2];
	if (t == e) return t;
	if (w == 1) {
		if (t == c) t = mkC(1, 1);
		if (e == c) e = mkC(1, 0);
		if (t == e) return t;
		if (t->isC() && e->isC()) return t->c ? c : mkNot(c);
		if (t->isC()) return t->c ? mkOr(c, e) : mkAnd(mkNot(c), e);
		if (e->isC()) return e->c ? mkOr(mkNot(c), t) : mkAnd(c, t);
		if (isNotOf(t, e)) return mkXor(c, e);
		if (isNotOf(t, c)) return mkAnd(mkNot(c), e);	// t false when c
		if (isNotOf(e, c)) return mkOr(mkNot(c), t);
	}
	if (w > 1) {
		if (t->isC() && e->isC() && t->c == msk(w) && e->c == 0) return mkSext(c, w);
		if (t->isC() && e->isC() && t->c == 0 && e->c == msk(w)) return mkSext(mkNot(c), w);
		// ite(c1, ite(c2,a,b), b) -> ite(c1&c2, a, b)
		if (t->op == ITE && t->k[2] == e) return mkIte(mkAnd(c, t->k[0]), t->k[1], e);
		if (t->op == ITE && t->k[1] == e) return mkIte(mkAnd(c, mkNot(t->k[0])), t->k[2], e);
		if (e->op == ITE && e->k[1] == t) return mkIte(mkOr(c, e->k[0]), t, e->k[2]);
		if (e->op == ITE && e->k[2] == t) return mkIte(mkOr(c, mkNot(e->k[0])), t, e->k[1]);
		// common zero extension
		if (t->op == CONCAT || e->op == CONCAT) {
			E h = t->op == CONCAT ? t : e, o = h == t ? e : t;
			unsigned hw = h->k[0]->w;
			bool split = false;
			if (h->k[0]->isC()) {
				E oh = mkExtract(o, w - 1, w - hw);
				split = oh == h->k[0];
			}
			if (split || (t->op == CONCAT && e->op == CONCAT) || (g_ttbits && o->isC())) {
				E cc = h; std::vector<E> k; unsigned pos = w;
				for (u32 i = 0; i < cc->n; ++i) {
					unsigned pw = cc->k[i]->w; pos -= pw;
					k.push_back(mkIte(c, mkExtract(t, pos + pw - 1, pos), mkExtract(e, pos + pw - 1, pos)));
				}
				return mkConcatV(k);
			}
		}
		if (t->op == SEXT && e->op == SEXT && t->k[0]->w == e->k[0]->w) return mkSext(mkIte(c, t->k[0], e->k[0]), w);
	}
	static int factorDepth = 0;
	if (g_ttbits && w <= 64 && !e->isC() && !(t->isC() && t->c == 0) && !(t->leafy && e->leafy) && factorDepth < 40) {
		struct D { D() { ++factorDepth; } ~D() { --factorDepth; } } depthGuard;
		// factor the common XOR part: e ^ ite(c, t^e, 0)
		E d = mkXor(t, e);
		auto bits = [](E x) { return x->op == XOR ? x->n : x->op == CONCAT ? [&] { u32 s = 0; for (u32 i = 0; i < x->n; ++i) s += x->k[i]->isC() ? 0 : x->k[i]->op == XOR ? x->k[i]->n : 1; return s; }() : 1u; };
		if (bits(d) <= std::max(bits(t), bits(e)) && (t->op == XOR || e->op == XOR || t->op == CONCAT || e->op == CONCAT))
			return mkXor(e, mkIte(c, d, mkC(w, 0)));
	}
	return mk(ITE, w, {c, t, e});
}
static bool spansConst(E a) { return a->op == CONCAT; }
E mkEq(E a, E b)
{
	assert(a->w == b->w);
	unsigned w = a->w;
	if (a == b) return mkC(1, 1);
	if (w > 64) {
		E r = mkC(1, 1);
		for (unsigned i = 0; i < w; i += 64) r = mkAnd(r, mkEq(chunk(a, i, w), chunk(b, i, w)));
		return r;
	}
	if (a->isC() && b->isC()) return mkC(1, a->c == b->c);
	if (w == 1) return mkNot(mkXor(a, b));
	if (a->umax < b->umin || b->umax < a->umin || a->smax < b->smin || b->smax < a->smin) return mkC(1, 0);
	if (isNotOf(a, b)) return mkC(1, 0);
	if (b->isC()) std::swap(a, b);
	LIFT2(mkEq)
	if (a->isC()) {
		if (b->op == SEXT) {
			E x = b->k[0]; u64 v = a->c & msk(x->w);
			if (((u64)sx(v, x->w) & msk(w)) != a->c) return mkC(1, 0);
			return mkEq(x, mkC(x->w, v));
		}
		if (b->op == XOR) {
			if (b->c) { u64 v = a->c ^ b->c; std::vector<E> k(b->k, b->k + b->n); E x = k.size() == 1 ? k[0] : mkv(XOR, w, k, 0); if (!(x->op == XOR && x->c)) return mkEq(x, mkC(w, v)); }
		}
		if (b->op == ADD) {
			if (b->c) { u64 v = (a->c - b->c) & msk(w); std::vector<std::pair<E, u64>> t; for (u32 i = 0; i < b->n; ++i) t.push_back({b->k[i], b->co[i]}); E x = linMake(t, 0, w); if (!(x->op == ADD && x->c)) return mkEq(x, mkC(w, v)); }
			if (b->n == 1 && (b->co[0] & 1) && b->co[0] != 1) {	// odd coefficient: invert
				u64 q = b->co[0], inv = q; for (int i = 0; i < 6; ++i) inv *= 2 - q * inv;
				return mkEq(b->k[0], mkC(w, (a->c - b->c) * inv));
			}
			if (sx(b->co[0], w) < 0 && b->co[0] != (u64)1 << (w - 1)) { E nb = mkNeg(b); if (nb->op != ADD || sx(nb->co[0], w) > 0) return mkEq(nb, mkC(w, 0 - a->c)); }
		}
		if (b->op == ITE) {
			// ite(c, k, y) == k'
			if (b->k[1]->isC()) return b->k[1]->c == a->c ? mkOr(b->k[0], mkEq(b->k[2], a)) : mkAnd(mkNot(b->k[0]), mkEq(b->k[2], a));
			if (b->k[2]->isC()) return b->k[2]->c == a->c ? mkOr(mkNot(b->k[0]), mkEq(b->k[1], a)) : mkAnd(b->k[0], mkEq(b->k[1], a));
		}
	}
	if (spansConst(a) || spansConst(b)) {
		E c = a->op == CONCAT ? a : b, o = c == a ? b : a;
		E r = mkC(1, 1); unsigned pos = w;
		for (u32 i = 0; i < c->n; ++i) {
			unsigned pw = c->k[i]->w; pos -= pw;
			r = mkAnd(r, mkEq(c->k[i], mkExtract(o, pos + pw - 1, pos)));
			if (r->isC() && !r->c) return r;
		}
		return r;
	}
	if (a->op == SEXT && b->op == SEXT && a->k[0]->w == b->k[0]->w) return mkEq(a->k[0], b->k[0]);
	if (!a->isC() && (a->op == XOR || b->op == XOR)) {
		E d = mkXor(a, b);
		E ref = d->op == XOR && d->c ? nullptr : d;
		if (ref) return mkEq(d, mkC(w, 0));
		return mkEq(d, mkC(w, 0));
	}
	if (!a->isC() && (a->op == ADD || b->op == ADD) && !(g_absAdd && !b->isC())) {
		E d = mkSub(a, b);
		if (d->isC()) return mkC(1, d->c == 0);
		return mkEq(d, mkC(w, 0));
	}
	if (a->op == ITE && b->op == ITE && a->k[0] == b->k[0]) return mkIte(a->k[0], mkEq(a->k[1], b->k[1]), mkEq(a->k[2], b->k[2]));
	if (a->op == ITE && (a->k[1] == b || a->k[2] == b)) return a->k[1] == b ? mkOr(a->k[0], mkEq(a->k[2], b)) : mkOr(mkNot(a->k[0]), mkEq(a->k[1], b));
	if (b->op == ITE && (b->k[1] == a || b->k[2] == a)) return b->k[1] == a ? mkOr(b->k[0], mkEq(b->k[2], a)) : mkOr(mkNot(b->k[0]), mkEq(b->k[1], a));
	if (a->id > b->id) std::swap(a, b);
	return mk(EQ, 1, {a, b});
}
E mkUlt(E a, E b)
{
	unsigned w = a->w; assert(w == b->w && w <= 64);
	if (a == b) return mkC(1, 0);
	if (a->isC() && b->isC()) return mkC(1, a->c < b->c);
	if (a->umax < b->umin) return mkC(1, 1);
	if (a->umin >= b->umax) return mkC(1, 0);
	if (b->isC() && b->c == 1) return mkEq(a, mkC(w, 0));
	if (a->isC() && a->c == 0) return mkNe(b, a);
	if (w == 1) return mkAnd(mkNot(a), b);
	LIFT2(mkUlt)
	// strip common constant high part
	if (a->smin >= 0 && b->smin >= 0 && (a->op == ADD || b->op == ADD || a->op == SEXT || b->op == SEXT)) return mkSlt(a, b);
	if (a->op == CONCAT || b->op == CONCAT) {
		unsigned na = log2ceil(a->umax), nb = log2ceil(b->umax), n = std::max(na, nb);
		if (n < w && n > 0) return mkUlt(mkExtract(a, n - 1, 0), mkExtract(b, n - 1, 0));
	}
	return mk(ULT, 1, {a, b});
}
E mkSlt(E a, E b)
{
	unsigned w = a->w; assert(w == b->w && w <= 64);
	if (a == b) return mkC(1, 0);
	if (a->isC() && b->isC()) return mkC(1, sx(a->c, w) < sx(b->c, w));
	if (a->smax < b->smin) return mkC(1, 1);
	if (a->smin >= b->smax) return mkC(1, 0);
	if (w == 1) return mkAnd(a, mkNot(b));
	LIFT2(mkSlt)
	if (b->isC() && b->c == 0) {
		if (a->op == SEXT) return mkSlt(a->k[0], mkC(a->k[0]->w, 0));
		if (a->op != ADD) return mkExtract(a, w - 1, w - 1);
	}
	if (a->op == SEXT && b->op == SEXT) {
		unsigned n = std::max(a->k[0]->w, b->k[0]->w);
		if (n < w) return mkSlt(mkSext(a->k[0], n), mkSext(b->k[0], n));
	}
	if ((a->op == SEXT && b->isC()) || (b->op == SEXT && a->isC())) {
		unsigned n = a->op == SEXT ? a->k[0]->w : b->k[0]->w;	// constant within range, else folded above
		return mkSlt(mkExtract(a, n - 1, 0), mkExtract(b, n - 1, 0));
	}
	if ((a->op == ADD || b->op == ADD) && !(g_absAdd && !a->isC() && !b->isC())) {	// (the abstraction wants the forms compared, not their difference)
		E d = mkSub(a, b);
		i128 lo = (i128)a->smin - b->smax, hi = (i128)a->smax - b->smin;
		i128 smn = w == 64 ? (i128)INT64_MIN : -((i128)1 << (w - 1)), smx = -smn - 1;
		if (lo >= smn && hi <= smx && !(b->isC() && b->c == 0 && d == a)) {
			if (d->isC()) return mkC(1, sx(d->c, w) < 0);
			// keep "0 < x" as a form of its own: slt(0, x) with the first coefficient positive
			return mkSlt(d, mkC(w, 0));
		}
		if (b->isC() && b->c == 0 && a->op == ADD) {
			// canonical sign: first coefficient positive
			if (sx(a->co[0], w) < 0 && a->smin > (w == 64 ? INT64_MIN : -(i64)((u64)1 << (w - 1)))) {
				E na = mkNeg(a);
				return mk(SLT, 1, {mkC(w, 0), na});
			}
			if (a->smax <= 0 && a->c == 0) {}
		}
	}
	if (a->smin >= 0 && b->smin >= 0 && a->op != ADD && b->op != ADD) return mkUlt(a, b);
	return mk(SLT, 1, {a, b});
}
E mkConcatV(const std::vector<E> &in)
{
	std::vector<E> k; unsigned w = 0;
	for (E x : in) w += x->w;
	auto push = [&](auto &&self, E x) -> void {
		if (x->w == 0) return;
		if (x->op == CONCAT) { for (u32 i = 0; i < x->n; ++i) self(self, x->k[i]); return; }
		while (!k.empty()) {
			E p = k.back();
			if (p->isC() && x->isC() && p->w + x->w <= 64) { x = mkC(p->w + x->w, (p->c << x->w) | x->c); k.pop_back(); continue; }
			if (p->op == EXTRACT && x->op == EXTRACT && p->k[0] == x->k[0] && p->c == x->c + x->w) { x = mkExtract(p->k[0], p->c + p->w - 1, x->c); k.pop_back(); if (x->op == CONCAT) { self(self, x); return; } continue; }
			if (p->op == ITE && x->op == ITE && p->k[0] == x->k[0] && p->w + x->w <= 64 && p->leafy && x->leafy && p->k[1]->isC() && p->k[2]->isC() && x->k[1]->isC() && x->k[2]->isC()) {
				x = mkIte(p->k[0], mkConcat(p->k[1], x->k[1]), mkConcat(p->k[2], x->k[2])); k.pop_back(); if (x->op == CONCAT) { self(self, x); return; } continue; }
			break;
		}
		k.push_back(x);
	};
	for (E x : in) push(push, x);
	if (k.empty()) abort();
	if (k.size() == 1) return k[0];
	// zero-extended constant trees
	if (w <= 64 && k.size() == 2 && ((k[0]->isC() && tree(k[1])) || (k[1]->isC() && tree(k[0])))) {
		E c = k[0]->isC() ? k[0] : k[1], t = c == k[0] ? k[1] : k[0];
		bool hi = c == k[0];
		return mapLeaves(t, [&](E x) { return hi ? mkConcat(c, x) : mkConcat(x, c); });
	}
	return mkv(CONCAT, w, k);
}
E mkConcat(E hi, E lo) { if (hi->w == 0) return lo; if (lo->w == 0) return hi; return mkConcatV({hi, lo}); }
E mkExtract(E a, unsigned hi, unsigned lo)
{
	unsigned w = hi - lo + 1; assert(hi < a->w && hi >= lo);
	if (w == a->w) return a;
	switch (a->op) {
	case CONST: return mkC(w, a->c >> lo);
	case EXTRACT: return mkExtract(a->k[0], a->c + hi, a->c + lo);
	case CONCAT: {
		std::vector<E> k; unsigned pos = a->w;
		for (u32 i = 0; i < a->n; ++i) {
			unsigned pw = a->k[i]->w; pos -= pw;
			if (pos > hi || pos + pw <= lo) continue;
			unsigned h = std::min(hi, pos + pw - 1), l = std::max(lo, pos);
			k.push_back(mkExtract(a->k[i], h - pos, l - pos));
		}
		return mkConcatV(k); }
	case SEXT: {
		unsigned n = a->k[0]->w;
		if (hi < n) return mkExtract(a->k[0], hi, lo);
		if (lo >= n - 1) return mkSext(mkExtract(a->k[0], n - 1, n - 1), w);
		return mkSext(mkExtract(a->k[0], n - 1, lo), w); }
	case XOR: {
		E r = mkC(w, a->c >> lo);
		if (a->n == 1) return mkXor(r, mkExtract(a->k[0], hi, lo));
		for (u32 i = 0; i < a->n; ++i) r = mkXor(r, mkExtract(a->k[i], hi, lo));
		return r; }
	case AND: return mkAnd(mkExtract(a->k[0], hi, lo), mkExtract(a->k[1], hi, lo));
	case OR: return mkOr(mkExtract(a->k[0], hi, lo), mkExtract(a->k[1], hi, lo));
	case ITE:
		if (a->leafy || a->k[1]->isC() || a->k[2]->isC() || w == 1) return mkIte(a->k[0], mkExtract(a->k[1], hi, lo), mkExtract(a->k[2], hi, lo));
		break;
	case ADD:
		if (lo == 0) {
			std::vector<std::pair<E, u64>> t; u64 c = a->c;
			for (u32 i = 0; i < a->n; ++i) linAdd(t, c, mkExtract(a->k[i], hi, 0), a->co[i], w);
			if (w == 1) { E r = mkC(1, c & 1); for (auto &p : t) if (p.second & 1) r = mkXor(r, p.first); return r; }
			return linMake(t, c, w);
		}
		break;
	case MUL: if (lo == 0) return mkMul(mkExtract(a->k[0], hi, 0), mkExtract(a->k[1], hi, 0)); break;
	case TABLE: {
		Table *t = g_tables[a->c];
		if (lo == 0 && t->hi <= msk(w)) { return mkTable(internTable(w, t->val), a->k[0]); }
		if (t->hi < ((u64)1 << lo)) return mkC(w, 0);
		break; }
	default: break;
	}
	if (a->w <= 64 && lo >= 1 && a->umax < ((u64)1 << lo)) return mkC(w, 0);
	assert(a->w <= 64);
	return mk(EXTRACT, w, {a}, lo);
}
static E spread(E a, unsigned w);
E mkZext(E a, unsigned w) { if (w == a->w) return a; if (g_absAdd && w <= 64 && a->op == ADD && a->smin >= 0) if (E r = spread(a, w)) return r; return mkConcat(mkC(w - a->w, 0), a); }
E mkTrunc(E a, unsigned w) { return w == a->w ? a : mkExtract(a, w - 1, 0); }
// wider version of a sum or shift that does not wrap, term by term
static E spread(E a, unsigned w)
{
	if (a->op == CONCAT && a->n == 2 && a->k[1]->isC() && !a->k[1]->c && (a->k[0]->op == EXTRACT ? a->k[0]->c == 0 : a->k[0]->op == SEXT || a->k[0]->op == ADD)) {	// a shift that does not wrap
		E x = a->k[0]->op == ADD ? a->k[0] : a->k[0]->k[0]; unsigned sh = a->k[1]->w; i128 lim = (i128)1 << (a->w - 1);
		if (a->k[0]->op == ADD || (((i128)x->smin << sh) >= -lim && ((i128)x->smax << sh) < lim && (a->k[0]->op == SEXT || x->w == a->w))) { std::vector<std::pair<E, u64>> t; u64 c = 0; linAdd(t, c, mkSext(x, w), (u64)1 << sh, w); return linMake(t, c, w); }
	}
	if (a->op == ADD) {	// sext of a sum that does not wrap distributes
		i128 lo = sx(a->c, a->w), hi = lo, lim = (i128)1 << (a->w - 1);
		for (u32 i = 0; i < a->n; ++i) { i128 q = sx(a->co[i], a->w), x = q * a->k[i]->smin, y = q * a->k[i]->smax; lo += std::min(x, y); hi += std::max(x, y); }
		if (lo >= -lim && hi < lim) { E r = mkC(w, (u64)sx(a->c, a->w)); std::vector<std::pair<E, u64>> t; u64 c = r->c; for (u32 i = 0; i < a->n; ++i) linAdd(t, c, mkSext(a->k[i], w), (u64)sx(a->co[i], a->w), w); return linMake(t, c, w); }
	}
	return nullptr;
}
E mkSext(E a, unsigned w)
{
	if (w == a->w) return a;
	if (w > 64) { E s = mkExtract(a, a->w - 1, a->w - 1); std::vector<E> k; unsigned need = w - a->w; while (need) { unsigned x = std::min(64u, need); k.push_back(mkSext(s, x)); need -= x; } k.push_back(a); return mkConcatV(k); }
	if (a->isC()) return mkC(w, (u64)sx(a->c, a->w));
	if (a->op == SEXT) return mkSext(a->k[0], w);
	if (g_absAdd && w <= 64) if (E r = spread(a, w)) return r;
	if (a->smin >= 0) return mkZext(a, w);
	if (tree(a)) return mapLeaves(a, [&](E x) { return mkSext(x, w); });
	if (a->op == ITE && (a->k[1]->isC() || a->k[2]->isC())) return mkIte(a->k[0], mkSext(a->k[1], w), mkSext(a->k[2], w));
	return mk(SEXT, w, {a});
}
static std::unordered_map<u64, std::vector<Table*>> tabIndex;
Table *internTable(unsigned ew, const std::vector<u64> &val)
{
	u64 h = ew; for (u64 v : val) h = mix(h, v);
	for (Table *t : tabIndex[h]) if (t->ew == ew && t->val == val) return t;
	Table *t = new Table; t->id = g_tables.size(); t->ew = ew; t->val = val;
	t->lo = ~(u64)0; t->hi = 0; for (u64 v : val) { t->lo = std::min(t->lo, v); t->hi = std::max(t->hi, v); }
	g_tables.push_back(t); tabIndex[h].push_back(t);
	return t;
}
E mkTable(Table *t, E idx)
{
	if (idx->isC()) return mkC(t->ew, idx->c < t->val.size() ? t->val[idx->c] : 0);
	if (t->lo == t->hi && idx->umax < t->val.size()) return mkC(t->ew, t->lo);
	if (tree(idx)) return mapLeaves(idx, [&](E x) { return mkTable(t, x); });
	// narrow the index
	unsigned n = std::max(1u, log2ceil(std::min<u64>(idx->umax, ~(u64)0)));
	if (n < idx->w) idx = mkExtract(idx, n - 1, 0);
	if (idx->isC()) return mkTable(t, idx);
	// identity table
	if (idx->umax < t->val.size() && idx->w <= 64) {
		bool id = true; for (u64 i = idx->umin; i <= idx->umax && id; ++i) id = t->val[i] == i;
		if (id) return idx->w <= t->ew ? mkZext(idx, t->ew) : mkExtract(idx, t->ew - 1, 0);
	}
	if (idx->op == ITE && (idx->k[1]->isC() || idx->k[2]->isC())) return mkIte(idx->k[0], mkTable(t, idx->k[1]), mkTable(t, idx->k[2]));
	return mk(TABLE, t->ew, {idx}, t->id);
}
E mkUF(const std::string &kind, unsigned w, const std::vector<E> &args)
{
	static std::unordered_map<std::string, u32> ids;
	auto it = ids.find(kind); if (it == ids.end()) { it = ids.emplace(kind, g_ufs.size()).first; g_ufs.push_back(kind); }
	return intern(UF, w, args.data(), args.size(), it->second, nullptr);
}
E rebuild(E e, const std::vector<E> &k)
{
	switch (e->op) {
	case CONST: case VAR: return e;
	case ADD: { E s = mkC(e->w, e->c); for (u32 i = 0; i < e->n; ++i) s = mkAdd(s, mkMul(mkC(e->w, e->co[i]), k[i])); return s; }
	case MUL: return mkMul(k[0], k[1]);
	case UDIV: return mkUDiv(k[0], k[1]);
	case UREM: return mkURem(k[0], k[1]);
	case SDIV: return mkSDiv(k[0], k[1]);
	case SREM: return mkSRem(k[0], k[1]);
	case AND: return mkAnd(k[0], k[1]);
	case OR: return mkOr(k[0], k[1]);
	case XOR: { E s = mkC(e->w, e->c); for (E x : k) s = mkXor(s, x); return s; }
	case SHL: return mkShl(k[0], k[1]);
	case LSHR: return mkLShr(k[0], k[1]);
	case ASHR: return mkAShr(k[0], k[1]);
	case ITE: return mkIte(k[0], k[1], k[2]);
	case EQ: return mkEq(k[0], k[1]);
	case ULT: return mkUlt(k[0], k[1]);
	case SLT: return mkSlt(k[0], k[1]);
	case CONCAT: return mkConcatV(k);
	case EXTRACT: return mkExtract(k[0], e->c + e->w - 1, e->c);
	case SEXT: return mkSext(k[0], e->w);
	case TABLE: return mkTable(g_tables[e->c], k[0]);
	case UF: return mkUF(g_ufs[e->c], e->w, k);
	}
	abort();
}
E substitute(E root, const std::unordered_map<E, E> &m, std::unordered_map<E, E> &memo)
{
	std::vector<E> st{root};
	while (!st.empty()) {
		E e = st.back();
		if (memo.count(e)) { st.pop_back(); continue; }
		auto it = m.find(e); if (it != m.end()) { memo[e] = it->second; st.pop_back(); continue; }
		if (!e->n) { memo[e] = e; st.pop_back(); continue; }
		bool ready = true, diff = false; std::vector<E> k(e->n);
		for (u32 i = 0; i < e->n; ++i) { auto j = memo.find(e->k[i]); if (j == memo.end()) { st.push_back(e->k[i]); ready = false; } else { k[i] = j->second; diff |= k[i] != e->k[i]; } }
		if (!ready) continue;
		memo[e] = diff ? rebuild(e, k) : e; st.pop_back();
	}
	return memo[root];
}
std::string show(E e, int d)
{
	static const char *nm[] = {"const","var","add","mul","udiv","urem","sdiv","srem","and","or","xor","shl","lshr","ashr","ite","eq","ult","slt","concat","extract","sext","table","uf"};
	if (e->isC()) { char b[40]; snprintf(b, 40, "%llu:%u", (unsigned long long)e->c, e->w); return b; }
	if (e->op == VAR) return g_vars[e->c].name + "#" + std::to_string(g_vars[e->c].seq) + ":" + std::to_string(e->w);
	if (d == 0) return "#" + std::to_string(e->id);
	std::string s = std::string(getenv("SX_DBG") && g_ttbits && !getFn(e) ? "(!" : "(") + nm[e->op];
	if (e->op == EXTRACT) s += "[" + std::to_string(e->c + e->w - 1) + ":" + std::to_string(e->c) + "]";
	if (e->op == TABLE) s += std::to_string(e->c);
	if (e->op == UF) s += "." + g_ufs[e->c];
	if ((e->op == ADD || e->op == XOR) && e->c) s += "+" + std::to_string(e->c);
	if (e->op == SEXT) s += std::to_string(e->w);
	for (u32 i = 0; i < e->n; ++i) { s += " "; if (i > 12) { s += "..."; break; } if (e->op == ADD && e->co[i] != 1) s += std::to_string(sx(e->co[i], e->w)) + "*"; s += show(e->k[i], d - 1); }
	return s + ")";
}
