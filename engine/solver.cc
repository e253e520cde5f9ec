#include "solver.hh"
#include <minisat/core/Solver.h>
using Minisat::lbool;
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
#include <signal.h>
#include <sys/wait.h>
#include <fcntl.h>
#include <fstream>
#include <sstream>
#include <set>
#include <map>

SolverStats g_ss;
i64 g_miniBudget = 3000;
double g_extTimeout = 300;
std::string g_tmpdir = "/tmp";
bool g_crossCheck = false;
u64 g_crossChecked = 0;
int g_portfolio = 3;

// ---------------------------------------------------------------- gate graph
typedef u32 L;	// node*2+sign; node 0 = false
static const L F = 0, T = 1;
enum GK : u8 { GINP, GAND, GXOR, GMUX };
struct Gate { GK k; L a, b, c; };
static std::vector<Gate> gates{{GINP, 0, 0, 0}};
struct GKey { u64 x, y; bool operator==(const GKey &o) const { return x == o.x && y == o.y; } };
struct GHash { size_t operator()(const GKey &k) const { u64 h = k.x * 0x9E3779B97F4A7C15ull ^ (k.y * 0xff51afd7ed558ccdull); return h ^ (h >> 29); } };
static std::unordered_map<GKey, u32, GHash> ghash;
static L newGate(GK k, L a, L b, L c)
{
	GKey key{((u64)a << 32) | b, ((u64)k << 32) | c};
	auto it = ghash.find(key);
	if (it != ghash.end()) { Gate &g = gates[it->second]; if (g.k == k && g.a == a && g.b == b && g.c == c) return it->second * 2; }
	u32 n = gates.size(); gates.push_back({k, a, b, c}); ghash[key] = n; return n * 2;
}
static L gInput() { u32 n = gates.size(); gates.push_back({GINP, 0, 0, 0}); return n * 2; }
static L gAnd(L a, L b)
{
	if (a == b) return a; if (a == (b ^ 1)) return F;
	if (a == F || b == F) return F; if (a == T) return b; if (b == T) return a;
	if (a > b) std::swap(a, b);
	return newGate(GAND, a, b, 0);
}
static L gOr(L a, L b) { return gAnd(a ^ 1, b ^ 1) ^ 1; }
static L gXor(L a, L b)
{
	L s = (a ^ b) & 1; a &= ~1u; b &= ~1u;
	if (a == b) return s; if (a == F) return b ^ s; if (b == F) return a ^ s;
	if (a > b) std::swap(a, b);
	return newGate(GXOR, a, b, 0) ^ s;
}
static L gMux(L c, L t, L e)
{
	if (c == T) return t; if (c == F) return e; if (t == e) return t;
	if (c & 1) { c ^= 1; std::swap(t, e); }
	if (t == T) return gOr(c, e); if (t == F) return gAnd(c ^ 1, e);
	if (e == F) return gAnd(c, t); if (e == T) return gOr(c ^ 1, t);
	if (t == (e ^ 1)) return gXor(c, e);
	if (t == c) return gOr(c, e); if (t == (c ^ 1)) return gAnd(c ^ 1, e);
	if (e == c) return gAnd(c, t); if (e == (c ^ 1)) return gOr(c ^ 1, t);
	L s = t & 1; t ^= s; e ^= s;
	return newGate(GMUX, c, t, e) ^ s;
}
typedef std::vector<L> Bits;	// low bit first
static std::unordered_map<u32, Bits> blasted;
static std::vector<std::pair<E, Bits>> inputs;	// VAR and UF leaves

static Bits constBits(unsigned w, u64 v) { Bits r(w); for (unsigned i = 0; i < w; ++i) r[i] = (v >> i) & 1; return r; }
static Bits addBits(const Bits &a, const Bits &b, L cin, L *cout = nullptr)
{
	Bits r(a.size()); L c = cin;
	for (size_t i = 0; i < a.size(); ++i) { L x = gXor(a[i], b[i]); r[i] = gXor(x, c); if (i + 1 < a.size() || cout) c = gMux(x, c, a[i]); }
	if (cout) *cout = c; return r;
}
static Bits notBits(Bits a) { for (L &x : a) x ^= 1; return a; }
static Bits shlBits(const Bits &a, unsigned s) { Bits r(a.size(), F); for (size_t i = s; i < a.size(); ++i) r[i] = a[i - s]; return r; }
static L ultBits(const Bits &a, const Bits &b) { L r = F; for (size_t i = 0; i < a.size(); ++i) r = gMux(gXor(a[i], b[i]), b[i], r); return r; }
static L eqBits(const Bits &a, const Bits &b) { L r = T; for (size_t i = 0; i < a.size(); ++i) r = gAnd(r, gXor(a[i], b[i]) ^ 1); return r; }
static Bits muxBits(L c, const Bits &a, const Bits &b) { Bits r(a.size()); for (size_t i = 0; i < a.size(); ++i) r[i] = gMux(c, a[i], b[i]); return r; }
static void divBits(const Bits &a, const Bits &b, Bits &q, Bits &r)
{
	unsigned w = a.size(); q.assign(w, F); Bits rem(w + 1, F), bb = b; bb.push_back(F); Bits nb = notBits(bb);
	for (unsigned i = w; i-- > 0;) {
		for (unsigned j = w; j > 0; --j) rem[j] = rem[j - 1];
		rem[0] = a[i];
		L co; Bits d = addBits(rem, nb, T, &co);
		q[i] = co; rem = muxBits(co, d, rem);
	}
	r.assign(rem.begin(), rem.begin() + w);
}
static unsigned nbits(u64 v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n ? n : 1; }
struct TabMemo { std::unordered_map<u64, std::vector<std::pair<std::vector<u8>, L>>> m; };
static L tabBit(const std::vector<u8> &v, size_t lo, unsigned n, const Bits &idx, TabMemo &memo)
{
	size_t N = (size_t)1 << n; bool all0 = true, all1 = true;
	u64 h = n;
	for (size_t i = lo; i < lo + N; ++i) { if (v[i]) all0 = false; else all1 = false; h = (h ^ v[i]) * 0x100000001b3ull; h ^= h >> 31; }
	if (all0) return F; if (all1) return T;
	if (n >= 3 || n == 0) {
		for (auto &p : memo.m[h]) if (p.first.size() == N && !memcmp(p.first.data(), &v[lo], N)) return p.second;
	}
	L r = gMux(idx[n - 1], tabBit(v, lo + N / 2, n - 1, idx, memo), tabBit(v, lo, n - 1, idx, memo));
	if (n >= 3 && n <= 12) memo.m[h].push_back({std::vector<u8>(v.begin() + lo, v.begin() + lo + N), r});
	return r;
}
static Bits blastOp(E e, const std::vector<const Bits*> &k)
{
	unsigned w = e->w;
	switch (e->op) {
	case CONST: return constBits(w, e->c);
	case VAR: case UF: { Bits r(w); for (L &x : r) x = gInput(); inputs.push_back({e, r}); return r; }
	case ADD: {
		Bits acc = constBits(w, e->c); bool first = e->c == 0;
		u64 cadj = e->c;
		// negative coefficients: -q*x = q*(~x) + q
		for (u32 i = 0; i < e->n; ++i) if (sx(e->co[i], w) < 0) cadj -= e->co[i];
		cadj &= msk(w);
		acc = constBits(w, cadj); first = cadj == 0;
		for (u32 i = 0; i < e->n; ++i) {
			i64 q = sx(e->co[i], w); bool neg = q < 0; u64 m = (neg ? 0 - (u64)q : (u64)q) & msk(w);
			Bits x = neg ? notBits(*k[i]) : *k[i];
			for (unsigned s = 0; s < w; ++s) if ((m >> s) & 1) {
				Bits y = shlBits(x, s);
				if (first) { acc = y; first = false; } else acc = addBits(acc, y, F);
			}
		}
		return acc; }
	case MUL: {
		Bits acc(w, F);
		unsigned na = nbits(e->k[0]->umax), nb = nbits(e->k[1]->umax);
		const Bits &a = na <= nb ? *k[0] : *k[1], &b = na <= nb ? *k[1] : *k[0];
		for (unsigned i = 0; i < std::min(w, std::min(na, nb)); ++i) {
			Bits y = shlBits(b, i); for (L &x : y) x = gAnd(x, a[i]);
			acc = i ? addBits(acc, y, F) : y;
		}
		return acc; }
	case UDIV: case UREM: {
		unsigned n = std::min(w, std::max(nbits(e->k[0]->umax), nbits(e->k[1]->umax)));
		Bits a(k[0]->begin(), k[0]->begin() + n), b(k[1]->begin(), k[1]->begin() + n), q, r;
		divBits(a, b, q, r);
		L z = T; for (L x : *k[1]) z = gAnd(z, x ^ 1);
		q.resize(w, F); r.resize(w, F);
		if (e->op == UDIV) return muxBits(z, constBits(w, msk(w)), q);
		return muxBits(z, *k[0], r); }
	case SDIV: case SREM: {
		Bits a = *k[0], b = *k[1]; L sa = a[w - 1], sb = b[w - 1];
		Bits z0(w, F);
		Bits ua = muxBits(sa, addBits(notBits(a), z0, T), a), ub = muxBits(sb, addBits(notBits(b), z0, T), b), q, r;
		divBits(ua, ub, q, r);
		L z = T; for (L x : b) z = gAnd(z, x ^ 1);
		if (e->op == SREM) return muxBits(z, a, muxBits(sa, addBits(notBits(r), z0, T), r));
		Bits qq = muxBits(gXor(sa, sb), addBits(notBits(q), z0, T), q);
		return muxBits(z, muxBits(sa, constBits(w, 1), constBits(w, msk(w))), qq); }
	case AND: { Bits r(w); for (unsigned i = 0; i < w; ++i) r[i] = gAnd((*k[0])[i], (*k[1])[i]); return r; }
	case OR: { Bits r(w); for (unsigned i = 0; i < w; ++i) r[i] = gOr((*k[0])[i], (*k[1])[i]); return r; }
	case XOR: {
		Bits r = constBits(w, e->c);
		for (unsigned i = 0; i < w; ++i) {	// balanced
			std::vector<L> v; for (u32 j = 0; j < e->n; ++j) v.push_back((*k[j])[i]);
			while (v.size() > 1) { std::vector<L> u; for (size_t j = 0; j + 1 < v.size(); j += 2) u.push_back(gXor(v[j], v[j + 1])); if (v.size() & 1) u.push_back(v.back()); v.swap(u); }
			if (!v.empty()) r[i] = gXor(r[i], v[0]);
		}
		return r; }
	case SHL: case LSHR: case ASHR: {
		Bits a = *k[0]; const Bits &s = *k[1]; L fill = e->op == ASHR ? a[w - 1] : F;
		unsigned lg = 0; while ((1u << lg) < w) ++lg;
		for (unsigned j = 0; j < s.size() && j < lg; ++j) {
			Bits b(w); unsigned d = 1u << j;
			for (unsigned i = 0; i < w; ++i) b[i] = e->op == SHL ? (i >= d ? a[i - d] : F) : (i + d < w ? a[i + d] : fill);
			a = muxBits(s[j], b, a);
		}
		L big = F; for (unsigned j = lg; j < s.size(); ++j) big = gOr(big, s[j]);
		if (w != (1u << lg)) { // amounts in [w, 2^lg)
			Bits sl(s.begin(), s.begin() + std::min<size_t>(s.size(), lg)); sl.resize(lg + 1, F);
			big = gOr(big, ultBits(sl, constBits(lg + 1, w)) ^ 1);
		}
		return muxBits(big, Bits(w, fill), a); }
	case ITE: return muxBits((*k[0])[0], *k[1], *k[2]);
	case EQ: return Bits{eqBits(*k[0], *k[1])};
	case ULT: return Bits{ultBits(*k[0], *k[1])};
	case SLT: { Bits a = *k[0], b = *k[1]; a.back() ^= 1; b.back() ^= 1; return Bits{ultBits(a, b)}; }
	case CONCAT: { Bits r; for (u32 i = e->n; i-- > 0;) r.insert(r.end(), k[i]->begin(), k[i]->end()); return r; }
	case EXTRACT: return Bits(k[0]->begin() + e->c, k[0]->begin() + e->c + w);
	case SEXT: { Bits r = *k[0]; r.resize(w, k[0]->back()); return r; }
	case TABLE: {
		Table *t = g_tables[e->c]; unsigned n = k[0]->size();
		Bits idx = *k[0];
		while (n > 1 && ((size_t)1 << (n - 1)) >= t->val.size()) --n;
		size_t N = (size_t)1 << n; Bits r(w);
		for (unsigned b = 0; b < w; ++b) {
			std::vector<u8> v(N, 0); for (size_t i = 0; i < N && i < t->val.size(); ++i) v[i] = (t->val[i] >> b) & 1;
			TabMemo memo; r[b] = tabBit(v, 0, n, idx, memo);
		}
		L out = F; for (unsigned j = n; j < idx.size(); ++j) out = gOr(out, idx[j]);
		if (out != F) for (L &x : r) x = gAnd(x, out ^ 1);
		return r; }
	}
	abort();
}
static const Bits &blast(E root)
{
	std::vector<E> st{root};
	while (!st.empty()) {
		E e = st.back();
		if (blasted.count(e->id)) { st.pop_back(); continue; }
		bool ready = true;
		for (u32 i = 0; i < e->n; ++i) if (!blasted.count(e->k[i]->id)) { st.push_back(e->k[i]); ready = false; }
		if (!ready) continue;
		std::vector<const Bits*> k; for (u32 i = 0; i < e->n; ++i) k.push_back(&blasted[e->k[i]->id]);
		Bits r = blastOp(e, k);
		blasted[e->id] = r;
		st.pop_back();
	}
	return blasted[root->id];
}

// ---------------------------------------------------------------- MiniSat
static Minisat::Solver *ms = nullptr;
static std::vector<int> gvar;	// gate -> minisat variable, -1
static std::vector<u32> curDec;
static void cone(const std::vector<L> &roots, std::vector<u32> &out)
{
	static std::vector<u32> stamp; static u32 now = 0; ++now;
	if (stamp.size() < gates.size()) stamp.resize(gates.size() + gates.size() / 4, 0);
	std::vector<u32> st; for (L r : roots) st.push_back(r >> 1);
	while (!st.empty()) {
		u32 g = st.back(); st.pop_back();
		if (stamp[g] == now) continue; stamp[g] = now; out.push_back(g);
		Gate &x = gates[g];
		if (x.k == GINP) continue;
		st.push_back(x.a >> 1); st.push_back(x.b >> 1); if (x.k == GMUX) st.push_back(x.c >> 1);
	}
	std::sort(out.begin(), out.end());
}
typedef std::vector<int> Cl;
template <typename FN> static void gateClauses(u32 g, FN emit)	// literals: gate lits
{
	Gate &x = gates[g]; L o = g * 2;
	if (x.k == GAND) { emit({o ^ 1, x.a}); emit({o ^ 1, x.b}); emit({o, x.a ^ 1, x.b ^ 1}); }
	else if (x.k == GXOR) { emit({o ^ 1, x.a, x.b}); emit({o ^ 1, x.a ^ 1, x.b ^ 1}); emit({o, x.a ^ 1, x.b}); emit({o, x.a, x.b ^ 1}); }
	else if (x.k == GMUX) { emit({o ^ 1, x.a ^ 1, x.b}); emit({o, x.a ^ 1, x.b ^ 1}); emit({o ^ 1, x.a, x.c}); emit({o, x.a, x.c ^ 1}); emit({o ^ 1, x.b, x.c}); emit({o, x.b ^ 1, x.c ^ 1}); }
	else if (g == 0) emit({o ^ 1});
}
static Minisat::Lit mlit(L l) { return Minisat::mkLit(gvar[l >> 1], l & 1); }

static void fillModel(Model *m, const std::function<bool(L)> &val)
{
	m->var.clear(); m->uf.clear(); m->val.clear(); m->have.clear();
	for (auto &p : inputs) {
		u64 v = 0; for (size_t i = 0; i < p.second.size(); ++i) if (val(p.second[i])) v |= (u64)1 << i;
		if (p.first->op == VAR) m->var[(u32)p.first->c] = v; else m->uf[p.first->id] = v;
	}
}
// ---------------------------------------------------------------- SMT-LIB2
std::string toSMT2(const std::vector<E> &conds, bool getModel)
{
	std::ostringstream o; o << "(set-logic ALL)\n"; // QF_BV content
	if (getModel) o << "(set-option :produce-models true)\n";
	std::ostringstream body; std::unordered_map<u32, std::string> nm; std::vector<std::string> vars;
	auto bv = [](unsigned w, u64 v) { return "(_ bv" + std::to_string(v) + " " + std::to_string(w) + ")"; };
	std::function<void(E)> dfs = [&](E root) {
		std::vector<E> st{root};
		while (!st.empty()) {
			E e = st.back(); if (nm.count(e->id)) { st.pop_back(); continue; }
			bool ready = true;
			for (u32 i = 0; i < e->n; ++i) if (!nm.count(e->k[i]->id)) { st.push_back(e->k[i]); ready = false; }
			if (!ready) continue; st.pop_back();
			auto K = [&](unsigned i) { return nm[e->k[i]->id]; };
			unsigned w = e->w; std::string s;
			auto bin = [&](const char *op) { return std::string("(") + op + " " + K(0) + " " + K(1) + ")"; };
			auto pred = [&](const char *op) { return std::string("(ite (") + op + " " + K(0) + " " + K(1) + ") #b1 #b0)"; };
			switch (e->op) {
			case CONST: nm[e->id] = bv(w, e->c); continue;
			case VAR: case UF: { std::string v = (e->op == VAR ? "v" + std::to_string(e->c) : "u" + std::to_string(e->id)); body << "(declare-const " << v << " (_ BitVec " << w << "))\n"; nm[e->id] = v; vars.push_back(v); continue; }
			case ADD: s = bv(w, e->c); for (u32 i = 0; i < e->n; ++i) s = "(bvadd " + s + " " + (e->co[i] == 1 ? K(i) : "(bvmul " + bv(w, e->co[i]) + " " + K(i) + ")") + ")"; break;
			case MUL: s = bin("bvmul"); break;
			case UDIV: s = bin("bvudiv"); break; case UREM: s = bin("bvurem"); break;
			case SDIV: s = bin("bvsdiv"); break; case SREM: s = bin("bvsrem"); break;
			case AND: s = bin("bvand"); break; case OR: s = bin("bvor"); break;
			case XOR: s = bv(w, e->c); for (u32 i = 0; i < e->n; ++i) s = "(bvxor " + s + " " + K(i) + ")"; break;
			case SHL: s = bin("bvshl"); break; case LSHR: s = bin("bvlshr"); break; case ASHR: s = bin("bvashr"); break;
			case ITE: s = "(ite (= " + K(0) + " #b1) " + K(1) + " " + K(2) + ")"; break;
			case EQ: s = pred("="); break; case ULT: s = pred("bvult"); break; case SLT: s = pred("bvslt"); break;
			case CONCAT: s = K(0); for (u32 i = 1; i < e->n; ++i) s = "(concat " + s + " " + K(i) + ")"; break;
			case EXTRACT: s = "((_ extract " + std::to_string(e->c + w - 1) + " " + std::to_string(e->c) + ") " + K(0) + ")"; break;
			case SEXT: s = "((_ sign_extend " + std::to_string(w - e->k[0]->w) + ") " + K(0) + ")"; break;
			case TABLE: {
				Table *t = g_tables[e->c]; unsigned iw = e->k[0]->w; std::string ix = K(0);
				std::function<std::string(size_t, int)> rec = [&](size_t lo, int b) -> std::string {
					size_t N = b >= 0 ? (size_t)1 << (b + 1) : 1; bool same = true; u64 v0 = lo < t->val.size() ? t->val[lo] : 0;
					for (size_t i = lo; i < lo + N && same; ++i) { u64 v = i < t->val.size() ? t->val[i] : 0; same = v == v0; if (i > t->val.size()) break; }
					if (same) return bv(w, v0);
					std::string h = rec(lo + N / 2, b - 1), l = rec(lo, b - 1);
					return "(ite (= ((_ extract " + std::to_string(b) + " " + std::to_string(b) + ") " + ix + ") #b1) " + h + " " + l + ")";
				};
				unsigned n = iw; while (n > 1 && ((size_t)1 << (n - 1)) >= t->val.size()) --n;
				s = rec(0, n - 1);
				if (n < iw) s = "(ite (= ((_ extract " + std::to_string(iw - 1) + " " + std::to_string(n) + ") " + ix + ") " + bv(iw - n, 0) + ") " + s + " " + bv(w, 0) + ")";
				break; }
			}
			std::string v = "e" + std::to_string(e->id);
			body << "(define-fun " << v << " () (_ BitVec " << w << ") " << s << ")\n"; nm[e->id] = v;
		}
	};
	for (E c : conds) { dfs(c); body << "(assert (= " << nm[c->id] << " #b1))\n"; }
	o << body.str() << "(check-sat)\n";
	if (getModel && !vars.empty()) { o << "(get-value ("; for (auto &v : vars) o << v << " "; o << "))\n"; }
	return o.str();
}

// ---------------------------------------------------------------- external portfolio
struct Proc { pid_t pid; std::string name, out; bool smt, done; };
static pid_t launch(const std::vector<std::string> &cmd, const std::string &out)
{
	pid_t p = fork();
	if (p == 0) {
		setpgid(0, 0);
		int fd = open(out.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); dup2(fd, 1); dup2(fd, 2);
		std::vector<char*> a; for (auto &s : cmd) a.push_back((char*)s.c_str()); a.push_back(nullptr);
		execvp(a[0], a.data()); _exit(127);
	}
	return p;
}
static const char *findCadical()
{
	static std::string p; if (!p.empty()) return p.c_str();
	for (const char *c : {"/usr/bin/cadical", "/usr/local/bin/cadical", "/app/lean4-4.33.0/build/release/stage1/bin/cadical"}) if (!access(c, X_OK)) { p = c; return p.c_str(); }
	p = "-"; return p.c_str();
}
static bool isArith(const std::vector<E> &conds)
{
	std::set<u32> seen; std::vector<E> st(conds.begin(), conds.end());
	while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e->id).second) continue; if (e->op == MUL || e->op == UREM || e->op == UDIV || e->op == SREM || e->op == SDIV || e->op == ADD) return true; for (u32 i = 0; i < e->n; ++i) st.push_back(e->k[i]); }
	return false;
}
static int extCount = 0;
static Res runPortfolio(const std::vector<E> &conds, const std::vector<L> &roots, Model *m, const std::set<std::string> &only)
{
	auto t0 = std::chrono::steady_clock::now();
	std::string base = g_tmpdir + "/q" + std::to_string(getpid()) + "_" + std::to_string(extCount++);
	std::vector<u32> cn; cone(roots, cn);
	std::unordered_map<u32, int> num; int nv = 0; for (u32 g : cn) num[g] = ++nv;
	std::vector<Proc> ps; std::vector<std::string> files;
	auto want = [&](const char *n) { return only.empty() || only.count(n); };
	if (want("kissat") || want("cadical")) {
		std::string f = base + ".cnf"; files.push_back(f);
		std::vector<std::vector<int>> cls;
		auto lit = [&](L l) { int v = num[l >> 1]; return (l & 1) ? -v : v; };
		for (u32 g : cn) gateClauses(g, [&](std::initializer_list<L> c) { std::vector<int> v; for (L l : c) v.push_back(lit(l)); cls.push_back(v); });
		for (L r : roots) cls.push_back({lit(r)});
		FILE *fp = fopen(f.c_str(), "w"); fprintf(fp, "p cnf %d %zu\n", nv, cls.size());
		for (auto &c : cls) { for (int x : c) fprintf(fp, "%d ", x); fputs("0\n", fp); }
		fclose(fp);
		if (want("kissat")) ps.push_back({launch({"kissat", "-q", f}, base + ".k"), "kissat", base + ".k", false, false});
		if (want("cadical") && findCadical()[0] == '/') ps.push_back({launch({findCadical(), "-q", f}, base + ".c"), "cadical", base + ".c", false, false});
	}
	if (want("z3") || want("cvc5") || want("cvc5int")) {
		std::string f = base + ".smt2"; files.push_back(f);
		std::ofstream(f) << toSMT2(conds, true);
		if (want("z3")) ps.push_back({launch({"z3-new", f}, base + ".z"), "z3", base + ".z", true, false});
		if (want("cvc5")) ps.push_back({launch({"cvc5", f}, base + ".v"), "cvc5", base + ".v", true, false});
		if (want("cvc5int")) ps.push_back({launch({"cvc5", "--solve-bv-as-int=sum", f}, base + ".w"), "cvc5int", base + ".w", true, false});
	}
	Res res = UNK_; unsigned alive = ps.size();
	while (alive && res == UNK_) {
		double el = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		if (el > g_extTimeout) break;
		for (auto &p : ps) {
			if (p.done) continue; int st; pid_t r = waitpid(p.pid, &st, WNOHANG);
			if (r != p.pid) continue;
			p.done = true; --alive;
			std::ifstream in(p.out); std::stringstream ss; ss << in.rdbuf(); std::string s = ss.str();
			if (p.smt) {
				if (s.find("(error") != std::string::npos && s.compare(0, 3, "sat") && s.compare(0, 5, "unsat")) continue;
				if (!s.compare(0, 5, "unsat")) { res = UNSAT_; ++g_ss.extWins[p.name]; break; }
				if (!s.compare(0, 3, "sat")) {
					if (m) {
						m->var.clear(); m->uf.clear(); m->val.clear(); m->have.clear(); bool ok = true;
						// ((v1 #x..) (v2 #b..) ...)
						size_t i = 3;
						while ((i = s.find_first_of("vu", i)) != std::string::npos && ok) {
							if (s[i - 1] != '(') { ++i; continue; }
							bool isv = s[i] == 'v'; size_t j; u32 id = std::stoul(s.substr(i + 1), &j); i += 1 + j;
							while (s[i] == ' ') ++i;
							u64 v = 0;
							if (s[i] == '#' && s[i + 1] == 'x') v = std::stoull(s.substr(i + 2, s.find_first_of(" )", i) - i - 2), nullptr, 16);
							else if (s[i] == '#') v = std::stoull(s.substr(i + 2, s.find_first_of(" )", i) - i - 2), nullptr, 2);
							else ok = false;
							if (isv) m->var[id] = v; else m->uf[id] = v;
						}
						if (!ok) continue;
					}
					res = SAT_; ++g_ss.extWins[p.name]; break;
				}
			} else {
				int code = WIFEXITED(st) ? WEXITSTATUS(st) : -1;
				if (code == 20) { res = UNSAT_; ++g_ss.extWins[p.name]; break; }
				if (code == 10) {
					if (m) {
						std::vector<u8> a(nv + 1, 0); std::istringstream is(s); std::string line;
						while (std::getline(is, line)) if (line[0] == 'v') { std::istringstream l(line.substr(1)); int x; while (l >> x) if (x > 0 && x <= nv) a[x] = 1; }
						fillModel(m, [&](L l) { auto it = num.find(l >> 1); return it != num.end() && (a[it->second] ^ (l & 1)); });
					}
					res = SAT_; ++g_ss.extWins[p.name]; break;
				}
			}
		}
		if (res == UNK_) usleep(el < 0.1 ? 500 : 5000);
	}
	for (auto &p : ps) { if (!p.done) { kill(-p.pid, SIGKILL); kill(p.pid, SIGKILL); int st; waitpid(p.pid, &st, 0); } unlink(p.out.c_str()); }
	for (auto &f : files) unlink(f.c_str());
	g_ss.extTime += std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	return res;
}

u64 g_absUnsat = 0;
static std::unordered_map<E, E> absVar;	// normalised linear form -> its stand-in
static bool atomic(E e, int d = 0)
{
	if (e->op == CONST || e->op == VAR) return true;
	if (d > 4 || (e->op != SEXT && e->op != CONCAT && e->op != EXTRACT && e->op != ADD)) return false;
	for (u32 i = 0; i < e->n; ++i) if (!atomic(e->k[i], d + 1)) return false;
	return true;
}
static bool abstractAdds(const std::vector<E> &in, std::vector<E> &out)
{
	std::unordered_map<E, E> map; std::vector<E> st(in.begin(), in.end()); std::unordered_set<u32> seen; std::vector<E> used; std::unordered_set<u32> usedS;
	while (!st.empty()) {
		E e = st.back(); st.pop_back(); if (!seen.insert(e->id).second) continue;
		if (e->op == ADD && e->n >= 2 && e->w <= 64 && atomic(e)) {
			u64 c = e->c; E b = mkSub(e, mkC(e->w, c)); bool neg = false;
			if (b->op == ADD && sx(b->co[0], b->w) < 0) { b = mkNeg(b); neg = true; }
			E &v = absVar[b];
			if (!v) { unsigned bits = 1; while (bits < b->w && (sx(msk(bits - 1), b->w) < b->smax || -(i64)msk(bits - 1) - 1 > b->smin)) ++bits; static u32 cnt = 0; E x = mkVar(bits, "lin" + std::to_string(cnt++), 0xffffffffu); v = bits < b->w ? mkSext(x, b->w) : x; }
			if (usedS.insert(b->id).second) used.push_back(b);
			E r = neg ? mkNeg(v) : v; map[e] = mkAdd(r, mkC(e->w, c)); continue;
		}
		for (u32 i = 0; i < e->n; ++i) st.push_back(e->k[i]);
	}
	if (map.empty()) return false;
	std::unordered_map<E, E> memo;
	for (E e : in) out.push_back(substitute(e, map, memo));
	for (E b : used) { E v = absVar[b]; out.push_back(mkNot(mkSlt(v, mkC(b->w, b->smin)))); out.push_back(mkNot(mkSlt(mkC(b->w, b->smax), v))); }
	return true;
}
// comparisons between choices among terms, with the order of the terms left open but for its being an order:
// what holds for every total preorder of the terms holds for the values
struct OrderAbs {
	std::unordered_map<E, std::vector<std::pair<E, E>>> lv;	// choice -> (leaf, guard)
	std::vector<E> leaves; std::unordered_map<E, int> idx; std::unordered_map<E, E> negOf; std::unordered_map<E, E> memo; std::unordered_map<E, E> &pool; bool ok = true;
	OrderAbs(std::unordered_map<E, E> &p) : pool(p) {}
	static E strip(E e) { for (;;) { if (e->op == SEXT) { e = e->k[0]; continue; } if (e->op == CONCAT && e->n == 2 && e->k[0]->isC() && !e->k[0]->c && e->k[1]->w > 1 && e->k[1]->smin >= 0) { e = e->k[1]; continue; } return e; } }
	E canon(E e) { e = strip(e); return e->w < 64 ? mkSext(e, 64) : e; }
	int leaf(E c, E orig)
	{
		auto it = idx.find(c); if (it != idx.end()) return it->second;
		int i = leaves.size(); idx[c] = i; leaves.push_back(c); if (leaves.size() > 140) ok = false;
		if (c->isC() || (orig->op == ADD && orig->smin > -(i64)(msk(orig->w - 1)) - 1)) { E n = c->isC() ? mkC(64, 0 - c->c) : canon(mkNeg(orig)); negOf[c] = n; }
		return i;
	}
	const std::vector<std::pair<E, E>> &choices(E e)
	{
		e = strip(e); auto it = lv.find(e); if (it != lv.end()) return it->second;
		std::vector<std::pair<E, E>> r;
		if (e->op == ITE) {
			E c = rw(e->k[0]); std::vector<std::pair<E, E>> a = choices(e->k[1]), b = choices(e->k[2]);
			for (auto &p : a) r.push_back({p.first, mkAnd(c, p.second)});
			for (auto &p : b) { bool f = false; for (auto &q : r) if (q.first == p.first) { q.second = mkOr(q.second, mkAnd(mkNot(c), p.second)); f = true; break; } if (!f) r.push_back({p.first, mkAnd(mkNot(c), p.second)}); }
		} else { E c = canon(e); leaf(c, e); r.push_back({c, mkC(1, 1)}); }
		return lv[e] = r;
	}
	E fresh(E a, E b) { E key = mkConcat(a, b); E &v = pool[key]; if (!v) { static u32 cnt = 0; v = mkVar(1, "ord" + std::to_string(cnt++), 0xffffffffu); } return v; }
	E same(E e, E a, E b) { E x = rw(a), y = rw(b); return x == a && y == b ? e : rebuild(e, {x, y}); }
	bool plain(E e, int d = 0) { e = strip(e); if (e->op == ITE) { auto k = plainMemo.find(e); if (k != plainMemo.end()) return k->second; bool r = plain(e->k[1], d + 1) && plain(e->k[2], d + 1); plainMemo[e] = r; return r; } return atomic(e); }
	std::unordered_map<E, bool> plainMemo;
	E cmp(E e, E a, E b, bool eq)
	{
		if (!plain(a) || !plain(b)) return same(e, a, b);
		auto x = choices(a), y = choices(b); E r = mkC(1, 0);
		for (auto &p : x) for (auto &q : y) { E g = mkAnd(p.second, q.second); r = mkOr(r, mkAnd(g, eq ? mkAnd(mkNot(hold(p.first, q.first)), mkNot(hold(q.first, p.first))) : hold(p.first, q.first))); if (!ok) return r; }
		return r;
	}
	E hold(E a, E b) { if (a == b) return mkC(1, 0); if (a->smax < b->smin) return mkC(1, 1); if (a->smin >= b->smax) return mkC(1, 0); if (a->w == 64 && b->w == 64) { auto k = std::make_pair(a->id, b->id); auto it = diff.find(k); char v; if (it != diff.end()) v = it->second; else { E d = mkSub(a, b); v = d->smin >= 0 ? 2 : d->smax < 0 ? 1 : 0; diff[k] = v; } if (v) return mkC(1, v == 1); } return fresh(a, b); }
	static std::map<std::pair<u32, u32>, char> diff;	// certain order by range
	E rw(E e)
	{
		auto it = memo.find(e); if (it != memo.end()) return it->second;
		E r;
		if (!ok || e->n == 0) r = e;
		else if (e->op == SLT || (e->op == ULT && e->k[0]->smin >= 0 && e->k[1]->smin >= 0)) r = cmp(e, e->k[0], e->k[1], false);
		else if (e->op == EQ && e->k[0]->w > 1) r = cmp(e, e->k[0], e->k[1], true);
		else if (e->op == EXTRACT && e->w == 1 && e->c == e->k[0]->w - 1 && e->k[0]->op == ADD && plain(e->k[0])) r = cmp(e, e->k[0], mkC(e->k[0]->w, 0), false);
		else { std::vector<E> k; bool ch = false; for (u32 i = 0; i < e->n; ++i) { k.push_back(rw(e->k[i])); ch |= k[i] != e->k[i]; } r = ch ? rebuild(e, k) : e; }
		return memo[e] = r;
	}
	void axioms(std::vector<E> &out)
	{
		int n = leaves.size();
		for (int i = 0; i < n; ++i) if (negOf.count(leaves[i]) && idx.count(negOf[leaves[i]])) for (int j = 0; j < n; ++j) if (j != i && negOf.count(leaves[j]) && idx.count(negOf[leaves[j]])) { E c = mkEq(hold(leaves[i], leaves[j]), hold(negOf[leaves[j]], negOf[leaves[i]])); if (!c->isC() || !c->c) out.push_back(c); }
		for (int i = 0; i < n; ++i) for (int j = 0; j < n; ++j) if (i != j) {
			if (i < j) { E c = mkNot(mkAnd(hold(leaves[i], leaves[j]), hold(leaves[j], leaves[i]))); if (!c->isC() || !c->c) out.push_back(c); }
			for (int k = 0; k < n; ++k) if (k != i && k != j) {	// not (a<b): b<=a;  a<=b & b<=c -> a<=c
				E c = mkOr(mkOr(hold(leaves[j], leaves[i]), hold(leaves[k], leaves[j])), mkNot(hold(leaves[k], leaves[i]))); if (!c->isC() || !c->c) out.push_back(c);
			}
		}
	}
};
std::map<std::pair<u32, u32>, char> OrderAbs::diff;
static std::unordered_map<E, E> ordPool; u64 g_ordUnsat = 0;
static bool orderAbstract(const std::vector<E> &in, std::vector<E> &out)
{
	OrderAbs o(ordPool); for (E e : in) { out.push_back(o.rw(e)); if (!o.ok) return false; }
	if (o.leaves.size() < 2) return false;
	o.axioms(out); return true;
}
// satisfiable queries over linear forms are found by trying values, small ones for the sake of ties
static std::vector<std::unordered_map<u32, u64>> guesses;
static bool guess(const std::vector<E> &conds, Model *m)
{
	static u64 rs = 88172645463325252ull; auto rnd = [&] { rs ^= rs << 13; rs ^= rs >> 7; rs ^= rs << 17; return rs >> 11; };
	std::vector<E> vars; { std::unordered_set<u32> seen; std::vector<E> st(conds.begin(), conds.end()); while (!st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e->id).second) continue; if (e->op == UF) return false; if (e->op == VAR) vars.push_back(e); for (u32 i = 0; i < e->n; ++i) st.push_back(e->k[i]); } }
	auto t0 = std::chrono::steady_clock::now();
	Model t; size_t np = guesses.size();
	for (size_t k = 0; k < np + 600; ++k) {
		if ((k & 15) == 15 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > 3) break;
		t.var.clear(); std::fill(t.have.begin(), t.have.end(), 0);
		if (k < np) t.var = guesses[np - 1 - k];
		else if (np && k % 2) { t.var = guesses[rnd() % np]; int c = 1 + rnd() % 3; if (!vars.empty()) while (c--) { E v = vars[rnd() % vars.size()]; u64 &x = t.var[(u32)v->c]; x = rnd() % 3 ? x + rnd() % 5 - 2 : rnd(); } }
		else { u64 r = k == np ? 5 : rnd() % 5; for (E v : vars) { u64 x = r == 0 ? rnd() : r == 1 ? rnd() % 3 - 1 : r == 2 ? rnd() % 7 - 3 : r == 5 ? 0 : r == 3 ? (rnd() & 1 ? msk(v->w - 1) : msk(v->w) ^ msk(v->w - 1)) : rnd() % 2 * 2 - 1; t.var[(u32)v->c] = x & msk(v->w); } }
		bool ok = true; for (E c : conds) if (!t.eval(c)) { ok = false; break; }
		if (!ok) continue;
		if (k >= np && guesses.size() < 300) guesses.push_back(t.var);
		if (m) { m->uf.clear(); m->val.clear(); m->have.clear(); m->var = t.var; }
		return true;
	}
	return false;
}
Res solve(const std::vector<E> &in, Model *m, bool hard)
{
	auto t0 = std::chrono::steady_clock::now();
	struct Tm { std::chrono::steady_clock::time_point t; ~Tm() { g_ss.time += std::chrono::duration<double>(std::chrono::steady_clock::now() - t).count(); } } tm{t0};
	++g_ss.queries;
	std::vector<E> conds;
	for (E c : in) { if (c->isC()) { if (!c->c) { ++g_ss.bySimp; ++g_ss.unsat; return UNSAT_; } continue; } conds.push_back(c); }
	// functional consistency of uninterpreted functions
	{
		std::vector<E> ufs; std::set<u32> seen; std::vector<E> st(conds.begin(), conds.end()); bool any = !g_ufs.empty();
		while (any && !st.empty()) { E e = st.back(); st.pop_back(); if (!seen.insert(e->id).second) continue; if (e->op == UF) ufs.push_back(e); for (u32 i = 0; i < e->n; ++i) st.push_back(e->k[i]); }
		if (ufs.size() <= 64) for (size_t i = 0; i < ufs.size(); ++i) for (size_t j = 0; j < i; ++j) if (ufs[i]->c == ufs[j]->c && ufs[i]->n == ufs[j]->n && ufs[i]->w == ufs[j]->w) {
			E eq = mkB(true); bool ok = true; for (u32 q = 0; q < ufs[i]->n; ++q) { if (ufs[i]->k[q]->w != ufs[j]->k[q]->w) ok = false; else eq = mkAnd(eq, mkEq(ufs[i]->k[q], ufs[j]->k[q])); }
			if (ok) { E c = mkOr(mkNot(eq), mkEq(ufs[i], ufs[j])); if (!c->isC()) conds.push_back(c); }
		}
	}
	// flatten conjunctions, detect direct contradictions
	{
		std::unordered_set<u32> seen; std::vector<E> st(conds.begin(), conds.end()), outv;
		while (!st.empty()) { E e = st.back(); st.pop_back(); if (e->op == AND && e->w == 1) { st.push_back(e->k[0]); st.push_back(e->k[1]); continue; } if (seen.insert(e->id).second) outv.push_back(e); }
		for (E e : outv) { E n = mkNot(e); if (seen.count(n->id)) { ++g_ss.bySimp; ++g_ss.unsat; return UNSAT_; } }
		conds.swap(outv);
	}
	if (g_absAdd) {	// linear combinations as free integers of their range: a refutation without arithmetic is a refutation
		std::vector<E> abs; if (orderAbstract(conds, abs)) { g_absAdd = false; double d0 = g_ss.time; Res r = solve(abs, nullptr, false); if (getenv("SX_QTIME")) fprintf(stderr, "order %zu conds: %d %.2f\n", abs.size(), (int)r, g_ss.time - d0); g_absAdd = true; --g_ss.queries; (r == UNSAT_ ? g_ss.unsat : r == SAT_ ? g_ss.sat : g_ss.unk) -= 1; if (r == UNSAT_) { ++g_ss.unsat; ++g_absUnsat; ++g_ordUnsat; return UNSAT_; } if (guess(conds, m)) { ++g_ss.bySimp; ++g_ss.sat; return SAT_; } }
		abs.clear(); if (abstractAdds(conds, abs)) { g_absAdd = false; double d0 = g_ss.time; Res r = solve(abs, nullptr, hard); if (getenv("SX_QTIME")) fprintf(stderr, "forms %zu conds: %d %.2f\n", abs.size(), (int)r, g_ss.time - d0); g_absAdd = true; --g_ss.queries; (r == UNSAT_ ? g_ss.unsat : r == SAT_ ? g_ss.sat : g_ss.unk) -= 1; if (r == UNSAT_) { ++g_ss.unsat; ++g_absUnsat; return UNSAT_; }
			if (r == SAT_ && guess(conds, m)) { ++g_ss.bySimp; ++g_ss.sat; return SAT_; } }
	}
	if (g_absAdd && getenv("SX_QTIME")) { fprintf(stderr, "full %.1f\n", g_ss.time); for (E c : conds) fprintf(stderr, "   %s\n", show(c, 5).c_str()); }
	std::vector<L> roots;
	for (E c : conds) { L l = blast(c)[0]; if (l == F) { ++g_ss.bySimp; ++g_ss.unsat; return UNSAT_; } if (l != T) roots.push_back(l); }
	if (roots.empty()) {
		++g_ss.bySimp; ++g_ss.sat; if (m) { m->var.clear(); m->uf.clear(); m->val.clear(); m->have.clear(); } return SAT_;
	}
	if (ms && (ms->nVars() > 4000000)) { delete ms; ms = nullptr; gvar.clear(); curDec.clear(); }
	if (!ms) ms = new Minisat::Solver;
	if (gvar.size() < gates.size()) gvar.resize(gates.size() + 1000, -1);
	std::vector<u32> cn; cone(roots, cn);
	g_ss.maxVars = std::max<u64>(g_ss.maxVars, cn.size());
	for (u32 g : curDec) ms->setDecisionVar(gvar[g], false);
	curDec.clear();
	for (u32 g : cn) {
		if (gvar[g] < 0) {
			gvar[g] = ms->newVar(l_Undef, false);
			gateClauses(g, [&](std::initializer_list<L> c) { Minisat::vec<Minisat::Lit> v; for (L l : c) v.push(mlit(l)); ms->addClause(v); });
		}
		ms->setDecisionVar(gvar[g], true); curDec.push_back(g);
	}
	Minisat::vec<Minisat::Lit> as; for (L r : roots) as.push(mlit(r));
	if (!hard || g_miniBudget > 0) {
		ms->setConfBudget(g_miniBudget < 0 ? 1000000000 : g_miniBudget);
		Minisat::lbool r = ms->solveLimited(as);
		if (r == l_True) {
			++g_ss.byMini; ++g_ss.sat;
			if (m) fillModel(m, [&](L l) { int g = l >> 1; if (g >= (int)gvar.size() || gvar[g] < 0) return false; return (ms->modelValue(mlit(l)) == l_True); });
			return SAT_;
		}
		if (r == l_False) {
			++g_ss.byMini; ++g_ss.unsat;
			if (g_crossCheck && hard) { if (runPortfolio(conds, roots, nullptr, {"z3", "cvc5"}) == SAT_) { fprintf(stderr, "CROSS-CHECK DISAGREEMENT\n"); abort(); } else ++g_crossChecked; }
			return UNSAT_;
		}
	}
	std::set<std::string> only;
	if (g_portfolio == 1) only = {"kissat"};
	else if (g_portfolio == 2) only = {"kissat", "z3"};
	else if (g_portfolio == 4) only = {"kissat", "cadical", "z3", "cvc5", "cvc5int"};
	else if (!isArith(conds)) only = {"kissat", "cadical"}; else only = {"kissat", "z3", "cvc5int"};
	Res r = runPortfolio(conds, roots, m, only);
	if (r == UNK_) ++g_ss.unk; else { ++g_ss.byExt; if (r == SAT_) ++g_ss.sat; else ++g_ss.unsat; }
	return r;
}
