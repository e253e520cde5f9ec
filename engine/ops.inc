// included by interp.cc: instruction and intrinsic semantics
static bool lift2(const Lane &a, const Lane &b) { return !a.e && !b.e; }
static E fbits(const Lane &l, unsigned w) { return toE(l, w); }
static E fpNaN(E x) { unsigned w = x->w; E m = mkExtract(x, w - 2, 0); u64 inf = w == 32 ? 0x7f800000ull : 0x7ff0000000000000ull; return mkUlt(mkC(w - 1, inf), m); }
static E fpOrd(E a, E b) { if (assumeNoNaN) return mkB(true); return mkAnd(mkNot(fpNaN(a)), mkNot(fpNaN(b))); }
static E fpZero(E x) { return mkEq(mkExtract(x, x->w - 2, 0), mkC(x->w - 1, 0)); }
static E fpEq(E a, E b) { return mkAnd(fpOrd(a, b), mkOr(mkEq(a, b), mkAnd(fpZero(a), fpZero(b)))); }
static E fpLt(E a, E b)
{
	unsigned w = a->w; E sa = mkExtract(a, w - 1, w - 1), sb = mkExtract(b, w - 1, w - 1), ma = mkExtract(a, w - 2, 0), mb = mkExtract(b, w - 2, 0);
	E lt = mkIte(sa, mkIte(sb, mkUlt(mb, ma), mkNot(mkAnd(fpZero(a), fpZero(b)))), mkAnd(mkNot(sb), mkUlt(ma, mb)));
	return mkAnd(fpOrd(a, b), lt);
}
static Lane fcmp(unsigned p, const Lane &x, const Lane &y, unsigned w)
{
	E a = fbits(x, w), b = fbits(y, w);
	switch (p) {
	case CmpInst::FCMP_FALSE: return fromE(mkB(false)); case CmpInst::FCMP_TRUE: return fromE(mkB(true));
	case CmpInst::FCMP_OEQ: return fromE(fpEq(a, b));
	case CmpInst::FCMP_OGT: return fromE(fpLt(b, a)); case CmpInst::FCMP_OLT: return fromE(fpLt(a, b));
	case CmpInst::FCMP_OGE: return fromE(mkOr(fpLt(b, a), fpEq(a, b))); case CmpInst::FCMP_OLE: return fromE(mkOr(fpLt(a, b), fpEq(a, b)));
	case CmpInst::FCMP_ONE: return fromE(mkOr(fpLt(a, b), fpLt(b, a)));
	case CmpInst::FCMP_ORD: return fromE(fpOrd(a, b)); case CmpInst::FCMP_UNO: return fromE(mkNot(fpOrd(a, b)));
	case CmpInst::FCMP_UEQ: return fromE(mkOr(mkNot(fpOrd(a, b)), fpEq(a, b)));
	case CmpInst::FCMP_UGT: return fromE(mkNot(mkOr(fpLt(a, b), fpEq(a, b)))); case CmpInst::FCMP_ULT: return fromE(mkNot(mkOr(fpLt(b, a), fpEq(a, b))));
	case CmpInst::FCMP_UGE: return fromE(mkNot(fpLt(a, b))); case CmpInst::FCMP_ULE: return fromE(mkNot(fpLt(b, a)));
	case CmpInst::FCMP_UNE: return fromE(mkNot(fpEq(a, b)));
	}
	unsupported("fcmp");
}
static double asD(u64 c, unsigned w) { if (w == 32) { float f; u32 x = c; memcpy(&f, &x, 4); return f; } double d; memcpy(&d, &c, 8); return d; }
static u64 ofD(double d, unsigned w) { if (w == 32) { float f = d; u32 x; memcpy(&x, &f, 4); return x; } u64 x; memcpy(&x, &d, 8); return x; }
static Lane fbin(const char *k, const Lane &a, const Lane &b, unsigned w)
{
	if (!a.e && !b.e) {
		double x = asD(a.c, w), y = asD(b.c, w), r;
		switch (k[1]) { case 'a': r = w == 32 ? (float)x + (float)y : x + y; break; case 's': r = w == 32 ? (float)x - (float)y : x - y; break; case 'm': r = w == 32 ? (float)x * (float)y : x * y; break; case 'd': r = w == 32 ? (float)x / (float)y : x / y; break; default: r = fmod(x, y); }
		return Lane{nullptr, ofD(r, w)};
	}
	E x = toE(a, w), y = toE(b, w);
	if ((k[1] == 'a' || k[1] == 'm') && x->id > y->id) std::swap(x, y);
	return fromE(mkUF(std::string(k) + std::to_string(w), w, {x, y}));
}
static Lane binop(unsigned op, const Lane &a, const Lane &b, unsigned w)
{
	if (!a.e && !b.e && w <= 64) {
		u64 x = a.c, y = b.c, M_ = msk(w); Lane r;
		switch (op) {
		case Instruction::Add: r.c = (x + y) & M_; return r; case Instruction::Sub: r.c = (x - y) & M_; return r; case Instruction::Mul: r.c = (x * y) & M_; return r;
		case Instruction::And: r.c = x & y; return r; case Instruction::Or: r.c = x | y; return r; case Instruction::Xor: r.c = x ^ y; return r;
		case Instruction::Shl: r.c = y >= w ? 0 : (x << y) & M_; return r; case Instruction::LShr: r.c = y >= w ? 0 : x >> y; return r;
		case Instruction::AShr: r.c = (u64)(sx(x, w) >> (y >= w ? w - 1 : y)) & M_; return r;
		case Instruction::UDiv: r.c = y ? x / y : 0; return r; case Instruction::URem: r.c = y ? x % y : 0; return r;
		default: break;
		}
	}
	E x = toE(a, w), y = toE(b, w), r;
	switch (op) {
	case Instruction::Add: r = mkAdd(x, y); break; case Instruction::Sub: r = mkSub(x, y); break; case Instruction::Mul: r = mkMul(x, y); break;
	case Instruction::And: r = mkAnd(x, y); break; case Instruction::Or: r = mkOr(x, y); break; case Instruction::Xor: r = mkXor(x, y); break;
	case Instruction::Shl: r = mkShl(x, y); break; case Instruction::LShr: r = mkLShr(x, y); break; case Instruction::AShr: r = mkAShr(x, y); break;
	case Instruction::UDiv: r = mkUDiv(x, y); break; case Instruction::URem: r = mkURem(x, y); break; case Instruction::SDiv: r = mkSDiv(x, y); break; case Instruction::SRem: r = mkSRem(x, y); break;
	default: unsupported("binop");
	}
	return r->w <= 64 ? fromE(r) : Lane{r, 0};
}
static Lane icmp(unsigned p, const Lane &a, const Lane &b, unsigned w)
{
	if (!a.e && !b.e) {
		u64 x = a.c, y = b.c; i64 sx_ = sx(x, w), sy = sx(y, w); bool r = false;
		switch (p) { case CmpInst::ICMP_EQ: r = x == y; break; case CmpInst::ICMP_NE: r = x != y; break; case CmpInst::ICMP_ULT: r = x < y; break; case CmpInst::ICMP_ULE: r = x <= y; break; case CmpInst::ICMP_UGT: r = x > y; break; case CmpInst::ICMP_UGE: r = x >= y; break; case CmpInst::ICMP_SLT: r = sx_ < sy; break; case CmpInst::ICMP_SLE: r = sx_ <= sy; break; case CmpInst::ICMP_SGT: r = sx_ > sy; break; case CmpInst::ICMP_SGE: r = sx_ >= sy; break; }
		return Lane{nullptr, r};
	}
	E x = toE(a, w), y = toE(b, w);
	switch (p) {
	case CmpInst::ICMP_EQ: return fromE(mkEq(x, y)); case CmpInst::ICMP_NE: return fromE(mkNe(x, y));
	case CmpInst::ICMP_ULT: return fromE(mkUlt(x, y)); case CmpInst::ICMP_ULE: return fromE(mkUle(x, y)); case CmpInst::ICMP_UGT: return fromE(mkUlt(y, x)); case CmpInst::ICMP_UGE: return fromE(mkUle(y, x));
	case CmpInst::ICMP_SLT: return fromE(mkSlt(x, y)); case CmpInst::ICMP_SLE: return fromE(mkSle(x, y)); case CmpInst::ICMP_SGT: return fromE(mkSlt(y, x)); case CmpInst::ICMP_SGE: return fromE(mkSle(y, x));
	}
	unsupported("icmp");
}
static Lane castOp(unsigned op, const Lane &a, unsigned sw, unsigned w)
{
	switch (op) {
	case Instruction::Trunc: if (!a.e) return Lane{nullptr, a.c & msk(w)}; { E r = mkTrunc(a.e, w); return r->w <= 64 ? fromE(r) : Lane{r, 0}; }
	case Instruction::ZExt: if (!a.e && w <= 64) return a; { E r = mkZext(toE(a, sw), w); return r->w <= 64 ? fromE(r) : Lane{r, 0}; }
	case Instruction::SExt: if (!a.e && w <= 64) return Lane{nullptr, (u64)sx(a.c, sw) & msk(w)}; { E r = mkSext(toE(a, sw), w); return r->w <= 64 ? fromE(r) : Lane{r, 0}; }
	case Instruction::PtrToInt: case Instruction::IntToPtr: if (sw == w) return a; return castOp(sw > w ? Instruction::Trunc : Instruction::ZExt, a, sw, w);
	case Instruction::SIToFP: if (a.e && a.e->smax - a.e->smin >= 0 && a.e->smax - a.e->smin <= 4) {	// few values: choose among constants
		E r = mkC(w, ofD((double)a.e->smin, w)); for (i64 v = a.e->smin + 1; v <= a.e->smax; ++v) r = mkIte(mkEq(a.e, mkC(sw, (u64)v & msk(sw))), mkC(w, ofD((double)v, w)), r); return fromE(r); }
		if (!a.e) return Lane{nullptr, ofD((double)sx(a.c, sw), w)}; return fromE(mkUF("sitofp" + std::to_string(w), w, {a.e->w < 64 ? mkSext(a.e, 64) : a.e}));
	case Instruction::UIToFP: if (!a.e) return Lane{nullptr, ofD((double)a.c, w)}; return fromE(mkUF(sw < 64 ? "sitofp" + std::to_string(w) : "uitofp" + std::to_string(w), w, {sw < 64 ? mkZext(a.e, 64) : a.e}));
	case Instruction::FPToSI: if (!a.e) return Lane{nullptr, (u64)(i64)asD(a.c, sw) & msk(w)}; return fromE(mkUF("fptosi" + std::to_string(w), w, {a.e}));
	case Instruction::FPToUI: if (!a.e) return Lane{nullptr, (u64)asD(a.c, sw) & msk(w)}; return fromE(mkUF("fptoui" + std::to_string(w), w, {a.e}));
	case Instruction::FPExt: case Instruction::FPTrunc: if (!a.e) return Lane{nullptr, ofD(asD(a.c, sw), w)}; return fromE(mkUF("fpcast" + std::to_string(w), w, {a.e}));
	}
	unsupported("cast");
}
static Lane select(const Lane &c, const Lane &a, const Lane &b, unsigned w)
{
	if (!c.e) return c.c ? a : b;
	if (a.e == UNINIT) return b; if (b.e == UNINIT) return a;
	E r = mkIte(c.e, toE(a, w), toE(b, w)); return r->w <= 64 ? fromE(r) : Lane{r, 0};
}
static std::vector<Lane> regroup(State &s, const Val &v, const std::vector<unsigned> &sw, const std::vector<unsigned> &dw)
{
	// little-endian reinterpretation of lanes
	std::vector<Lane> out;
	bool anyU = false; for (size_t i = 0; i < v.n(); ++i) anyU |= v.at(i).e == UNINIT;
	if (sw.size() == dw.size()) { for (size_t i = 0; i < v.n(); ++i) out.push_back(v.at(i)); return out; }
	if (sw.size() % dw.size() == 0) {
		size_t g = sw.size() / dw.size();
		for (size_t i = 0; i < dw.size(); ++i) {
			bool allU = true; for (size_t j = 0; j < g; ++j) allU &= v.at(i * g + j).e == UNINIT;
			if (allU) { out.push_back(Lane{UNINIT, 0}); continue; }
			std::vector<E> k; for (size_t j = g; j-- > 0;) { Lane l = getLane(s, v.at(i * g + j), sw[0]); k.push_back(toE(l, sw[0])); }
			E e = mkConcatV(k); out.push_back(e->w <= 64 ? fromE(e) : Lane{e, 0});
		}
		return out;
	}
	if (dw.size() % sw.size() == 0) {
		size_t g = dw.size() / sw.size();
		for (size_t i = 0; i < sw.size(); ++i) for (size_t j = 0; j < g; ++j) {
			if (v.at(i).e == UNINIT) { out.push_back(Lane{UNINIT, 0}); continue; }
			if (!v.at(i).e) { out.push_back(Lane{nullptr, (v.at(i).c >> (j * dw[0])) & msk(dw[0])}); continue; }
			out.push_back(fromE(mkExtract(v.at(i).e, (j + 1) * dw[0] - 1, j * dw[0])));
		}
		return out;
	}
	unsupported("bitcast");
}
// ---------------------------------------------------------------- memory access
struct Acc { u32 id; E off; u64 coff; };
static ObjP *findObj(State &s, u32 id) { auto it = s.mem.find(id); return it == s.mem.end() ? nullptr : &it->second; }
static bool memViol(State &s, const std::string &msg) { Model m = *s.wit; violation(s, "memory", msg, m); return false; }
static unsigned tz(E e) { if (e->op == CONCAT && e->k[e->n - 1]->isC() && e->k[e->n - 1]->c == 0) return e->k[e->n - 1]->w; return 0; }
static unsigned strideOf(E off)
{
	if (off->op == ADD) { unsigned t = 63; for (u32 i = 0; i < off->n; ++i) t = std::min(t, (unsigned)__builtin_ctzll(off->co[i]) + tz(off->k[i])); return t; }
	return tz(off);
}
// splits pointers that are merged from several objects
static E topIte(E p) { if (p->op == ITE) return p; if (p->op == ADD && (p->c >> 32) == 0) for (u32 i = 0; i < p->n; ++i) if (p->k[i]->op == ITE && p->k[i]->umax >> 32) return p->k[i]; return nullptr; }
static E objBase(E p, u32 &id)
{
	if (p->umin >> 32 == p->umax >> 32) { id = p->umin >> 32; return nullptr; }
	u64 c = p->isC() ? p->c : p->op == ADD ? p->c : 0;
	if (p->op == CONCAT && p->k[0]->isC()) { unsigned r = 64 - p->k[0]->w; if (r <= 32) c = p->k[0]->c << r; }
	id = c >> 32;
	return nullptr;
}
static bool uniqueValue(State &s, E e, u64 &v)
{
	v = s.wit->eval(e);
	return check(s, mkNe(e, mkC(e->w, v)), nullptr) == UNSAT_;
}
static void possibleOffsets(E off, u64 size, u64 n, std::vector<u64> &v, unsigned &st)
{
	st = strideOf(off); if (st > 16) st = 16;
	u64 c = off->op == ADD ? off->c : 0; u64 r = c & msk(st);
	u64 lo = off->umin, hi = off->umax;
	for (u64 o = r; o + n <= size; o += (u64)1 << st) { if (o < lo || o > hi) continue; v.push_back(o); if (v.size() > 70000) break; }
}
static bool boundsOK(State &s, E off, ObjP &o, u64 n, const char *what)
{
	++nOob;
	if (n > o->size) return memViol(s, std::string(what) + " out of bounds of " + o->name);
	if (off->umax <= o->size - n) return true;
	E ok = mkUle(off, mkC(64, o->size - n));
	return require(s, ok, "memory", std::string(what) + " out of bounds of " + (o->name.empty() ? "object" : o->name) + " (size " + std::to_string(o->size) + ")");
}
static bool loadAt(State &s, const Lane &ptr, const std::vector<unsigned> &lw, Val &out, int depth = 0)
{
	u64 n = 0; for (unsigned w : lw) n += (w + 7) / 8;
	if (!ptr.e) {
		u32 id = ptr.c >> 32; u64 off = (ptr.c & 0xffffffff) - OB;
		ObjP *o = findObj(s, id);
		if (!o) return memViol(s, ptr.c < 65536 ? "null pointer load" : "load from a dead object");
		if (off > (*o)->size || n > (*o)->size - off) return memViol(s, "load out of bounds of " + ((*o)->name.empty() ? "object" : (*o)->name) + " (size " + std::to_string((*o)->size) + ", offset " + std::to_string((i64)off) + ")");
		if (lw.size() == 1) { out = Val::S(loadLane(s, *o, off, lw[0])); return true; }
		std::vector<Lane> v(lw.size()); for (size_t i = 0; i < lw.size(); ++i) { v[i] = loadLane(s, *o, off, lw[i]); off += (lw[i] + 7) / 8; }
		out = Val::V(std::move(v)); return true;
	}
	E p = ptr.e;
	if (p->op == ITE && p->leafy && p->leafy <= 64) {	// tree of concrete pointers, in one object: treat as offset below
		std::vector<E> st{p}; std::set<u32> seen; u32 id = 0; bool same = true;
		while (!st.empty() && same) { E e = st.back(); st.pop_back(); if (!seen.insert(e->id).second) continue; if (e->isC()) { u32 i = e->c >> 32; if (id && i != id) same = false; id = i; } else { st.push_back(e->k[1]); st.push_back(e->k[2]); } }
		(void)same;
	}
	if (E t = topIte(p)) {
		Val a, b; E c = t->k[0]; E pa, pb;
		if (t == p) { pa = t->k[1]; pb = t->k[2]; }
		else { std::unordered_map<E, E> m{{t, t->k[1]}}, memo; pa = substitute(p, m, memo); m[t] = t->k[2]; memo.clear(); pb = substitute(p, m, memo); }
		if (depth > 200) unsupported("pointer ite depth");
		auto wt = feasible(s, c), wf = feasible(s, mkNot(c));
		if (!wf) return loadAt(s, fromE(pa), lw, out, depth + 1);
		if (!wt) return loadAt(s, fromE(pb), lw, out, depth + 1);
		// bounds inside each alternative are checked under its condition
		auto side = [&](E cond, std::shared_ptr<Model> w, E q, Val &r) { State t2 = s; t2.wit = w; addPC(t2, cond); bool ok = loadAt(t2, fromE(q), lw, r, depth + 1); s.mem.swap(t2.mem); s.undefUsed |= t2.undefUsed; return ok; };
		bool oa = side(c, wt, pa, a), ob = side(mkNot(c), wf, pb, b);
		if (!oa && !ob) return false;
		if (!oa) { out = b; s.wit = wf; addPC(s, mkNot(c)); return true; } if (!ob) { out = a; s.wit = wt; addPC(s, c); return true; }
		std::vector<Lane> v(lw.size()); for (size_t i = 0; i < lw.size(); ++i) v[i] = select(fromE(c), a.at(i), b.at(i), lw[i]);
		out = Val::V(std::move(v)); return true;
	}
	u32 id; objBase(p, id);
	ObjP *o = id ? findObj(s, id) : nullptr;
	if (!o) {
		u64 v; if (uniqueValue(s, p, v)) return loadAt(s, Lane{nullptr, v}, lw, out, depth + 1);
		unsupported("symbolic pointer " + show(p, 4));
	}
	E off = mkSub(p, mkC(64, addrOf(id)));
	if (!boundsOK(s, off, *o, n, "load")) return false;
	if (off->isC()) return loadAt(s, Lane{nullptr, addrOf(id) + off->c}, lw, out, depth + 1);
	++nSymLoad;
	std::vector<u64> cand; unsigned st; possibleOffsets(off, (*o)->size, n, cand, st);
	if (cand.empty()) unsupported("no candidate offsets");
	if (cand.size() > 66000) unsupported("symbolic load too wide");
	bool conc = true;
	if (!(*o)->s.empty()) for (u64 q = cand[0]; q < cand.back() + n && conc; ++q) conc = !(*o)->s[q].e;
	E idx = mkLShr(off, mkC(64, st));	// candidate offset = r + idx << st with r < 1 << st
	if (conc) {
		std::vector<Lane> v(lw.size()); u64 lo = 0;
		u64 base = 0; E ix = idx;
		if (cand[0] >> st >= 64 || ((cand[0] >> st) && cand.size() < 300)) { base = cand[0] >> st; ix = mkSub(idx, mkC(64, base)); }
		for (size_t l = 0; l < lw.size(); ++l) {
			std::vector<u64> t; if (lw[l] > 64) unsupported("wide symbolic load");
			for (u64 q = 0; q < (cand[0] >> st) - base; ++q) t.push_back(0);
			for (u64 q : cand) t.push_back(loadLane(s, *o, q + lo, lw[l]).c);
			// entries below the first candidate: repeat the first for better ranges
			for (u64 q = 0; q < (cand[0] >> st) - base; ++q) t[q] = t[(cand[0] >> st) - base];
			v[l] = fromE(mkTable(internTable(lw[l], t), ix)); lo += (lw[l] + 7) / 8;
		}
		out = Val::V(std::move(v)); return true;
	}
	if (cand.size() > 1) { u64 v; if (cand.size() > 8 && (s.merge & 3) != 1 && uniqueValue(s, off, v)) return loadAt(s, Lane{nullptr, addrOf(id) + v}, lw, out, depth + 1); }
	if (cand.size() > 4096) unsupported("symbolic load from symbolic content too wide");
	// multiplexer over the index bits
	std::vector<Val> vals; for (u64 q : cand) { Val v; loadAt(s, Lane{nullptr, addrOf(id) + q}, lw, v); vals.push_back(v); }
	u64 i0 = cand[0] >> st; unsigned nb = 0; while (((u64)1 << nb) <= (cand.back() >> st)) ++nb;
	std::function<bool(u64, unsigned, Val&)> rec = [&](u64 lo, unsigned b, Val &r) -> bool {
		if (lo > (cand.back() >> st) || lo + ((u64)1 << b) <= i0) return false;
		if (b == 0) { r = vals[lo - i0]; return true; }
		Val h, l; bool hh = rec(lo + ((u64)1 << (b - 1)), b - 1, h), ll = rec(lo, b - 1, l);
		if (!hh && !ll) return false; if (!hh) { r = l; return true; } if (!ll) { r = h; return true; }
		Lane c = fromE(mkExtract(idx, b - 1, b - 1));
		std::vector<Lane> v(lw.size()); for (size_t i = 0; i < lw.size(); ++i) v[i] = select(c, h.at(i), l.at(i), lw[i]);
		r = Val::V(std::move(v)); return true;
	};
	if (!rec(0, nb, out)) unsupported("mux");
	return true;
}
static bool storeAt(State &s, const Lane &ptr, const std::vector<unsigned> &lw, const Val &v, E guard = nullptr, int depth = 0)
{
	u64 n = 0; for (unsigned w : lw) n += (w + 7) / 8;
	auto viol = [&](const std::string &m) { return guard ? require(s, mkNot(guard), "memory", m) : memViol(s, m); };	// a guarded store only matters where its guard holds
	if (!ptr.e) {
		u32 id = ptr.c >> 32; u64 off = (ptr.c & 0xffffffff) - OB;
		ObjP *o = findObj(s, id);
		if (!o) return viol(ptr.c < 65536 ? "null pointer store" : "store to a dead object");
		if (off > (*o)->size || n > (*o)->size - off) return viol("store out of bounds of " + ((*o)->name.empty() ? "object" : (*o)->name) + " (size " + std::to_string((*o)->size) + ", offset " + std::to_string((i64)off) + ")");
		if ((*o)->ro) return viol("store to a constant");
		Val old; if (guard && !loadAt(s, ptr, lw, old)) return false;
		Obj *w = wr(s, *o);
		for (size_t i = 0; i < lw.size(); ++i) {
			Lane l = v.at(i);
			if (l.e == UNINIT) { for (unsigned j = 0; j < (lw[i] + 7) / 8; ++j) putCell(w, off + j, Cell{UNINIT, 0, 1}); }
			else { if (guard) l = select(fromE(guard), l, old.at(i), lw[i]); storeLane(w, off, l, lw[i]); }
			off += (lw[i] + 7) / 8;
		}
		return true;
	}
	E p = ptr.e;
	if (E t = topIte(p)) {
		E c = t->k[0], pa, pb;
		if (t == p) { pa = t->k[1]; pb = t->k[2]; }
		else { std::unordered_map<E, E> m{{t, t->k[1]}}, memo; pa = substitute(p, m, memo); m[t] = t->k[2]; memo.clear(); pb = substitute(p, m, memo); }
		auto wt = feasible(s, guard ? mkAnd(guard, c) : c), wf = feasible(s, guard ? mkAnd(guard, mkNot(c)) : mkNot(c));
		if (!wt && !wf) return true;
		if (!wf) return storeAt(s, fromE(pa), lw, v, guard, depth + 1);
		if (!wt) return storeAt(s, fromE(pb), lw, v, guard, depth + 1);
		if (depth > 200) unsupported("pointer ite depth");
		E ga = guard ? mkAnd(guard, c) : c, gb = guard ? mkAnd(guard, mkNot(c)) : mkNot(c);
		return storeAt(s, fromE(pa), lw, v, ga, depth + 1) && storeAt(s, fromE(pb), lw, v, gb, depth + 1);
	}
	u32 id; objBase(p, id);
	ObjP *o = id ? findObj(s, id) : nullptr;
	if (!o) { u64 c; if (uniqueValue(s, p, c)) return storeAt(s, Lane{nullptr, c}, lw, v, guard, depth + 1); unsupported("symbolic pointer " + show(p, 4)); }
	E off = mkSub(p, mkC(64, addrOf(id)));
	if (!guard) { if (!boundsOK(s, off, *o, n, "store")) return false; }
	else { E ok = mkOr(mkNot(guard), mkUle(off, mkC(64, (*o)->size - n))); if (!require(s, ok, "memory", "store out of bounds of " + (*o)->name)) return false; }
	if (off->isC()) return storeAt(s, Lane{nullptr, addrOf(id) + off->c}, lw, v, guard, depth + 1);
	if ((*o)->ro) return viol("store to a constant");
	++nSymStore;
	std::vector<u64> cand; unsigned st; possibleOffsets(off, (*o)->size, n, cand, st);
	if (cand.size() > 4 && !guard && (s.merge & 3) != 1) { u64 c; if (uniqueValue(s, off, c)) return storeAt(s, Lane{nullptr, addrOf(id) + c}, lw, v, guard, depth + 1); }
	if (cand.size() > 4096) unsupported("symbolic store too wide");
	for (u64 q : cand) {
		E g = mkEq(off, mkC(64, q)); if (guard) g = mkAnd(g, guard);
		if (g->isC() && !g->c) continue;
		if (!storeAt(s, Lane{nullptr, addrOf(id) + q}, lw, v, g->isC() ? nullptr : g)) return false;
	}
	return true;
}
static bool copyMem(State &s, const Lane &d, const Lane &sr, u64 n, Instruction *I)
{
	if (!n) return true;
	if (d.e || sr.e) {
		// symbolic addresses: element-wise through loads
		std::vector<Val> v; unsigned w = n % 8 == 0 ? 8 : n % 4 == 0 ? 4 : n % 2 == 0 ? 2 : 1;
		for (u64 i = 0; i < n; i += w) { Val x; Lane p = binop(Instruction::Add, sr, Lane{nullptr, i}, 64); if (!loadAt(s, p, {8 * w}, x)) return false; v.push_back(x); }
		for (u64 i = 0; i < n; i += w) { Lane p = binop(Instruction::Add, d, Lane{nullptr, i}, 64); if (!storeAt(s, p, {8 * w}, v[i / w])) return false; }
		return true;
	}
	ObjP *a = findObj(s, d.c >> 32), *b = findObj(s, sr.c >> 32);
	u64 od = (d.c & 0xffffffff) - OB, os = (sr.c & 0xffffffff) - OB;
	if (!a || !b) return memViol(s, "memcpy with a dead or null object");
	if (od > (*a)->size || n > (*a)->size - od || os > (*b)->size || n > (*b)->size - os) return memViol(s, "memcpy out of bounds");
	if ((*a)->ro) return memViol(s, "store to a constant");
	ObjP src = *b; Obj *o = wr(s, *a);
	std::vector<u8> tb(src->b.begin() + os, src->b.begin() + os + n); std::vector<Cell> tc; if (!src->s.empty()) tc.assign(src->s.begin() + os, src->s.begin() + os + n);
	for (u64 i = 0; i < n; ++i) { if (!tc.empty() && tc[i].e) putCell(o, od + i, tc[i]); else putByte(o, od + i, tb[i]); }
	return true;
}
// ---------------------------------------------------------------- ordinary instructions
static bool execOp(State &s, Inst &x)
{
	Frame &fr = s.st.back();
	auto set = [&](Val v) { v.def = true; s.st.back().r[x.dst] = std::move(v); };
	auto lanes = [&](const Val &v, unsigned w) { std::vector<Lane> r(v.n()); for (size_t i = 0; i < r.size(); ++i) r[i] = getLane(s, v.at(i), w); return r; };
	(void)fr;
	switch (x.op) {
	case Instruction::UDiv: case Instruction::SDiv: case Instruction::URem: case Instruction::SRem: {
		Val b = get(s, x.a[1]);
		for (size_t i = 0; i < b.n(); ++i) { Lane l = getLane(s, b.at(i), x.w); E nz = mkNe(toE(l, x.w), mkC(x.w, 0)); if (!require(s, nz, "division", "division by zero")) return false; }
	} [[fallthrough]];
	case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::And: case Instruction::Or: case Instruction::Xor: case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
		Val a = get(s, x.a[0]), b = get(s, x.a[1]);
		if (!a.m && !b.m) {
			Lane l = a.l, r = b.l;
			if (l.e == UNINIT || r.e == UNINIT) { l = getLane(s, l, x.w); r = getLane(s, r, x.w); }
			set(Val::S(binop(x.op, l, r, x.w))); return true;
		}
		std::vector<Lane> v(a.n()); for (size_t i = 0; i < v.size(); ++i) { if (a.at(i).e == UNINIT && b.at(i).e == UNINIT) { v[i] = a.at(i); continue; } v[i] = binop(x.op, getLane(s, a.at(i), x.w), getLane(s, b.at(i), x.w), x.w); }
		set(Val::V(std::move(v))); return true; }
	case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
		static const std::map<unsigned, const char*> nm{{Instruction::FAdd, "fadd"}, {Instruction::FSub, "fsub"}, {Instruction::FMul, "fmul"}, {Instruction::FDiv, "fdiv"}, {Instruction::FRem, "frem"}};
		Val a = get(s, x.a[0]), b = get(s, x.a[1]); std::vector<Lane> v(a.n());
		for (size_t i = 0; i < v.size(); ++i) v[i] = fbin(nm.at(x.op), getLane(s, a.at(i), x.w), getLane(s, b.at(i), x.w), x.w);
		set(Val::V(std::move(v))); return true; }
	case Instruction::FNeg: { Val a = get(s, x.a[0]); std::vector<Lane> v(a.n()); for (size_t i = 0; i < v.size(); ++i) v[i] = binop(Instruction::Xor, getLane(s, a.at(i), x.w), Lane{nullptr, (u64)1 << (x.w - 1)}, x.w); set(Val::V(std::move(v))); return true; }
	case Instruction::ICmp: {
		Val a = get(s, x.a[0]), b = get(s, x.a[1]); std::vector<Lane> v(a.n());
		for (size_t i = 0; i < v.size(); ++i) v[i] = icmp(x.pred, getLane(s, a.at(i), x.sw), getLane(s, b.at(i), x.sw), x.sw);
		set(Val::V(std::move(v))); return true; }
	case Instruction::FCmp: {
		Val a = get(s, x.a[0]), b = get(s, x.a[1]); std::vector<Lane> v(a.n());
		for (size_t i = 0; i < v.size(); ++i) v[i] = fcmp(x.pred, getLane(s, a.at(i), x.sw), getLane(s, b.at(i), x.sw), x.sw);
		set(Val::V(std::move(v))); return true; }
	case Instruction::Select: {
		Val c = get(s, x.a[0]), a = get(s, x.a[1]), b = get(s, x.a[2]); std::vector<Lane> v(a.n());
		for (size_t i = 0; i < v.size(); ++i) { Lane cl = getLane(s, c.at(c.n() > 1 ? i : 0), 1); v[i] = select(cl, a.at(i), b.at(i), x.lw[i]); }
		set(Val::V(std::move(v))); return true; }
	case Instruction::Freeze: { Val a = get(s, x.a[0]); std::vector<Lane> v(a.n()); for (size_t i = 0; i < v.size(); ++i) v[i] = getLane(s, a.at(i), x.lw[i]); set(Val::V(std::move(v))); return true; }
	case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::SIToFP: case Instruction::UIToFP: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::FPExt: case Instruction::FPTrunc: {
		Val a = get(s, x.a[0]);
		if (!a.m) { set(Val::S(castOp(x.op, getLane(s, a.l, x.sw), x.sw, x.w))); return true; }
		std::vector<Lane> v(a.n()); for (size_t i = 0; i < v.size(); ++i) v[i] = castOp(x.op, getLane(s, a.at(i), x.sw), x.sw, x.w);
		set(Val::V(std::move(v))); return true; }
	case Instruction::BitCast: case Instruction::AddrSpaceCast: {
		std::vector<unsigned> sw; flat(x.I->getOperand(0)->getType(), sw);
		set(Val::V(regroup(s, get(s, x.a[0]), sw, x.lw))); return true; }
	case Instruction::Alloca: {
		u64 n = 1; if (!x.a.empty()) { Lane l = get(s, x.a[0]).at(0); if (l.e) { u64 v; if (!uniqueValue(s, l.e, v)) unsupported("symbolic alloca", x.I); l = Lane{nullptr, v}; } n = l.c; }
		auto o = newObj(s, n * x.off, x.I->getName().str()); s.st.back().allocas.push_back(o->id); set(Val::C(addrOf(o->id))); return true; }
	case Instruction::Load: { Val p = get(s, x.a[0]), v; if (!loadAt(s, getLane(s, p.at(0), 64), x.lw, v)) return false; set(std::move(v)); return true; }
	case Instruction::Store: {
		Val v = get(s, x.a[0]), p = get(s, x.a[1]); std::vector<unsigned> lw; 
		if (x.lw.empty()) flat(x.I->getOperand(0)->getType(), x.lw);
		return storeAt(s, getLane(s, p.at(0), 64), x.lw, v); }
	case Instruction::GetElementPtr: {
		Val p = get(s, x.a[0]); if (p.m) unsupported("vector gep", x.I);
		Lane r = getLane(s, p.l, 64); if (!r.e) r.c += x.off; else r = binop(Instruction::Add, r, Lane{nullptr, (u64)x.off}, 64);
		for (size_t i = 1; i < x.a.size(); ++i) {
			Lane l = getLane(s, get(s, x.a[i]).at(0), x.sws[i - 1]); unsigned w = x.sws[i - 1];
			if (!l.e && !r.e) { r.c += (u64)sx(l.c, w) * x.scale[i - 1]; continue; }
			Lane q = w < 64 ? castOp(Instruction::SExt, l, w, 64) : l;
			r = binop(Instruction::Add, r, binop(Instruction::Mul, q, Lane{nullptr, (u64)x.scale[i - 1]}, 64), 64);
		}
		set(Val::S(r)); return true; }
	case Instruction::ExtractElement: {
		Val v = get(s, x.a[0]); Lane i = getLane(s, get(s, x.a[1]).at(0), x.sws[1]);
		if (!i.e) { set(Val::S(v.at(i.c % v.n()))); return true; }
		Lane r = v.at(0); for (size_t j = 1; j < v.n(); ++j) r = select(icmp(CmpInst::ICMP_EQ, i, Lane{nullptr, j}, x.sws[1]), v.at(j), r, x.w);
		set(Val::S(r)); return true; }
	case Instruction::InsertElement: {
		Val v = get(s, x.a[0]); Lane e = get(s, x.a[1]).at(0), i = getLane(s, get(s, x.a[2]).at(0), x.sws[2]); std::vector<Lane> r(v.n());
		for (size_t j = 0; j < r.size(); ++j) r[j] = i.e ? select(icmp(CmpInst::ICMP_EQ, i, Lane{nullptr, j}, x.sws[2]), e, v.at(j), x.w) : i.c == j ? e : v.at(j);
		set(Val::V(std::move(r))); return true; }
	case Instruction::ShuffleVector: {
		Val a = get(s, x.a[0]), b = get(s, x.a[1]); auto mask = cast<ShuffleVectorInst>(x.I)->getShuffleMask(); std::vector<Lane> r;
		for (int m : mask) r.push_back(m < 0 ? Lane{UNINIT, 0} : (size_t)m < a.n() ? a.at(m) : b.at(m - a.n()));
		set(Val::V(std::move(r))); return true; }
	case Instruction::ExtractValue: {
		auto *ev = cast<ExtractValueInst>(x.I); Val v = get(s, x.a[0]); Type *t = ev->getAggregateOperand()->getType(); unsigned pos = 0;
		for (unsigned i : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) pos += flatN(st->getElementType(j)); t = st->getElementType(i); } else { t = cast<ArrayType>(t)->getElementType(); pos += i * flatN(t); } }
		std::vector<Lane> r; for (unsigned j = 0; j < flatN(t); ++j) r.push_back(v.at(pos + j)); set(Val::V(std::move(r))); return true; }
	case Instruction::InsertValue: {
		auto *ev = cast<InsertValueInst>(x.I); Val v = get(s, x.a[0]), e = get(s, x.a[1]); Type *t = ev->getAggregateOperand()->getType(); unsigned pos = 0;
		for (unsigned i : ev->indices()) { if (auto *st = dyn_cast<StructType>(t)) { for (unsigned j = 0; j < i; ++j) pos += flatN(st->getElementType(j)); t = st->getElementType(i); } else { t = cast<ArrayType>(t)->getElementType(); pos += i * flatN(t); } }
		std::vector<Lane> r; for (size_t j = 0; j < v.n(); ++j) r.push_back(v.at(j)); for (size_t j = 0; j < e.n(); ++j) r[pos + j] = e.at(j); set(Val::V(std::move(r))); return true; }
	}
	unsupported("instruction", x.I);
}
// ---------------------------------------------------------------- calls
static std::string cstr(State &s, const Lane &p)
{
	std::string r; if (p.e) return "?"; ObjP *o = findObj(s, p.c >> 32); if (!o) return "?"; u64 off = (p.c & 0xffffffff) - OB;
	while (off < (*o)->size && (*o)->b[off]) r += (*o)->b[off++]; return r;
}
static std::map<std::pair<u32, std::string>, E> symCache;
static E symVar(State &s, unsigned w, const std::string &name)
{
	u32 q = s.seq++; auto key = std::make_pair(q, name + ":" + std::to_string(w)); auto it = symCache.find(key);
	if (concreteRun) { auto f = fixedIn.find(q); u64 x = f == fixedIn.end() ? 0 : f->second; return mkC(w, x & msk(w)); }
	E v; if (it != symCache.end()) v = it->second; else { v = mkVar(w, name, q); symCache[key] = v; }
	s.syms.push_back({q, v}); return v;
}
static Lane satOp(const std::string &op, const Lane &a, const Lane &b, unsigned w)
{
	E x = toE(a, w), y = toE(b, w);
	if (op == "sadd" || op == "ssub") {
		E X = mkSext(x, w + 2), Y = mkSext(y, w + 2), r = op == "sadd" ? mkAdd(X, Y) : mkSub(X, Y);
		E mx = mkC(w + 2, msk(w) >> 1), mn = mkC(w + 2, ~(msk(w) >> 1));
		return fromE(mkIte(mkSlt(mx, r), mkC(w, msk(w) >> 1), mkIte(mkSlt(r, mn), mkC(w, (msk(w) >> 1) + 1), mkExtract(r, w - 1, 0))));
	}
	if (op == "uadd") { E r = mkAdd(mkZext(x, w + 1), mkZext(y, w + 1)); return fromE(mkIte(mkExtract(r, w, w), mkC(w, msk(w)), mkExtract(r, w - 1, 0))); }
	return fromE(mkIte(mkUlt(x, y), mkC(w, 0), mkSub(x, y)));
}
static Lane minmax(const std::string &op, const Lane &a, const Lane &b, unsigned w)
{
	E x = toE(a, w), y = toE(b, w);
	if (op == "smin") return fromE(mkIte(mkSlt(x, y), x, y)); if (op == "smax") return fromE(mkIte(mkSlt(y, x), x, y));
	if (op == "umin") return fromE(mkIte(mkUlt(x, y), x, y)); return fromE(mkIte(mkUlt(y, x), x, y));
}
static Lane absOp(const Lane &a, unsigned w) { E x = toE(a, w); return fromE(mkIte(mkSlt(x, mkC(w, 0)), mkNeg(x), x)); }
static bool startsWith(const std::string &s, const char *p) { return s.compare(0, strlen(p), p) == 0; }
static bool intrinsic(State &s, Inst &x, std::vector<Val> &a, Val &out)
{
	const std::string &n = x.cname;
	auto L = [&](size_t i, size_t j) { return getLane(s, a[i].at(j), x.sws[i]); };
	size_t N = x.lw.size(); unsigned w = x.w;
	auto map1 = [&](auto f) { std::vector<Lane> v(N); for (size_t i = 0; i < N; ++i) v[i] = f(L(0, i)); out = Val::V(std::move(v)); return true; };
	auto map2 = [&](auto f) { std::vector<Lane> v(N); for (size_t i = 0; i < N; ++i) v[i] = f(L(0, i), L(1, i)); out = Val::V(std::move(v)); return true; };
	auto is = [&](const char *p) { return startsWith(n, p); };
	for (const char *o : {"sadd", "ssub", "uadd", "usub"}) if (is((std::string("llvm.") + o + ".sat").c_str())) return map2([&](Lane p, Lane q) { return satOp(o, p, q, w); });
	for (const char *o : {"smin", "smax", "umin", "umax"}) if (is((std::string("llvm.") + o + ".").c_str())) return map2([&](Lane p, Lane q) { return minmax(o, p, q, w); });
	if (is("llvm.abs.")) return map1([&](Lane p) { return absOp(p, w); });
	if (is("llvm.fabs.")) return map1([&](Lane p) { return binop(Instruction::And, p, Lane{nullptr, msk(w) >> 1}, w); });
	if (is("llvm.expect.") || is("llvm.launder.invariant.group") || is("llvm.ptr.annotation")) { out = a[0]; return true; }
	if (is("llvm.is.constant.")) { out = Val::C(0); return true; }
	if (is("llvm.objectsize.")) { out = Val::C(~(u64)0); return true; }
	if (is("llvm.stacksave")) { out = Val::C(0); return true; }
	if (is("llvm.copysign.")) return map2([&](Lane p, Lane q) { u64 sg = (u64)1 << (w - 1); return binop(Instruction::Or, binop(Instruction::And, p, Lane{nullptr, sg - 1}, w), binop(Instruction::And, q, Lane{nullptr, sg}, w), w); });
	if (is("llvm.minnum.") || is("llvm.minimum.")) return map2([&](Lane p, Lane q) { return select(fcmp(CmpInst::FCMP_OLT, q, p, w), q, p, w); });
	if (is("llvm.maxnum.") || is("llvm.maximum.")) return map2([&](Lane p, Lane q) { return select(fcmp(CmpInst::FCMP_OGT, q, p, w), q, p, w); });
	if (is("llvm.fmuladd.") || is("llvm.fma.")) { std::vector<Lane> v(N); for (size_t i = 0; i < N; ++i) v[i] = fbin("fadd", fbin("fmul", L(0, i), L(1, i), w), L(2, i), w); out = Val::V(std::move(v)); return true; }
	for (const char *o : {"sadd", "ssub", "uadd", "usub", "smul", "umul"}) if (is((std::string("llvm.") + o + ".with.overflow").c_str())) {
		if (N != 2) unsupported(n, x.I);
		unsigned ww = o[1] == 'm' ? 2 * w : w + 2; bool sg = o[0] == 's'; E p = toE(L(0, 0), w), q = toE(L(1, 0), w);
		if (ww > 64) { ww = 64; if (o[1] == 'm') {
				if (sg) { auto m = [](i64 x) { return x < 0 ? (u128)-(i128)x : (u128)x; }; if (!(std::max(m(p->smin), m(p->smax)) * std::max(m(q->smin), m(q->smax)) >> (w - 1))) { out = Val::V({fromE(mkMul(p, q)), Lane{}}); return true; } }	// 64 bit multiplication: exact only when ranges prove it
				E r = mkMul(p, q); u128 hi = (u128)p->umax * q->umax; if (sg ? (hi >> (w - 1)) || p->smin < 0 || q->smin < 0 : (hi >> (w - 1)) >> 1) { if (p->isC() && q->isC()) { i128 t = sg ? (i128)sx(p->c, w) * sx(q->c, w) : 0; bool ov = sg ? t != (i128)sx((u64)t, w) : (u128)p->c * q->c > msk(w); out = Val::V({fromE(r), Lane{nullptr, ov}}); return true; } unsupported(n, x.I); } out = Val::V({fromE(r), Lane{}}); return true; }
			// 64 bit add/sub overflow by sign analysis
			E r = o[1] == 'a' ? mkAdd(p, q) : mkSub(p, q), ov;
			if (sg) { E sp = mkExtract(p, w - 1, w - 1), sq = mkExtract(q, w - 1, w - 1), sr = mkExtract(r, w - 1, w - 1); ov = o[1] == 'a' ? mkAnd(mkEq(sp, sq), mkNe(sr, sp)) : mkAnd(mkNe(sp, sq), mkNe(sr, sp)); }
			else ov = o[1] == 'a' ? mkUlt(r, p) : mkUlt(p, q);
			out = Val::V({fromE(r), fromE(ov)}); return true; }
		E P = sg ? mkSext(p, ww) : mkZext(p, ww), Q = sg ? mkSext(q, ww) : mkZext(q, ww); E R = o[1] == 'a' ? mkAdd(P, Q) : o[1] == 's' || (o[1] == 'u' && o[2] == 'b') ? mkSub(P, Q) : mkMul(P, Q);
		if (std::string(o).substr(1) == "sub") R = mkSub(P, Q);
		E r = mkExtract(R, w - 1, 0); out = Val::V({fromE(r), fromE(mkNe(R, sg ? mkSext(r, ww) : mkZext(r, ww)))}); return true;
	}
	if (is("llvm.bswap.")) return map1([&](Lane p) { E e = toE(p, w); std::vector<E> k; for (unsigned i = 0; i < w; i += 8) k.push_back(mkExtract(e, i + 7, i)); return fromE(mkConcatV(k)); });
	if (is("llvm.bitreverse.")) return map1([&](Lane p) { E e = toE(p, w); std::vector<E> k; for (unsigned i = 0; i < w; ++i) k.push_back(mkExtract(e, i, i)); return fromE(mkConcatV(k)); });
	if (is("llvm.ctpop.")) return map1([&](Lane p) { E e = toE(p, w); if (e->isC()) return Lane{nullptr, (u64)__builtin_popcountll(e->c)}; E r = mkC(w, 0); for (unsigned i = 0; i < w; ++i) r = mkAdd(r, mkZext(mkExtract(e, i, i), w)); return fromE(r); });
	if (is("llvm.ctlz.")) return map1([&](Lane p) { E e = toE(p, w), r = mkC(w, w); for (unsigned i = 0; i < w; ++i) r = mkIte(mkExtract(e, i, i), mkC(w, w - 1 - i), r); return fromE(r); });
	if (is("llvm.cttz.")) return map1([&](Lane p) { E e = toE(p, w), r = mkC(w, w); for (unsigned i = w; i-- > 0;) r = mkIte(mkExtract(e, i, i), mkC(w, i), r); return fromE(r); });
	if (is("llvm.fshl.") || is("llvm.fshr.")) {
		std::vector<Lane> v(N); bool l = n[8] == 'l';
		for (size_t i = 0; i < N; ++i) {
			E p = toE(L(0, i), w), q = toE(L(1, i), w), k = mkURem(toE(L(2, i), w), mkC(w, w));
			E inv = mkSub(mkC(w, w), k);
			v[i] = fromE(l ? mkOr(mkShl(p, k), mkLShr(q, inv)) : mkOr(mkShl(p, inv), mkLShr(q, k)));
		}
		out = Val::V(std::move(v)); return true;
	}
	if (is("llvm.vector.reduce.")) {
		std::string o = n.substr(19, n.find('.', 19) - 19); Lane r = L(0, 0); unsigned sw = x.sws[0];
		for (size_t i = 1; i < a[0].n(); ++i) {
			Lane q = L(0, i);
			if (o == "add") r = binop(Instruction::Add, r, q, sw); else if (o == "mul") r = binop(Instruction::Mul, r, q, sw); else if (o == "and") r = binop(Instruction::And, r, q, sw); else if (o == "or") r = binop(Instruction::Or, r, q, sw); else if (o == "xor") r = binop(Instruction::Xor, r, q, sw);
			else if (o == "smax" || o == "smin" || o == "umax" || o == "umin") r = minmax(o, r, q, sw); else unsupported(n, x.I);
		}
		out = Val::S(r); return true;
	}
	if (is("llvm.masked.load") || is("llvm.masked.store")) {
		bool ld = is("llvm.masked.load"); auto *vt = cast<FixedVectorType>(ld ? x.I->getType() : x.I->getOperand(0)->getType());
		unsigned NN = vt->getNumElements(), ww = laneW(vt->getElementType()); Val p = get(s, x.a[ld ? 0 : 1]), mk = get(s, x.a[ld ? 2 : 3]); std::vector<Lane> v(NN);
		for (unsigned i = 0; i < NN; ++i) {
			Lane c = getLane(s, mk.at(i), 1); if (c.e) unsupported("symbolic mask " + n, x.I);
			if (!c.c) { if (ld) v[i] = get(s, x.a[3]).at(i); continue; }
			Lane q = binop(Instruction::Add, getLane(s, p.at(0), 64), Lane{nullptr, (u64)i * (ww / 8)}, 64); Val r;
			if (ld) { if (!loadAt(s, q, {ww}, r)) return false; v[i] = r.at(0); } else if (!storeAt(s, q, {ww}, Val::S(get(s, x.a[0]).at(i)))) return false;
		}
		if (ld) out = Val::V(std::move(v)); return true;
	}
	// ---- x86
	if (is("llvm.x86.ssse3.pshuf.b.128") || is("llvm.x86.avx2.pshuf.b")) {
		std::vector<Lane> v(N);
		for (size_t i = 0; i < N; ++i) {
			size_t base = i & ~(size_t)15; Lane k = L(1, i);
			if (!k.e) { v[i] = k.c & 128 ? Lane{} : L(0, base + (k.c & 15)); continue; }
			bool conc = true; std::vector<u64> t; for (int j = 0; j < 16; ++j) { Lane q = L(0, base + j); if (q.e) conc = false; t.push_back(q.c); }
			E ix = mkExtract(k.e, 3, 0), r;
			if (conc) r = mkTable(internTable(8, t), ix);
			else { std::function<E(int, int)> rec = [&](int lo, int b) -> E { if (b == 0) return toE(L(0, base + lo), 8); return mkIte(mkExtract(ix, b - 1, b - 1), rec(lo + (1 << (b - 1)), b - 1), rec(lo, b - 1)); }; r = rec(0, 4); }
			v[i] = fromE(mkIte(mkExtract(k.e, 7, 7), mkC(8, 0), r));
		}
		out = Val::V(std::move(v)); return true;
	}
	if (is("llvm.x86.ssse3.psign.") || is("llvm.x86.avx2.psign.")) return map2([&](Lane p, Lane q) { E y = toE(q, w), z = toE(p, w); return fromE(mkIte(mkSlt(y, mkC(w, 0)), mkNeg(z), mkIte(mkEq(y, mkC(w, 0)), mkC(w, 0), z))); });
	if (is("llvm.x86.sse.min.p") || is("llvm.x86.sse2.min.p") || is("llvm.x86.avx.min.p")) return map2([&](Lane p, Lane q) { return select(fcmp(CmpInst::FCMP_OLT, p, q, w), p, q, w); });
	if (is("llvm.x86.sse.max.p") || is("llvm.x86.sse2.max.p") || is("llvm.x86.avx.max.p")) return map2([&](Lane p, Lane q) { return select(fcmp(CmpInst::FCMP_OGT, p, q, w), p, q, w); });
	if (is("llvm.x86.avx2.permps") || is("llvm.x86.avx2.permd")) {
		std::vector<Lane> v(N);
		for (size_t i = 0; i < N; ++i) { Lane k = L(1, i); if (!k.e) { v[i] = L(0, k.c & 7); continue; } E ix = mkExtract(k.e, 2, 0); std::function<E(int, int)> rec = [&](int lo, int b) -> E { if (b == 0) return toE(L(0, lo), 32); return mkIte(mkExtract(ix, b - 1, b - 1), rec(lo + (1 << (b - 1)), b - 1), rec(lo, b - 1)); }; v[i] = fromE(rec(0, 3)); }
		out = Val::V(std::move(v)); return true;
	}
	if (is("llvm.x86.sse41.pblendvb") || is("llvm.x86.avx2.pblendvb") || is("llvm.x86.sse41.blendvp") || is("llvm.x86.avx.blendv.p")) {
		std::vector<Lane> v(N); for (size_t i = 0; i < N; ++i) { Lane k = L(2, i); v[i] = select(k.e ? fromE(mkExtract(k.e, w - 1, w - 1)) : Lane{nullptr, (k.c >> (w - 1)) & 1}, L(1, i), L(0, i), w); }
		out = Val::V(std::move(v)); return true;
	}
	if (is("llvm.x86.sse2.pmovmskb") || is("llvm.x86.avx2.pmovmskb")) { E r = nullptr; for (size_t i = 0; i < a[0].n(); ++i) { E b = mkExtract(toE(L(0, i), 8), 7, 7); r = r ? mkConcat(b, r) : b; } out = Val::S(fromE(mkZext(r, 32))); return true; }
	if (is("llvm.x86.sse.cmp.ps") || is("llvm.x86.sse2.cmp.pd") || is("llvm.x86.avx.cmp.p")) {
		u64 p = L(2, 0).c; unsigned pr; switch (p & 31) { case 0: case 16: pr = CmpInst::FCMP_OEQ; break; case 1: case 17: pr = CmpInst::FCMP_OLT; break; case 2: case 18: pr = CmpInst::FCMP_OLE; break; case 3: case 19: pr = CmpInst::FCMP_UNO; break; case 4: case 20: pr = CmpInst::FCMP_UNE; break; case 5: case 21: pr = CmpInst::FCMP_UGE; break; case 6: case 22: pr = CmpInst::FCMP_UGT; break; case 7: case 23: pr = CmpInst::FCMP_ORD; break; case 13: case 29: pr = CmpInst::FCMP_OGE; break; case 14: case 30: pr = CmpInst::FCMP_OGT; break; default: unsupported(n, x.I); }
		return map2([&](Lane l, Lane r) { return castOp(Instruction::SExt, fcmp(pr, l, r, w), 1, w); });
	}
	if (is("llvm.x86.sse42.crc32") ) unsupported(n, x.I);
	// ---- aarch64
	if (is("llvm.aarch64.neon.")) {
		std::string o = n.substr(18, n.find('.', 18) - 18);
		if (o == "sqadd") return map2([&](Lane p, Lane q) { return satOp("sadd", p, q, w); });
		if (o == "sqsub") return map2([&](Lane p, Lane q) { return satOp("ssub", p, q, w); });
		if (o == "uqadd") return map2([&](Lane p, Lane q) { return satOp("uadd", p, q, w); });
		if (o == "uqsub") return map2([&](Lane p, Lane q) { return satOp("usub", p, q, w); });
		if (o == "smin" || o == "smax" || o == "umin" || o == "umax") return map2([&](Lane p, Lane q) { return minmax(o, p, q, w); });
		if (o == "abs") return map1([&](Lane p) { return absOp(p, w); });
		if (o == "sqabs") return map1([&](Lane p) { E e = toE(p, w); return fromE(mkIte(mkEq(e, mkC(w, (u64)1 << (w - 1))), mkC(w, msk(w) >> 1), toE(absOp(p, w), w))); });
		if (o == "sqneg") return map1([&](Lane p) { E e = toE(p, w); return fromE(mkIte(mkEq(e, mkC(w, (u64)1 << (w - 1))), mkC(w, msk(w) >> 1), mkNeg(e))); });
		if (o == "fmin" || o == "fminnm") return map2([&](Lane p, Lane q) { return select(fcmp(CmpInst::FCMP_OLT, q, p, w), q, p, w); });
		if (o == "fmax" || o == "fmaxnm") return map2([&](Lane p, Lane q) { return select(fcmp(CmpInst::FCMP_OGT, q, p, w), q, p, w); });
		if (startsWith(o, "tbl") || startsWith(o, "tbx")) {
			int nt = o[3] - '0'; bool tbx = o[2] == 'x'; size_t t0 = tbx ? 1 : 0; size_t ti = a[t0].n(); std::vector<Lane> v(N), tab;
			for (int j = 0; j < nt; ++j) for (size_t i = 0; i < ti; ++i) tab.push_back(getLane(s, a[t0 + j].at(i), 8));
			for (size_t i = 0; i < N; ++i) {
				Lane k = L(t0 + nt, i), dflt = tbx ? L(0, i) : Lane{};
				if (!k.e) { v[i] = k.c < tab.size() ? tab[k.c] : dflt; continue; }
				bool conc = true; std::vector<u64> t; for (auto &q : tab) { if (q.e) conc = false; t.push_back(q.c); }
				unsigned nb = 0; while ((1u << nb) < tab.size()) ++nb;
				E ix = mkExtract(k.e, nb - 1, 0), r; if (conc) r = mkTable(internTable(8, t), ix);
				else { std::function<E(int, int)> rec = [&](int lo, int b) -> E { if (b == 0) return toE(tab[std::min<size_t>(lo, tab.size() - 1)], 8); return mkIte(mkExtract(ix, b - 1, b - 1), rec(lo + (1 << (b - 1)), b - 1), rec(lo, b - 1)); }; r = rec(0, nb); }
				v[i] = fromE(mkIte(mkUlt(k.e, mkC(8, tab.size())), r, toE(dflt, 8)));
			}
			out = Val::V(std::move(v)); return true;
		}
		if (startsWith(o, "vcvt")) {}
	}
	return false;
}
// 0: path over, 1: continue, 2: forked
static int callExt(SP &sp, Inst &x, std::vector<SP> &forked)
{
	State &s = *sp; std::vector<Val> a; for (auto &o : x.a) a.push_back(get(s, o));
	auto set = [&](Val v) { if (x.dst >= 0) { v.def = true; s.st.back().r[x.dst] = std::move(v); } };
	auto L = [&](size_t i) { return getLane(s, a[i].at(0), x.sws[i]); };
	auto conc = [&](size_t i) -> u64 { Lane l = L(i); if (!l.e) return l.c; u64 v; if (uniqueValue(s, l.e, v)) return v; unsupported("symbolic argument of " + x.cname, x.I); };
	switch (x.ext) {
	case X_NOP: return 1;
	case X_SYM: {	// void sx_sym(void *p, size_t elemBytes, size_t count, const char *name)
		Lane p = L(0); u64 es = conc(1), cnt = conc(2); std::string nm = cstr(s, L(3));
		for (u64 i = 0; i < cnt; ++i) { E v = symVar(s, 8 * es, nm + "[" + std::to_string(i) + "]"); if (!storeAt(s, binop(Instruction::Add, p, Lane{nullptr, i * es}, 64), {(unsigned)(8 * es)}, Val::S(Lane{v, 0}))) return 0; }
		return 1; }
	case X_BITS: { u64 n = conc(0); std::string nm = cstr(s, L(1)); E v = symVar(s, n, nm); set(Val::S(fromE(mkZext(v, 64)))); return 1; }
	case X_ASSUME: { E c = mkNe(toE(L(0), x.sws[0]), mkC(x.sws[0], 0)); return assume(s, c) ? 1 : 0; }
	case X_ASSERT: {
		E c = mkNe(toE(L(0), x.sws[0]), mkC(x.sws[0], 0)); std::string nm = cstr(s, L(1)); ++nAssert; ++assertNames[nm];
		return require(s, c, "assert", nm, true) ? 1 : 0; }
	case X_REACH: {
		Lane l = L(0); if (!l.e) { ++reached[cstr(s, l)]; return 1; }
		State cur = s;	// calls in several branches folded into one: every feasible label counts
		for (int n = 0; n < 8; ++n) {
			u64 v = cur.wit->eval(l.e); ++reached[cstr(s, Lane{nullptr, v})]; E nq = mkNe(l.e, mkC(x.sws[0], v));
			auto m = std::make_shared<Model>(); if (check(cur, nq, m.get()) != SAT_) break;
			cur.wit = m; addPC(cur, nq);
		}
		return 1; }
	case X_NOTE: { std::string t = cstr(s, L(0)); Lane v = L(1); if (verbose) fprintf(stderr, "NOTE %s = %s\n", t.c_str(), v.e ? (show(v.e, 5) + " [" + std::to_string((i64)s.wit->eval(v.e)) + "]").c_str() : std::to_string((i64)v.c).c_str()); return 1; }
	case X_TT: { static unsigned dflt = g_ttbits; u64 n = conc(0); g_ttbits = n == 255 ? dflt : n; return 1; }
	case X_ISSYM: set(Val::C(L(0).e != nullptr)); return 1;
	case X_MERGE: s.merge = conc(0); return 1;
	case X_CHOICE: {
		i64 lo = sx(conc(0), 32), hi = sx(conc(1), 32); std::string nm = cstr(s, L(2)); if (hi < lo) return 0;
		E v = symVar(s, 32, nm); if (v->isC()) { i64 k = sx(v->c, 32); if (k < lo || k > hi) k = lo + (i64)((u64)k % (u64)(hi - lo + 1)); set(Val::C((u64)k & 0xffffffff)); return 1; } if (hi == lo) { E c = mkEq(v, mkC(32, lo)); auto w = std::make_shared<Model>(*s.wit); w->val.clear(); w->have.clear(); w->var[(u32)v->c] = (u64)lo & 0xffffffff; s.wit = w; addPC(s, c); set(Val::C((u64)lo & 0xffffffff)); return 1; }
		for (i64 k = lo; k <= hi; ++k) { if (!fixedIn.empty() && fixedIn.count(s.seq - 1) && (fixedIn[s.seq - 1] & 0xffffffff) != ((u64)k & 0xffffffff)) continue; SP t = cloneState(sp); auto w = std::make_shared<Model>(); w->var = s.wit->var; w->uf = s.wit->uf; w->var[(u32)v->c] = (u64)k & 0xffffffff; t->wit = w; addPC(*t, mkEq(v, mkC(32, (u64)k))); Val r = Val::C((u64)k & 0xffffffff); t->st.back().r[x.dst] = r; forked.push_back(t); }
		return 2; }
	case X_CONC: {
		Lane l = L(0); if (!l.e) { set(Val::S(l)); return 1; }
		State cur = s; unsigned n = 0;
		for (;;) {
			u64 v = cur.wit->eval(l.e); E q = mkEq(l.e, mkC(x.sws[0], v));
			SP t = cloneState(sp); t->wit = cur.wit; t->pc = cur.pc; t->known = cur.known; addPC(*t, q); t->st.back().r[x.dst] = Val::C(v); forked.push_back(t);
			auto m = std::make_shared<Model>(); E nq = mkNot(q); Res r = check(cur, nq, m.get()); if (r == UNK_) finish(3, "solver undecided: concretize"); if (r == UNSAT_) break;
			cur.wit = m; addPC(cur, nq); if (++n > 70000) unsupported("concretize: too many values");
		}
		if (forked.size() == 1) { State t = *forked[0]; forked.clear(); s = t; return 1; }
		return 2; }
	case X_MALLOC: { u64 n = conc(0); auto o = newObj(s, n, "heap"); o->heap = true; set(Val::C(addrOf(o->id))); return 1; }
	case X_CALLOC: { u64 n = conc(0) * conc(1); auto o = newObj(s, n, "heap"); o->heap = true; for (u64 i = 0; i < n; ++i) putByte(o.get(), i, 0); set(Val::C(addrOf(o->id))); return 1; }
	case X_FREE: { u64 p = conc(0); if (p) { ObjP *o = findObj(s, p >> 32); if (!o || !(*o)->heap || p != addrOf((*o)->id)) return memViol(s, "invalid free"), 0; s.mem.erase(p >> 32); } return 1; }
	case X_MEMCPY: { u64 n = conc(2); if (!copyMem(s, L(0), L(1), n, x.I)) return 0; if (x.dst >= 0) set(a[0]); return 1; }
	case X_MEMSET: {
		u64 n = conc(2); Lane v = L(1), p = L(0); if (x.sws[1] > 8) v = castOp(Instruction::Trunc, v, x.sws[1], 8);
		if (n && p.e) { for (u64 i = 0; i < n; ++i) if (!storeAt(s, binop(Instruction::Add, p, Lane{nullptr, i}, 64), {8}, Val::S(v))) return 0; }
		else if (n) { ObjP *o = findObj(s, p.c >> 32); u64 off = (p.c & 0xffffffff) - OB; if (!o || off > (*o)->size || n > (*o)->size - off) return memViol(s, "memset out of bounds"), 0; if ((*o)->ro) return memViol(s, "store to a constant"), 0; Obj *w = wr(s, *o); for (u64 i = 0; i < n; ++i) { if (v.e) putCell(w, off + i, Cell{v.e, 0, 1}); else putByte(w, off + i, v.c); } }
		if (x.dst >= 0) set(a[0]); return 1; }
	case X_MEMCMP: {
		u64 n = conc(2); E r = mkC(32, 0);
		for (u64 i = n; i-- > 0;) { Val p, q; if (!loadAt(s, binop(Instruction::Add, L(0), Lane{nullptr, i}, 64), {8}, p) || !loadAt(s, binop(Instruction::Add, L(1), Lane{nullptr, i}, 64), {8}, q)) return 0; E u = toE(p.at(0), 8), v = toE(q.at(0), 8); r = mkIte(mkEq(u, v), r, mkSub(mkZext(u, 32), mkZext(v, 32))); }
		set(Val::S(fromE(r))); return 1; }
	case X_ABORT: { Model m = *s.wit; violation(s, "abort", "the library called " + x.cname, m); return 0; }
	case X_ASSERTFAIL: { Model m = *s.wit; violation(s, "library-assert", "assertion failed: " + cstr(s, L(0)), m); return 0; }
	case X_GUARDACQ: { Val v; if (!loadAt(s, L(0), {8}, v)) return 0; Lane l = v.at(0); if (l.e) unsupported("guard"); set(Val::C(!(l.c & 1))); return 1; }
	case X_GUARDREL: return storeAt(s, L(0), {8}, Val::C(1)) ? 1 : 0;
	case X_ZERO: set(Val::C(0)); return 1;
	case X_MATH: {
		Lane p = L(0); unsigned w = x.sws[0]; bool sym = p.e || (a.size() > 1 && L(1).e);
		std::string f = x.cname;
		if (f == "fabs" || f == "fabsf") { set(Val::S(binop(Instruction::And, p, Lane{nullptr, msk(w) >> 1}, w))); return 1; }
		if (sym) { std::vector<E> k; for (size_t i = 0; i < a.size(); ++i) k.push_back(toE(L(i), x.sws[i])); set(Val::S(fromE(mkUF(f, x.w, k)))); return 1; }
		double d = asD(p.c, w), r; if (f.back() == 'f' && f != "erf") f.pop_back();
		double e = a.size() > 1 ? asD(L(1).c, x.sws[1]) : 0;
		if (f == "exp") r = w == 32 ? expf(d) : exp(d); else if (f == "log") r = w == 32 ? logf(d) : log(d); else if (f == "tanh") r = tanh(d); else if (f == "atanh") r = atanh(d); else if (f == "sqrt") r = sqrt(d); else if (f == "sin") r = sin(d); else if (f == "cos") r = cos(d); else if (f == "log2") r = log2(d); else if (f == "exp2") r = exp2(d); else if (f == "floor") r = floor(d); else if (f == "ceil") r = ceil(d); else if (f == "round") r = round(d); else if (f == "nearbyint" || f == "rint") r = nearbyint(d); else if (f == "pow") r = pow(d, e); else if (f == "log1p") r = log1p(d); else if (f == "expm1") r = expm1(d); else if (f == "erfc") r = erfc(d); else if (f == "fmin") r = fmin(d, e); else if (f == "fmax") r = fmax(d, e); else unsupported("math " + x.cname);
		set(Val::C(ofD(r, x.w))); return 1; }
	}
	if (x.cname == "llvm.ubsantrap" || x.cname == "llvm.trap") { Model m = *s.wit; violation(s, "undefined-behaviour", "sanitizer trap", m); return 0; }
	if (startsWith(x.cname, "llvm.exp.") || startsWith(x.cname, "llvm.log.") || startsWith(x.cname, "llvm.sqrt.") || startsWith(x.cname, "llvm.pow.") || startsWith(x.cname, "llvm.floor.") || startsWith(x.cname, "llvm.nearbyint.") || startsWith(x.cname, "llvm.rint.") || startsWith(x.cname, "llvm.round.")) {
		std::string f = x.cname.substr(5, x.cname.find('.', 5) - 5); Lane p = L(0); unsigned w = x.w;
		if (p.e || (a.size() > 1 && L(1).e)) { std::vector<E> k; for (size_t i = 0; i < a.size(); ++i) k.push_back(toE(L(i), x.sws[i])); set(Val::S(fromE(mkUF(f, w, k)))); return 1; }
		double d = asD(p.c, w), e = a.size() > 1 ? asD(L(1).c, w) : 0, r = f == "exp" ? exp(d) : f == "log" ? log(d) : f == "sqrt" ? sqrt(d) : f == "pow" ? pow(d, e) : f == "floor" ? floor(d) : f == "round" ? round(d) : nearbyint(d); set(Val::C(ofD(r, w))); return 1;
	}
	Val out; if (intrinsic(s, x, a, out)) { set(out); return 1; }
	unsupported("call to " + x.cname, x.I);
}
