#include "interp.hh"
#include <llvm/Support/raw_ostream.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <sstream>
#include <pthread.h>
#include <thread>
#include <sys/mman.h>
#include <sys/resource.h>
#include <unistd.h>

using namespace llvm;
typedef ::u64 U;
static ::Expr uninitExpr;
const E UNINIT = &uninitExpr;

// ---------------------------------------------------------------- globals
static Module *M; static const DataLayout *DL;
static std::map<Function*, Fun*> funs;
static std::unordered_map<const GlobalValue*, u32> gid;
static std::unordered_map<u32, Function*> fnAt;
static u32 nextObj = 1;
static u64 nInst = 0, nPaths = 0, nDropped = 0, nForks = 0, nMerges = 0, nMergeRefused = 0, nAssert = 0, nAssertSimp = 0, nAssertSolver = 0, nOob = 0, nSymLoad = 0, nSymStore = 0, nUndef = 0, nAssume = 0;
static u64 maxInst = 4000000000ull; static double maxTime = 800; static u64 maxViol = 3;
static std::map<std::string, u64> reached; static std::map<std::string, u64> assertNames;
static std::set<std::string> executed; static std::map<std::string, std::set<unsigned>> linesHit;
static std::string srcFilter = "/repo/";
static std::chrono::steady_clock::time_point tStart;
static bool verbose = false;
static std::string outDir;
static std::vector<std::string> notes;
static bool assumeNoNaN = false;
struct Violation { std::string kind, msg; std::vector<std::pair<u32, std::pair<unsigned, u64>>> in; bool undef; std::string where; };
static std::vector<Violation> viols;
static double elapsed() { return std::chrono::duration<double>(std::chrono::steady_clock::now() - tStart).count(); }
static void finish(int code, const std::string &why);
[[noreturn]] static void unsupported(const std::string &s, Instruction *I = nullptr)
{
	std::string t = s; if (I) { raw_string_ostream o(t); o << ": "; I->print(o); }
	finish(3, "unsupported: " + t); abort();
}
static const U OB = 0x40000000ull;
static U addrOf(u32 id) { return ((U)id << 32) + OB; }

// ---------------------------------------------------------------- types
static unsigned laneW(Type *t)
{
	if (t->isIntegerTy()) return t->getIntegerBitWidth();
	if (t->isPointerTy()) return 64;
	if (t->isFloatTy()) return 32; if (t->isDoubleTy()) return 64; if (t->isHalfTy()) return 16;
	return 0;
}
static void flat(Type *t, std::vector<unsigned> &o)
{
	if (t->isVoidTy()) return;
	if (auto *v = dyn_cast<FixedVectorType>(t)) { for (unsigned i = 0; i < v->getNumElements(); ++i) o.push_back(laneW(v->getElementType())); return; }
	if (auto *s = dyn_cast<StructType>(t)) { for (Type *x : s->elements()) flat(x, o); return; }
	if (auto *s = dyn_cast<ArrayType>(t)) { for (unsigned i = 0; i < s->getNumElements(); ++i) flat(s->getElementType(), o); return; }
	unsigned w = laneW(t); if (!w) { std::string n; raw_string_ostream os(n); t->print(os); unsupported("type " + n); }
	o.push_back(w);
}
static unsigned flatN(Type *t) { std::vector<unsigned> o; flat(t, o); return o.size(); }

// ---------------------------------------------------------------- memory
static ObjP newObj(State &s, U size, const std::string &name)
{
	auto o = std::make_shared<Obj>(); o->id = nextObj++; o->size = size; o->name = name;
	o->b.assign(size, 0); o->s.assign(size, Cell{UNINIT, 0, 1}); o->nsym = size;
	s.mem[o->id] = o; return o;
}
static Obj *wr(State &s, ObjP &p) { if (p.use_count() > 1) p = std::make_shared<Obj>(*p); return p.get(); }
static void putByte(Obj *o, U i, u8 v) { if (!o->s.empty() && o->s[i].e) { o->s[i] = Cell{}; if (--o->nsym == 0) { o->s.clear(); o->s.shrink_to_fit(); } } o->b[i] = v; }
static void putCell(Obj *o, U i, Cell c) { if (o->s.empty()) o->s.assign(o->size, Cell{}); if (!o->s[i].e) ++o->nsym; o->s[i] = c; }
static void storeC(Obj *o, U off, U v, unsigned n)
{
	if (o->s.empty() && n <= 8) { memcpy(&o->b[off], &v, n); return; }
	for (unsigned i = 0; i < n; ++i) putByte(o, off + i, i < 8 ? v >> (8 * i) : 0);
}
static E undefByte(State &s, unsigned w)
{
	++nUndef; s.undefUsed = true;
	return mkVar(w, "undef", nUndef, true);
}
static Lane loadLane(State &s, ObjP &p, U off, unsigned w)
{
	unsigned n = (w + 7) / 8; Lane r;
	bool conc = p->s.empty();
	if (!conc) { conc = true; for (unsigned i = 0; i < n && conc; ++i) conc = !p->s[off + i].e; }
	if (conc && n <= 8) { U v = 0; memcpy(&v, &p->b[off], n); r.c = v & msk(w); return r; }
	if (conc) { std::vector<E> k; for (unsigned i = n; i-- > 0;) k.push_back(mkC(8, p->b[off + i])); E e = mkConcatV(k); r.e = e; return r; }
	bool anyU = false; for (unsigned i = 0; i < n; ++i) anyU |= p->s[off + i].e == UNINIT;
	if (anyU) {
		Obj *o = wr(s, p);
		bool allU = true; for (unsigned i = 0; i < n; ++i) allU &= o->s[off + i].e == UNINIT;
		if (allU && n <= 8) { E v = undefByte(s, 8 * n); for (unsigned i = 0; i < n; ++i) o->s[off + i] = Cell{v, (u8)i, (u8)n}; }
		else for (unsigned i = 0; i < n; ++i) if (o->s[off + i].e == UNINIT) o->s[off + i] = Cell{undefByte(s, 8), 0, 1};
	}
	const Cell &c0 = p->s[off]; E e;
	bool whole = c0.e && c0.idx == 0 && c0.tot == n;
	for (unsigned i = 1; i < n && whole; ++i) whole = p->s[off + i].e == c0.e && p->s[off + i].idx == i;
	if (whole) e = c0.e;
	else {
		std::vector<E> k;
		for (unsigned i = n; i-- > 0;) { const Cell &c = p->s[off + i]; if (!c.e) k.push_back(mkC(8, p->b[off + i])); else k.push_back(mkExtract(c.e, c.idx * 8 + 7, c.idx * 8)); }
		e = mkConcatV(k);
	}
	if (w < 8 * n) e = mkExtract(e, w - 1, 0);
	return e->w <= 64 ? fromE(e) : Lane{e, 0};
}
static void storeLane(Obj *o, U off, const Lane &l, unsigned w)
{
	unsigned n = (w + 7) / 8;
	if (!l.e) { storeC(o, off, l.c, n); return; }
	E e = l.e; if (w < 8 * n) e = mkZext(e, 8 * n);
	if (n > 8) { for (unsigned i = 0; i < n; ++i) { E b = mkExtract(e, 8 * i + 7, 8 * i); if (b->isC()) putByte(o, off + i, b->c); else putCell(o, off + i, Cell{b, 0, 1}); } return; }
	for (unsigned i = 0; i < n; ++i) putCell(o, off + i, Cell{e, (u8)i, (u8)n});
}

// ---------------------------------------------------------------- path conditions
static void know(State &s, E c) { if (c->op == AND && c->w == 1) { know(s, c->k[0]); know(s, c->k[1]); } s.known.insert(c->id); }
static void addPC(State &s, E c) { if (c->isC()) return; s.pc.push_back(c); know(s, c); }
static std::map<u32, u64> fixedIn; static bool concreteRun = false, traceRun = false;
static u64 nTabUnsat = 0;
// goal and path condition contradict each other already as function tables over few bits
static bool tabUnsat(State &s, E c, int &fuel, E *folded = nullptr)
{
	if (c->isC()) return !c->c;
	if (--fuel < 0) return false;
	if (c->op == XOR && c->c == 1 && c->n == 1 && c->k[0]->op == AND) return tabUnsat(s, mkNot(c->k[0]->k[0]), fuel) && tabUnsat(s, mkNot(c->k[0]->k[1]), fuel);
	E g = c;
	for (size_t i = s.pc.size(); i-- > 0;) {
		E p = s.pc[i]; if (!hasFn(p)) continue;
		E t = mkAnd(g, p); if (t->isC()) { if (!t->c) return true; continue; }
		if (hasFn(t)) g = t;
	}
	if (folded) *folded = g;
	return false;
}
static u64 nLin = 0;
// XOR equations over the variables' bits by elimination, starting from the witness of the path; UNK_ if that does not settle it
static Res linSolve(State &s, E c, Model *m, int depth = 0)
{
	if (c->op == XOR && c->c == 1 && c->n == 1 && c->k[0]->op == AND && depth < 20) {
		Res a = linSolve(s, mkNot(c->k[0]->k[1]), m, depth + 1); if (a == SAT_) return a;
		Res b = linSolve(s, mkNot(c->k[0]->k[0]), m, depth + 1); if (b == SAT_) return b;
		return a == UNSAT_ && b == UNSAT_ ? UNSAT_ : UNK_;
	}
	typedef std::vector<E> Row; struct R { Row r; bool k; };
	auto isVar = [](E e) { return e->op == VAR || (e->op == EXTRACT && e->k[0]->op == VAR); };
	auto less = [&](E a, E b) { bool x = isVar(a), y = isVar(b); return x != y ? y : a->id < b->id; };
	std::vector<E> st(1, c), conj; bool aff = false; std::unordered_set<u32> seen;
	while (!st.empty()) { E e = st.back(); st.pop_back(); if (e->op == AND && e->w == 1) { st.push_back(e->k[0]); st.push_back(e->k[1]); continue; } if (!seen.insert(e->id).second) continue; conj.push_back(e); if (e->op == XOR || isVar(e)) aff = true; }
	if (!aff) return UNK_;
	st = s.pc; while (!st.empty()) { E e = st.back(); st.pop_back(); if (e->op == AND && e->w == 1) { st.push_back(e->k[0]); st.push_back(e->k[1]); continue; } if (seen.insert(e->id).second) conj.push_back(e); }
	std::vector<R> rows;
	for (E e : conj) {
		if (e->w != 1) continue;
		R q; q.k = true; if (e->op == XOR) { q.r.assign(e->k, e->k + e->n); q.k = !e->c; } else q.r.push_back(e);
		if (e->op == XOR && e->n == 1 && !isVar(e->k[0])) continue;	// negation of an opaque term
		if (e->op != XOR && !isVar(e)) continue;
		std::sort(q.r.begin(), q.r.end(), less);
		for (auto &p : rows) if (std::binary_search(q.r.begin(), q.r.end(), p.r.back(), less)) { Row t; std::set_symmetric_difference(q.r.begin(), q.r.end(), p.r.begin(), p.r.end(), std::back_inserter(t), less); q.r.swap(t); q.k ^= p.k; }
		if (q.r.empty()) { if (q.k) return UNSAT_; continue; }
		rows.push_back(q);
	}
	Model w; w.var = s.wit->var; w.uf = s.wit->uf;
	std::sort(rows.begin(), rows.end(), [&](const R &a, const R &b) { return less(a.r.back(), b.r.back()); });
	auto bit = [&](E e) -> u64 { if (!isVar(e)) return s.wit->eval(e) & 1; E v = e->op == VAR ? e : e->k[0]; auto it = w.var.find(v->c); return it == w.var.end() ? 0 : it->second >> (e->op == VAR ? 0 : e->c) & 1; };
	for (auto &p : rows) {
		E x = p.r.back(); if (!isVar(x)) continue;
		u64 v = p.k; for (size_t i = 0; i + 1 < p.r.size(); ++i) v ^= bit(p.r[i]);
		E b = x->op == VAR ? x : x->k[0]; u64 sh = x->op == VAR ? 0 : x->c; u64 &y = w.var[b->c]; y = (y & ~((u64)1 << sh)) | v << sh;
	}
	for (E e : conj) if (!w.eval(e)) return UNK_;
	if (m) *m = std::move(w);
	return SAT_;
}
static Res check(State &s, E c, Model *m, bool hard = false)
{
	if (!c->isC()) { Res r = linSolve(s, c, m); if (r != UNK_) { ++nLin; ++g_ss.queries; ++g_ss.bySimp; ++(r == SAT_ ? g_ss.sat : g_ss.unsat); return r; } }
	if (g_ttbits) {
		int fuel = 300; E g = nullptr;
		if (tabUnsat(s, c, fuel, &g)) { ++nTabUnsat; ++g_ss.queries; ++g_ss.bySimp; ++g_ss.unsat; return UNSAT_; }
		for (unsigned n = 0; g && n < 6; ++n) {
			E row = fnRow(g, n); if (!row) break;
			Model w; if (linSolve(s, row, &w) == SAT_ && w.eval(c)) { if (m) *m = std::move(w); ++nLin; ++g_ss.queries; ++g_ss.bySimp; ++g_ss.sat; return SAT_; }
		}
	}
	std::vector<E> v(s.pc); v.push_back(c); return solve(v, m, hard);
}
static std::string whereOf(State &s)
{
	std::string r;
	for (size_t i = s.st.size(); i-- > 0;) {
		Frame &f = s.st[i]; if (!f.b || f.pc > f.b->in.size()) continue;
		Instruction *I = f.b->in[std::min<size_t>(f.pc ? f.pc - 1 : 0, f.b->in.size() - 1)].I;
		const DILocation *d = I ? I->getDebugLoc().get() : nullptr;
		while (d) { r += (d->getScope() && d->getScope()->getSubprogram() ? d->getScope()->getSubprogram()->getName().str() : "?") + "@" + d->getFilename().str() + ":" + std::to_string(d->getLine()) + " "; d = d->getInlinedAt(); }
	}
	return r.substr(0, 600);
}
static void violation(State &s, const std::string &kind, const std::string &msg, Model &m)
{
	Violation v; v.kind = kind; v.msg = msg; v.undef = s.undefUsed; v.where = whereOf(s);
	for (auto &p : s.syms) v.in.push_back({p.first, {p.second->w, m.eval(p.second)}});
	viols.push_back(v);
	for (E p : s.pc) if (!m.eval(p)) fprintf(stderr, "INTERNAL: witness off the path: %s\n", show(p, 8).c_str());
	if (verbose) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), v.where.c_str());
	if (viols.size() >= maxViol) finish(1, "violation limit");
}
// c must hold on this path; reports a violation otherwise and continues under c. False: path is over.
static bool require(State &s, E c, const std::string &kind, const std::string &msg, bool isAssert = false)
{
	if (c->isC() && c->c) { if (isAssert) ++nAssertSimp; return true; }
	E nc = mkNot(c);
	if (s.known.count(c->id)) { if (isAssert) ++nAssertSimp; return true; }
	if (!nc->isC() || nc->c) {
		Model m; Res r;
		if (nc->isC()) { r = SAT_; m = *s.wit; }
		else if (s.wit->eval(nc)) { r = SAT_; m = *s.wit; }
		else { if (verbose) fprintf(stderr, "%.1f solving %s: %s\n", elapsed(), msg.c_str(), show(c, getenv("SX_DBG") ? atoi(getenv("SX_DBG")) : 5).c_str()); r = check(s, nc, &m, isAssert); }
		if (r == UNK_) finish(3, "solver undecided: " + kind + " " + msg);
		if (r == SAT_) {
			violation(s, kind, msg, m);
			if (c->isC()) return false;
			auto w = std::make_shared<Model>();
			if (check(s, c, w.get()) != SAT_) return false;
			s.wit = w;
		}
		if (isAssert) ++nAssertSolver;
		addPC(s, c);
	}
	return true;
}
static bool assume(State &s, E c)
{
	++nAssume;
	if (c->isC()) return c->c;
	if (s.known.count(c->id)) return true;
	if (!s.wit->eval(c)) {
		auto w = std::make_shared<Model>(); Res r = check(s, c, w.get(), true);
		if (r == UNK_) finish(3, "solver undecided: assumption");
		if (r == UNSAT_) return false;
		s.wit = w;
	}
	addPC(s, c); return true;
}

// ---------------------------------------------------------------- decoding
static Val constVal(Constant *c);
static void flatConst(Constant *c, std::vector<Lane> &o)
{
	Type *t = c->getType();
	if (isa<UndefValue>(c)) {	// also poison
		unsigned n = flatN(t); for (unsigned i = 0; i < n; ++i) o.push_back(Lane{UNINIT, 0}); return;
	}
	if (auto *ci = dyn_cast<ConstantInt>(c)) {
		if (ci->getBitWidth() > 64) { std::vector<E> k; unsigned w = ci->getBitWidth(); for (unsigned i = (w - 1) / 64 * 64 + 64; i > 0; i -= 64) { unsigned lo = i - 64, n = std::min(64u, w - lo); k.push_back(mkC(n, ci->getValue().extractBits(n, lo).getZExtValue())); } o.push_back(Lane{mkConcatV(k), 0}); return; }
		o.push_back(Lane{nullptr, ci->getZExtValue()}); return;
	}
	if (auto *cf = dyn_cast<ConstantFP>(c)) { o.push_back(Lane{nullptr, cf->getValueAPF().bitcastToAPInt().getZExtValue()}); return; }
	if (isa<ConstantPointerNull>(c)) { o.push_back(Lane{nullptr, 0}); return; }
	if (auto *g = dyn_cast<GlobalValue>(c)) { auto it = gid.find(g); if (it == gid.end()) unsupported("global " + g->getName().str()); o.push_back(Lane{nullptr, addrOf(it->second)}); return; }
	if (isa<ConstantAggregateZero>(c)) { unsigned n = flatN(t); for (unsigned i = 0; i < n; ++i) o.push_back(Lane{}); return; }
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cd->getNumElements(); ++i) flatConst(cd->getElementAsConstant(i), o); return; }
	if (auto *ca = dyn_cast<ConstantAggregate>(c)) { for (unsigned i = 0; i < ca->getNumOperands(); ++i) flatConst(ca->getOperand(i), o); return; }
	if (auto *ce = dyn_cast<ConstantExpr>(c)) {
		switch (ce->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0); auto *gep = cast<GEPOperator>(ce);
			if (!gep->accumulateConstantOffset(*DL, off)) unsupported("constexpr gep");
			std::vector<Lane> b; flatConst(cast<Constant>(gep->getPointerOperand()), b); o.push_back(Lane{nullptr, b[0].c + off.getSExtValue()}); return; }
		case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast: flatConst(ce->getOperand(0), o); return;
		case Instruction::Sub: case Instruction::Add: { std::vector<Lane> a, b; flatConst(ce->getOperand(0), a); flatConst(ce->getOperand(1), b); o.push_back(Lane{nullptr, ce->getOpcode() == Instruction::Sub ? a[0].c - b[0].c : a[0].c + b[0].c}); return; }
		case Instruction::Trunc: { std::vector<Lane> a; flatConst(ce->getOperand(0), a); o.push_back(Lane{nullptr, a[0].c & msk(laneW(t))}); return; }
		default: break;
		}
	}
	std::string n; raw_string_ostream os(n); c->print(os); unsupported("constant " + n);
}
static Val constVal(Constant *c) { std::vector<Lane> o; flatConst(c, o); if (o.empty()) return Val::C(0); return Val::V(std::move(o)); }
static std::unordered_map<Function*, std::unordered_map<Value*, int>> regMap;
static Opd opd(Fun *f, Value *v)
{
	Opd o; o.reg = -1;
	if (auto *c = dyn_cast<Constant>(v)) { o.c = constVal(c); return o; }
	if (isa<MetadataAsValue>(v) || isa<InlineAsm>(v) || isa<BasicBlock>(v)) { o.c = Val::C(0); return o; }
	auto &m = regMap[f->F]; auto it = m.find(v); if (it == m.end()) unsupported("operand"); o.reg = it->second; return o;
}
static Fun *getFun(Function *F);
enum ExtF { X_NONE, X_SYM, X_BITS, X_ASSUME, X_ASSERT, X_REACH, X_CHOICE, X_MERGE, X_CONC, X_NOP, X_MALLOC, X_CALLOC, X_FREE, X_MEMCPY, X_MEMSET, X_MEMCMP, X_ABORT, X_ASSERTFAIL, X_GUARDACQ, X_GUARDREL, X_ZERO, X_NOTE, X_MATH, X_TT, X_ISSYM, X_FORKVAL };
static int extOf(const std::string &n)
{
	static const std::map<std::string, int> m = {
		{"sx_sym", X_SYM}, {"sx_bits", X_BITS}, {"sx_assume", X_ASSUME}, {"sx_assert", X_ASSERT}, {"sx_reach", X_REACH}, {"sx_choice", X_CHOICE}, {"sx_merge", X_MERGE}, {"sx_concretize", X_CONC}, {"sx_note", X_NOTE}, {"sx_tt", X_TT}, {"sx_is_symbolic", X_ISSYM},
		{"malloc", X_MALLOC}, {"_Znwm", X_MALLOC}, {"_Znam", X_MALLOC}, {"calloc", X_CALLOC}, {"free", X_FREE}, {"_ZdlPv", X_FREE}, {"_ZdaPv", X_FREE}, {"_ZdlPvm", X_FREE}, {"_ZdaPvm", X_FREE},
		{"_ZnwmSt11align_val_t", X_MALLOC}, {"_ZnamSt11align_val_t", X_MALLOC}, {"_ZdlPvSt11align_val_t", X_FREE}, {"_ZdaPvSt11align_val_t", X_FREE}, {"_ZdlPvmSt11align_val_t", X_FREE},
		{"memcpy", X_MEMCPY}, {"memmove", X_MEMCPY}, {"memset", X_MEMSET}, {"memcmp", X_MEMCMP}, {"bcmp", X_MEMCMP},
		{"abort", X_ABORT}, {"exit", X_ABORT}, {"_ZSt9terminatev", X_ABORT}, {"__assert_fail", X_ASSERTFAIL}, {"__cxa_guard_acquire", X_GUARDACQ}, {"__cxa_guard_release", X_GUARDREL}, {"__cxa_atexit", X_ZERO}, {"__cxa_pure_virtual", X_ABORT} };
	auto it = m.find(n); if (it != m.end()) return it->second;
	static const std::set<std::string> math = {"exp", "expf", "log", "logf", "tanh", "tanhf", "atanh", "sqrt", "sqrtf", "pow", "powf", "fabs", "fabsf", "sin", "cos", "log2", "exp2", "floor", "ceil", "round", "nearbyint", "rint", "log1p", "expm1", "log1pf", "expm1f", "fmin", "fmax", "copysign", "lrint", "roundf", "erfc", "log10", "exp10"};
	if (math.count(n)) return X_MATH;
	return X_NONE;
}
static void decode(Fun *f)
{
	if (f->decoded) return; f->decoded = true;
	Function *F = f->F; auto &rm = regMap[F];
	int n = 0; for (auto &a : F->args()) rm[&a] = n++;
	std::map<BasicBlock*, Blk*> bm; int id = 0;
	for (auto &B : *F) { auto b = std::make_unique<Blk>(); b->id = id++; b->bb = &B; bm[&B] = b.get(); f->b.push_back(std::move(b)); for (auto &I : B) if (!I.getType()->isVoidTy()) rm[&I] = n++; }
	f->nreg = n;
	for (auto &B : *F) {
		Blk *b = bm[&B];
		for (auto &I : B) {
			if (auto *p = dyn_cast<PHINode>(&I)) { Phi q; q.dst = rm[p]; for (unsigned i = 0; i < p->getNumIncomingValues(); ++i) q.in.push_back({bm[p->getIncomingBlock(i)]->id, opd(f, p->getIncomingValue(i))}); b->phis.push_back(q); continue; }
			if (isa<DbgInfoIntrinsic>(I)) continue;
			Inst x; x.op = I.getOpcode(); x.I = &I; if (!I.getType()->isVoidTy()) { x.dst = rm[&I]; flat(I.getType(), x.lw); x.w = x.lw.empty() ? 0 : x.lw[0]; }
			if (auto *c = dyn_cast<CallBase>(&I)) {
				Function *cf = c->getCalledFunction();
				if (!cf && c->getCalledOperand()) cf = dyn_cast<Function>(c->getCalledOperand()->stripPointerCasts());
				if (cf) {
					x.cname = cf->getName().str();
					if (cf->isIntrinsic() || cf->isDeclaration()) x.ext = extOf(x.cname);
					else if ((x.ext = extOf(x.cname)) == X_NONE) x.callee = getFun(cf);
					if (cf->isIntrinsic()) {
						auto iid = cf->getIntrinsicID();
						switch (iid) { case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::assume: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::stackrestore: case Intrinsic::invariant_start: case Intrinsic::invariant_end: x.ext = X_NOP; break;
						case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: x.ext = X_MEMCPY; break; case Intrinsic::memset: case Intrinsic::memset_inline: x.ext = X_MEMSET; break; default: break; }
						if (x.ext == X_NOP) continue;
						x.cname = cf->getName().str();
					}
				}
				for (auto &a : c->args()) { x.a.push_back(opd(f, a)); std::vector<unsigned> t; if (!a->getType()->isMetadataTy()) flat(a->getType(), t); x.sws.push_back(t.empty() ? 0 : t[0]); }
				if (!cf) x.a.push_back(opd(f, c->getCalledOperand()));
			} else if (auto *g = dyn_cast<GetElementPtrInst>(&I)) {
				x.a.push_back(opd(f, g->getPointerOperand()));
				i64 off = 0;
				for (gep_type_iterator it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
					if (StructType *st = it.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(it.getOperand())->getZExtValue()); continue; }
					i64 sc = DL->getTypeAllocSize(it.getIndexedType());
					if (auto *ci = dyn_cast<ConstantInt>(it.getOperand())) { off += sc * ci->getSExtValue(); continue; }
					if (it.getOperand()->getType()->isVectorTy()) unsupported("vector gep", &I);
					x.a.push_back(opd(f, it.getOperand())); x.scale.push_back(sc); x.sws.push_back(it.getOperand()->getType()->getIntegerBitWidth());
				}
				x.off = off;
			} else if (auto *br = dyn_cast<BranchInst>(&I)) {
				x.t = bm[br->getSuccessor(0)]; if (br->isConditional()) { x.a.push_back(opd(f, br->getCondition())); x.f = bm[br->getSuccessor(1)]; }
			} else {
				for (auto &a : I.operands()) if (!isa<BasicBlock>(a)) { x.a.push_back(opd(f, a)); std::vector<unsigned> t; flat(a->getType(), t); x.sws.push_back(t.empty() ? 0 : t[0]); }
				if (!x.sws.empty()) x.sw = x.sws[0];
				if (auto *c = dyn_cast<CmpInst>(&I)) x.pred = c->getPredicate();
				if (isa<AllocaInst>(I)) { auto *al = cast<AllocaInst>(&I); x.off = DL->getTypeAllocSize(al->getAllocatedType()); }
			}
			b->in.push_back(std::move(x));
		}
	}
	// immediate post-dominators, ignoring blocks that cannot reach a return
	size_t N = f->b.size(); std::vector<std::vector<int>> succ(N), pred(N); std::vector<bool> ret(N), can(N);
	for (auto &B : *F) { int i = bm[&B]->id; for (BasicBlock *s : successors(&B)) { succ[i].push_back(bm[s]->id); pred[bm[s]->id].push_back(i); } if (isa<ReturnInst>(B.getTerminator())) ret[i] = true; }
	{ std::vector<int> st; for (size_t i = 0; i < N; ++i) if (ret[i]) { can[i] = true; st.push_back(i); } while (!st.empty()) { int x = st.back(); st.pop_back(); for (int p : pred[x]) if (!can[p]) { can[p] = true; st.push_back(p); } } }
	std::vector<std::vector<bool>> pd(N, std::vector<bool>(N + 1, true));
	for (size_t i = 0; i < N; ++i) if (ret[i]) { pd[i].assign(N + 1, false); pd[i][i] = pd[i][N] = true; }
	for (bool ch = true; ch;) {
		ch = false;
		for (size_t i = N; i-- > 0;) if (!ret[i] && can[i]) {
			std::vector<bool> x(N + 1, true); for (int s : succ[i]) if (can[s]) for (size_t j = 0; j <= N; ++j) if (!pd[s][j]) x[j] = false;
			x[i] = true; if (x != pd[i]) { pd[i] = x; ch = true; }
		}
	}
	for (size_t i = 0; i < N; ++i) if (can[i]) {
		size_t best = N, bc = 0;	// the strict post-dominator with the most post-dominators itself is the nearest
		for (size_t j = 0; j < N; ++j) if (j != i && pd[i][j]) { size_t c = std::count(pd[j].begin(), pd[j].end(), true); if (c > bc) { bc = c; best = j; } }
		if (best < N) f->b[i]->ipdom = f->b[best].get();
	}
	// liveness
	std::vector<std::vector<bool>> use(N, std::vector<bool>(n)), def(N, std::vector<bool>(n)), in(N, std::vector<bool>(n)); std::vector<std::vector<bool>> phiUse(N, std::vector<bool>(n));
	for (size_t i = 0; i < N; ++i) {
		Blk *b = f->b[i].get();
		for (auto &p : b->phis) { def[i][p.dst] = true; for (auto &q : p.in) if (q.second.reg >= 0) phiUse[q.first][q.second.reg] = true; }
		std::vector<bool> d(n, false);
		for (auto &x : b->in) { for (auto &o : x.a) if (o.reg >= 0 && !d[o.reg]) use[i][o.reg] = true; if (x.dst >= 0) { d[x.dst] = true; def[i][x.dst] = true; } }
	}
	for (bool ch = true; ch;) {
		ch = false;
		for (size_t i = N; i-- > 0;) {
			std::vector<bool> x = phiUse[i]; for (int s : succ[i]) for (int j = 0; j < n; ++j) if (in[s][j]) x[j] = true;
			// in = live after the phis of the block were evaluated, without phi results defined there used only via 'live'
			std::vector<bool> y(n); for (int j = 0; j < n; ++j) y[j] = use[i][j] || (x[j] && !def[i][j]);
			for (auto &p : f->b[i]->phis) y[p.dst] = false;
			if (y != in[i]) { in[i] = y; ch = true; }
			auto &lv = f->b[i]->live; lv = y; for (auto &p : f->b[i]->phis) lv[p.dst] = use[i][p.dst] || x[p.dst];
		}
	}
}
static Fun *getFun(Function *F) { Fun *&f = funs[F]; if (!f) { f = new Fun; f->F = F; f->name = demangle(F->getName().str()); } return f; }

// ---------------------------------------------------------------- values
static inline Lane getLane(State &s, const Lane &l, unsigned w) { if (l.e == UNINIT) { E v = undefByte(s, w > 64 ? 64 : w); if (w > 64) v = mkZext(v, w); return Lane{v, 0}; } return l; }
static Val get(State &s, const Opd &o)
{
	if (o.reg >= 0) return s.st.back().r[o.reg];
	return o.c;
}
static std::shared_ptr<Model> feasible(State &s, E c);
static SP cloneState(const SP &s);
#include "ops.inc"

static bool enter(State &s, Blk *from, Blk *to)
{
	Frame &f = s.st.back();
	if (!to->phis.empty()) {
		std::vector<Val> v; v.reserve(to->phis.size());
		for (auto &p : to->phis) {
			bool ok = false;
			for (auto &q : p.in) if (q.first == from->id) { v.push_back(get(s, q.second)); ok = true; break; }
			if (!ok) unsupported("phi");
		}
		for (size_t i = 0; i < v.size(); ++i) f.r[to->phis[i].dst] = v[i];
	}
	f.prev = from->id; f.b = to; f.pc = 0;
	return true;
}

// ---------------------------------------------------------------- merging
static E conj(const std::vector<E> &v, size_t from) { E r = mkB(true); for (size_t i = from; i < v.size(); ++i) r = mkAnd(r, v[i]); return r; }
static bool mergeLane(Lane &o, const Lane &a, const Lane &b, E g, unsigned w)
{
	if (a.e == b.e && a.c == b.c) { o = a; return true; }
	if (a.e == UNINIT) { o = b; return true; }
	if (b.e == UNINIT) { o = a; return true; }
	E x = toE(a, w), y = toE(b, w);
	if (x->w != y->w) return false;
	E r = mkIte(g, x, y); o = r->w <= 64 ? fromE(r) : Lane{r, 0};
	return true;
}
static const std::vector<unsigned> &regW(Fun *f, int reg);
static std::unordered_map<Fun*, std::vector<std::vector<unsigned>>> regWs;
static const std::vector<unsigned> &regW(Fun *f, int reg)
{
	auto &v = regWs[f];
	if (v.empty()) { v.resize(f->nreg); for (auto &p : regMap[f->F]) { std::vector<unsigned> t; flat(p.first->getType(), t); v[p.second] = t; } }
	return v[reg];
}
// mode 2: refuse to merge when concrete live integers differ
static bool compatible(State &a, State &b, int mode)
{
	if (a.st.size() != b.st.size() || a.seq != b.seq || a.merge != b.merge || a.tag != b.tag) return false;
	for (size_t i = 0; i < a.st.size(); ++i) if (a.st[i].f != b.st[i].f || a.st[i].b != b.st[i].b || a.st[i].pc != b.st[i].pc) return false;
	if (mode == 2) for (size_t i = 0; i < a.st.size(); ++i) {
		Frame &x = a.st[i], &y = b.st[i];
		for (int r = 0; r < x.f->nreg; ++r) {
			if (i + 1 == a.st.size() && !x.b->live[r]) continue;
			if (!x.r[r].def || !y.r[r].def || x.r[r].n() != y.r[r].n()) continue;
			unsigned w = regW(x.f, r).empty() ? 0 : regW(x.f, r)[0];
			if (w >= 16) for (size_t j = 0; j < x.r[r].n(); ++j) { const Lane &p = x.r[r].at(j), &q = y.r[r].at(j); if (!p.e && !q.e && p.c != q.c) return false; }
		}
	}
	return true;
}
static bool mergeObj(State &st, ObjP &dst, const ObjP &a, const ObjP &b, E g)
{
	if (a->size != b->size) return false;
	auto o = std::make_shared<Obj>(*b); dst = o;
	U n = a->size;
	auto cell = [&](const ObjP &p, U i) -> Cell { if (p->s.empty()) return Cell{}; return p->s[i]; };
	for (U i = 0; i < n;) {
		Cell x = cell(a, i), y = cell(b, i);
		bool same = x.e == y.e && (x.e ? x.idx == y.idx && x.tot == y.tot : a->b[i] == b->b[i]);
		if (same) { ++i; continue; }
		if (x.e == UNINIT) { ++i; continue; }
		if (y.e == UNINIT) { if (x.e) putCell(o.get(), i, x); else putByte(o.get(), i, a->b[i]); ++i; continue; }
		unsigned tot = x.e && x.idx == 0 ? x.tot : y.e && y.idx == 0 ? y.tot : 1;
		if (tot > 1) {	// whole words on both sides
			auto wholeOrConst = [&](const ObjP &p) { if (i + tot > n) return false; Cell c = cell(p, i); if (c.e && c.e != UNINIT && c.idx == 0 && c.tot == tot) { for (unsigned j = 1; j < tot; ++j) { Cell d = cell(p, i + j); if (d.e != c.e || d.idx != j) return false; } return true; } for (unsigned j = 0; j < tot; ++j) if (cell(p, i + j).e) return false; return true; };
			if (wholeOrConst(a) && wholeOrConst(b)) {
				auto val = [&](const ObjP &p) -> E { Cell c = cell(p, i); if (c.e) return c.e; U v = 0; memcpy(&v, &p->b[i], tot); return mkC(8 * tot, v); };
				E r = mkIte(g, val(a), val(b));
				if (r->isC()) storeC(o.get(), i, r->c, tot); else for (unsigned j = 0; j < tot; ++j) putCell(o.get(), i + j, Cell{r, (u8)j, (u8)tot});
				i += tot; continue;
			}
		}
		auto byte = [&](const ObjP &p) -> E { Cell c = cell(p, i); if (!c.e) return mkC(8, p->b[i]); return mkExtract(c.e, c.idx * 8 + 7, c.idx * 8); };
		E r = mkIte(g, byte(a), byte(b));
		if (r->isC()) putByte(o.get(), i, r->c); else putCell(o.get(), i, Cell{r, 0, 1});
		++i;
	}
	return true;
}
static bool onTrace(State &s)
{
	Model m; for (u32 i = 0; i < g_vars.size(); ++i) { auto f = fixedIn.find(g_vars[i].seq); m.var[i] = f == fixedIn.end() ? 0 : f->second & msk(g_vars[i].w); }
	for (E p : s.pc) if (!m.eval(p)) return false;
	return true;
}
static bool mergeInto(SP &acc, SP &s, size_t base, int mode)
{
	struct T { State &a, &b; bool x = false, y = false, done = false; T(State &p, State &q) : a(p), b(q) { if (traceRun) x = onTrace(a), y = onTrace(b); } ~T() { if (traceRun) { bool z = onTrace(b); if (x || y || z) printf("MERGE a %d b %d -> %d done %d pc %zu %zu\n", x, y, z, done, a.pc.size(), b.pc.size()); } } } tr(*s, *acc);
	State &a = *s, &b = *acc;	// result: ite(guard(a), a, b)
	if (!compatible(a, b, mode)) return false;
	E ga = conj(a.pc, base), gb = conj(b.pc, base);
	for (size_t i = 0; i < a.st.size(); ++i) {
		Frame &x = a.st[i], &y = b.st[i];
		for (int r = 0; r < x.f->nreg; ++r) {
			if (!x.r[r].def && !y.r[r].def) continue;
			if (i + 1 == a.st.size() && !x.b->live[r]) { y.r[r] = Val(); continue; }
			if (!x.r[r].def || !y.r[r].def) { y.r[r] = x.r[r].def ? x.r[r] : y.r[r]; continue; }
			const std::vector<unsigned> &w = regW(x.f, r);
			if (x.r[r].n() != y.r[r].n()) { y.r[r] = Val(); continue; }
			bool diff = false;
			for (size_t j = 0; j < x.r[r].n() && !diff; ++j) diff = x.r[r].at(j).e != y.r[r].at(j).e || x.r[r].at(j).c != y.r[r].at(j).c;
			if (!diff) continue;
			std::vector<Lane> v(x.r[r].n());
			for (size_t j = 0; j < v.size(); ++j) if (!mergeLane(v[j], x.r[r].at(j), y.r[r].at(j), ga, w[j])) unsupported("merge width");
			y.r[r] = Val::V(std::move(v));
		}
		for (u32 id : x.allocas) if (std::find(y.allocas.begin(), y.allocas.end(), id) == y.allocas.end()) y.allocas.push_back(id);
	}
	for (auto &p : a.mem) {
		auto it = b.mem.find(p.first);
		if (it == b.mem.end()) { b.mem[p.first] = p.second; continue; }
		if (it->second == p.second) continue;
		ObjP r; if (!mergeObj(b, r, p.second, it->second, ga)) unsupported("merge object"); it->second = r;
	}
	E g = mkOr(ga, gb);
	b.pc.resize(base); b.known.clear(); for (E e : b.pc) know(b, e);
	addPC(b, g);
	b.undefUsed |= a.undefUsed;
	std::set<u32> have; for (auto &p : b.syms) have.insert(p.second->id); for (auto &p : a.syms) if (!have.count(p.second->id)) b.syms.push_back(p);
	++nMerges; tr.done = true;
	return true;
}

// ---------------------------------------------------------------- the interpreter
static void cover(Blk *b)
{
	b->seen = true;
	for (auto &x : b->in) {
		const DILocation *d = x.I->getDebugLoc().get();
		while (d) {
			auto *sp = d->getScope() ? d->getScope()->getSubprogram() : nullptr; std::string fn = d->getFilename().str();
			if (fn.find(srcFilter) != std::string::npos) {
				size_t q = fn.rfind('/'); std::string bn = q == std::string::npos ? fn : fn.substr(q + 1);
				if (sp) executed.insert(bn + ":" + (sp->getLinkageName().empty() ? sp->getName().str() : demangle(sp->getLinkageName().str())));
				if (d->getLine()) linesHit[bn].insert(d->getLine());
			}
			d = d->getInlinedAt();
		}
	}
}
static bool popFrame(State &s, Val rv)
{
	Frame &f = s.st.back(); int rr = f.retReg;
	for (u32 id : f.allocas) s.mem.erase(id);
	s.st.pop_back();
	if (!s.st.empty() && rr >= 0) { rv.def = true; s.st.back().r[rr] = rv; }
	return !s.st.empty();
}
static void pushCall(State &s, Fun *f, std::vector<Val> &args, int retReg)
{
	decode(f);
	if (s.st.size() > 2000) unsupported("call depth");
	s.st.emplace_back(); Frame &fr = s.st.back(); fr.f = f; fr.b = f->b[0].get(); fr.pc = 0; fr.r.resize(f->nreg); fr.retReg = retReg;
	for (size_t i = 0; i < args.size() && i < f->F->arg_size(); ++i) { fr.r[i] = args[i]; fr.r[i].def = true; }
}
static SP cloneState(const SP &s) { ++nForks; return std::make_shared<State>(*s); }
static std::vector<SP> run(SP s, size_t depth, Blk *stop);

// continue several states to the same stop
static std::vector<SP> runAll(std::vector<SP> v, size_t depth, Blk *stop)
{
	std::vector<SP> out;
	for (auto &s : v) { SP t = s; s.reset(); auto r = run(t, depth, stop); for (auto &x : r) out.push_back(x); }
	return out;
}
static std::vector<SP> mergeSet(std::vector<SP> v, size_t base, int mode)
{
	std::vector<SP> out;
	for (auto &s : v) {
		bool done = false;
		for (auto &o : out) if (mergeInto(o, s, base, mode)) { done = true; break; }
		if (!done) { if (!out.empty()) ++nMergeRefused; out.push_back(s); }
	}
	return out;
}
static bool atStop(State &s, size_t depth, Blk *stop)
{
	if (stop) return s.st.size() == depth && s.st.back().b == stop && s.st.back().pc == 0;
	return s.st.size() < depth;
}
// feasibility of c on s: returns witness or null
static std::shared_ptr<Model> feasible(State &s, E c)
{
	if (c->isC()) return c->c ? s.wit : nullptr;
	if (s.known.count(c->id)) return s.wit;
	if (s.wit->eval(c)) return s.wit;
	if (s.known.count(mkNot(c)->id)) return nullptr;
	if (verbose && getenv("SX_DBG")) fprintf(stderr, "%.1f branch %s\n", elapsed(), show(c, atoi(getenv("SX_DBG"))).c_str());
	auto m = std::make_shared<Model>(); Res r = check(s, c, m.get());
	if (r == UNK_) finish(3, "solver undecided: branch");
	if (r == UNSAT_) return nullptr;
	return m;
}
// one state per feasible value of a symbolic address into an object with symbolic contents
static bool forkAddress(SP &sp, int reg, std::vector<SP> &forked)
{
	State &s = *sp; Val &pv = s.st.back().r[reg]; if (pv.n() != 1) return false;
	Lane l = pv.at(0); if (!l.e || l.e == UNINIT || topIte(l.e)) return false;
	u32 id; objBase(l.e, id); ObjP *o = id ? findObj(s, id) : nullptr; if (!o || (*o)->ro || (*o)->s.empty()) return false;
	State cur = s; unsigned n = 0; std::vector<std::pair<u64, std::shared_ptr<Model>>> vals;
	for (;;) {
		u64 v = cur.wit->eval(l.e); E q = mkEq(l.e, mkC(64, v)); vals.push_back({v, cur.wit});
		auto m = std::make_shared<Model>(); E nq = mkNot(q); Res r = nq->isC() ? (nq->c ? SAT_ : UNSAT_) : check(cur, nq, m.get());
		if (r == UNK_) finish(3, "solver undecided: address"); if (r == UNSAT_) break;
		cur.wit = m; addPC(cur, nq); if (++n > 300) return false;
	}
	for (auto &v : vals) {
		SP t = cloneState(sp); t->wit = v.second; addPC(*t, mkEq(l.e, mkC(64, v.first)));
		t->st.back().r[reg] = Val::C(v.first); --t->st.back().pc; if (vals.size() > 1) t->tag = t->tag * 1000003 + v.first + 1; forked.push_back(t);
	}
	return true;
}
static std::vector<SP> run(SP sp, size_t depth, Blk *stop)
{
	State *s = sp.get();
	for (;;) {
		Frame *fr = &s->st.back();
		if (!fr->b->seen) cover(fr->b);
		Inst &x = fr->b->in[fr->pc++];
		if ((++nInst & 0xffff) == 0) {
			if (nInst > maxInst) finish(3, "instruction limit");
			if (elapsed() > maxTime) finish(3, "time limit");
		}
		switch (x.op) {
		case Instruction::Br: {
			Blk *cur = fr->b, *to;
			if (!x.f) to = x.t;
			else {
				Lane c = getLane(*s, get(*s, x.a[0]).at(0), 1);
				if (!c.e) to = c.c ? x.t : x.f;
				else {
					auto wt = feasible(*s, c.e); E nc = mkNot(c.e);
					std::shared_ptr<Model> wf = wt == s->wit || !wt ? nullptr : s->wit;
					if (traceRun) { Model m; for (u32 i = 0; i < g_vars.size(); ++i) { auto f = fixedIn.find(g_vars[i].seq); m.var[i] = f == fixedIn.end() ? 0 : f->second & msk(g_vars[i].w); }
						bool on = true; for (E p : s->pc) if (!m.eval(p)) on = false;
						if (on) printf("BR %s line %d cond %llu wt %d wf %d  %s\n", s->st.back().f->name.c_str() + (s->st.back().f->name.size() > 40 ? s->st.back().f->name.size() - 40 : 0), x.I->getDebugLoc() ? x.I->getDebugLoc().getLine() : 0, (unsigned long long)m.eval(c.e), !!wt, !!wf, show(c.e, 12).c_str()); }
					if (!wt) { addPC(*s, nc); to = x.f; }
					else {
						if (!wf) wf = feasible(*s, nc);
						if (!wf) { s->wit = wt; addPC(*s, c.e); to = x.t; }
						else if (x.t == x.f) to = x.t;
						else {
							size_t base = s->pc.size(); int mode = s->merge & 3;
							SP a = cloneState(sp), b = sp; s = nullptr; sp.reset();
							a->wit = wt; addPC(*a, c.e); enter(*a, cur, x.t);
							b->wit = wf; addPC(*b, nc); enter(*b, cur, x.f);
							if (!mode) {
								std::vector<SP> r; for (SP *p : {&a, &b}) { SP q = *p; p->reset(); if (atStop(*q, depth, stop)) { r.push_back(q); continue; } auto t = run(q, depth, stop); for (auto &y : t) r.push_back(y); }
								return r;
							}
							Blk *ip = cur->ipdom; size_t d = a->st.size();
							std::vector<SP> all;
							for (SP *p : {&a, &b}) { SP q = *p; p->reset(); if (atStop(*q, d, ip)) { all.push_back(q); continue; } auto t = run(q, d, ip); for (auto &y : t) all.push_back(y); }
							all = mergeSet(all, base, mode);
							if (all.empty()) return {};
							std::vector<SP> r, go;
							for (auto &q : all) if (atStop(*q, depth, stop)) r.push_back(q); else go.push_back(q);
							all.clear();
							if (r.empty() && go.size() == 1) { sp = go[0]; go.clear(); s = sp.get(); continue; }
							for (auto &y : runAll(std::move(go), depth, stop)) r.push_back(y);
							return r;
						}
					}
				}
			}
			enter(*s, cur, to);
			if (atStop(*s, depth, stop)) return {sp};
			continue; }
		case Instruction::Switch: {
			auto *si = cast<SwitchInst>(x.I); Lane c = getLane(*s, get(*s, x.a[0]).at(0), x.sw);
			Blk *cur = fr->b; Fun *f = fr->f;
			auto blkOf = [&](BasicBlock *b) { for (auto &p : f->b) if (p->bb == b) return p.get(); abort(); };
			if (!c.e) {
				BasicBlock *d = si->getDefaultDest(); for (auto &cs : si->cases()) if (cs.getCaseValue()->getZExtValue() == c.c) d = cs.getCaseSuccessor();
				enter(*s, cur, blkOf(d)); if (atStop(*s, depth, stop)) return {sp}; continue;
			}
			std::vector<std::pair<E, BasicBlock*>> tg; E rest = mkB(true);
			for (auto &cs : si->cases()) { E q = mkEq(c.e, mkC(x.sw, cs.getCaseValue()->getZExtValue())); rest = mkAnd(rest, mkNot(q)); bool f = false; for (auto &t : tg) if (t.second == cs.getCaseSuccessor()) { t.first = mkOr(t.first, q); f = true; } if (!f) tg.push_back({q, cs.getCaseSuccessor()}); }
			{ bool f = false; for (auto &t : tg) if (t.second == si->getDefaultDest()) { t.first = mkOr(t.first, rest); f = true; } if (!f) tg.push_back({rest, si->getDefaultDest()}); }
			size_t base = s->pc.size(); int mode = s->merge & 3; std::vector<SP> st;
			for (auto &t : tg) { auto w = feasible(*s, t.first); if (!w) continue; SP a = cloneState(sp); a->wit = w; addPC(*a, t.first); enter(*a, cur, blkOf(t.second)); st.push_back(a); }
			sp.reset(); s = nullptr;
			if (!mode) { std::vector<SP> r; for (auto &q0 : st) { SP q = q0; q0.reset(); if (atStop(*q, depth, stop)) { r.push_back(q); continue; } for (auto &y : run(q, depth, stop)) r.push_back(y); } return r; }
			Blk *ip = cur->ipdom; size_t d = st[0]->st.size(); std::vector<SP> all;
			for (auto &q0 : st) { SP q = q0; q0.reset(); if (atStop(*q, d, ip)) { all.push_back(q); continue; } for (auto &y : run(q, d, ip)) all.push_back(y); }
			all = mergeSet(all, base, mode); std::vector<SP> r, go;
			for (auto &q : all) if (atStop(*q, depth, stop)) r.push_back(q); else go.push_back(q);
			for (auto &y : runAll(std::move(go), depth, stop)) r.push_back(y);
			return r; }
		case Instruction::Ret: {
			Val rv; if (!x.a.empty()) rv = get(*s, x.a[0]);
			if (!popFrame(*s, rv)) { ++nPaths; return {sp}; }
			if (atStop(*s, depth, stop)) return {sp};
			continue; }
		case Instruction::Unreachable:
			{ Model m = *s->wit; violation(*s, "unreachable", "unreachable code executed", m); ++nDropped; return {}; }
		case Instruction::Call: {
			if (x.ext == X_NONE && x.callee) { std::vector<Val> a; for (auto &o : x.a) a.push_back(get(*s, o)); pushCall(*s, x.callee, a, x.dst); continue; }
			if (x.cname.empty()) {
				Lane p = get(*s, x.a.back()).at(0); if (p.e) unsupported("symbolic call", x.I);
				auto it = fnAt.find(p.c >> 32); if (it == fnAt.end()) unsupported("indirect call", x.I);
				std::vector<Val> a; for (size_t i = 0; i + 1 < x.a.size(); ++i) a.push_back(get(*s, x.a[i])); pushCall(*s, getFun(it->second), a, x.dst); continue;
			}
			std::vector<SP> forked;
			int r = callExt(sp, x, forked);
			if (r == 0) { ++nDropped; return {}; }
			if (r == 2) {	// forked
				sp.reset(); s = nullptr;
				return runAll(std::move(forked), depth, stop);
			}
			continue; }
		default:
			if ((s->merge & 4) && (x.op == Instruction::Load || x.op == Instruction::Store)) {
				Opd &po = x.a[x.op == Instruction::Store]; std::vector<SP> forked;
				if (po.reg >= 0 && forkAddress(sp, po.reg, forked)) { sp.reset(); s = nullptr; return runAll(std::move(forked), depth, stop); }
			}
			if (traceRun && onTrace(*s)) { std::string t; raw_string_ostream os(t); x.I->print(os); printf("EX %s\n", t.c_str()); }
			if (!execOp(*s, x)) { if (traceRun) printf("DROP on %d\n", onTrace(*s)); ++nDropped; return {}; }
			if (traceRun && x.dst >= 0) {
				static Model m; if (m.var.empty()) for (auto &v : g_vars) {}
				m.var.clear(); for (u32 i = 0; i < g_vars.size(); ++i) { auto f = fixedIn.find(g_vars[i].seq); m.var[i] = f == fixedIn.end() ? 0 : f->second & msk(g_vars[i].w); } m.val.clear(); m.have.clear();
				bool on = true; for (E p : s->pc) if (!m.eval(p)) { on = false; break; }
				if (on) { auto &v = s->st.back().r[x.dst]; const DILocation *d = x.I->getDebugLoc().get(); printf("%s %s:%d", s->st.back().f->name.c_str(), x.I->getOpcodeName(), d ? d->getLine() : 0); for (size_t j = 0; j < v.n() && j < 8; ++j) if (!x.I->getType()->isPointerTy()) printf(" %llu", (unsigned long long)(v.at(j).e ? v.at(j).e == UNINIT ? 0xdead : m.eval(v.at(j).e) : v.at(j).c)); printf("\n"); }
			}
		}
	}
}

// ---------------------------------------------------------------- output
static std::string js(const std::string &s) { std::string r = "\""; for (char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c == '\n') r += "\\n"; else if ((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
static std::string outFile, statusStr;
static void finish(int code, const std::string &why)
{
	std::ostringstream o;
	o << "{\"code\":" << code << ",\"why\":" << js(why) << ",\"time\":" << elapsed() << ",\"instructions\":" << nInst << ",\"paths\":" << nPaths << ",\"dropped\":" << nDropped << ",\"forks\":" << nForks << ",\"merges\":" << nMerges << ",\"merges_refused\":" << nMergeRefused
	  << ",\"asserts\":" << nAssert << ",\"asserts_by_normalisation\":" << nAssertSimp << ",\"asserts_by_solver\":" << nAssertSolver << ",\"memory_checks\":" << nOob << ",\"symbolic_loads\":" << nSymLoad << ",\"symbolic_stores\":" << nSymStore << ",\"uninitialised_reads\":" << nUndef
	  << ",\"expressions\":" << g_nexpr << ",\"variables\":" << g_vars.size() << ",\"table_rewrites\":" << g_tt_rewrites << ",\"table_time\":" << g_tt_time
	  << ",\"solver\":{\"queries\":" << g_ss.queries << ",\"by_simplification\":" << g_ss.bySimp << ",\"by_minisat\":" << g_ss.byMini << ",\"by_portfolio\":" << g_ss.byExt << ",\"sat\":" << g_ss.sat << ",\"unsat\":" << g_ss.unsat << ",\"undecided\":" << g_ss.unk << ",\"time\":" << g_ss.time << ",\"portfolio_time\":" << g_ss.extTime << ",\"max_gates\":" << g_ss.maxVars << ",\"cross_checked\":" << g_crossChecked << ",\"wins\":{";
	bool first = true; for (auto &p : g_ss.extWins) { if (!first) o << ","; first = false; o << js(p.first) << ":" << p.second; }
	o << "}},\"bits\":" << [&] { U b = 0; for (auto &v : g_vars) if (!v.undef) b += v.w; return b; }() << ",\"reached\":{"; first = true;
	for (auto &p : reached) { if (!first) o << ","; first = false; o << js(p.first) << ":" << p.second; }
	o << "},\"assertions\":{"; first = true;
	for (auto &p : assertNames) { if (!first) o << ","; first = false; o << js(p.first) << ":" << p.second; }
	o << "},\"functions\":["; first = true;
	for (auto &p : executed) { if (!first) o << ","; first = false; o << js(p); }
	o << "],\"lines\":{"; first = true;
	for (auto &p : linesHit) { if (!first) o << ","; first = false; o << js(p.first) << ":["; bool g = true; for (unsigned l : p.second) { if (!g) o << ","; g = false; o << l; } o << "]"; }
	o << "},\"violations\":["; first = true;
	for (auto &v : viols) {
		if (!first) o << ","; first = false;
		o << "{\"kind\":" << js(v.kind) << ",\"msg\":" << js(v.msg) << ",\"undef\":" << (v.undef ? "true" : "false") << ",\"where\":" << js(v.where) << ",\"inputs\":[";
		bool g = true; for (auto &p : v.in) { if (!g) o << ","; g = false; o << "[" << p.first << "," << p.second.first << "," << p.second.second << "]"; }
		o << "]}";
	}
	o << "]}\n";
	if (outFile.empty()) fputs(o.str().c_str(), stdout); else { std::ofstream(outFile) << o.str(); }
	fflush(stdout);
	_exit(code);
}

static void initGlobal(State &s, Obj *o, U off, Constant *c)
{
	Type *t = c->getType();
	if (isa<ConstantAggregateZero>(c) || isa<ConstantPointerNull>(c)) { U n = DL->getTypeStoreSize(t); for (U i = 0; i < n; ++i) putByte(o, off + i, 0); return; }
	if (isa<UndefValue>(c)) { U n = DL->getTypeStoreSize(t); for (U i = 0; i < n; ++i) putByte(o, off + i, 0); return; }
	if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *l = DL->getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); ++i) initGlobal(s, o, off + l->getElementOffset(i), cs->getOperand(i)); return; }
	if (auto *ca = dyn_cast<ConstantArray>(c)) { U es = DL->getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); ++i) initGlobal(s, o, off + es * i, ca->getOperand(i)); return; }
	if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { U es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); ++i) initGlobal(s, o, off + es * i, cd->getElementAsConstant(i)); return; }
	std::vector<Lane> v; flatConst(c, v); std::vector<unsigned> w; flat(t, w);
	for (size_t i = 0; i < v.size(); ++i) { storeLane(o, off, v[i].e == UNINIT ? Lane{} : v[i], w[i]); off += (w[i] + 7) / 8; }
}
static std::string bcFile, entry = "harness";
static void *mainThread(void *)
{
	LLVMContext C; SMDiagnostic D; auto mod = parseIRFile(bcFile, D, C);
	if (!mod) { D.print("symx", errs()); finish(3, "cannot read " + bcFile); }
	M = mod.get(); DL = &M->getDataLayout();
	auto s = std::make_shared<State>(); s->wit = std::make_shared<Model>(); s->merge = 0;
	for (auto &F : *M) { u32 id = nextObj++; gid[&F] = id; fnAt[id] = &F; }
	for (auto &G : M->globals()) { U sz = G.getValueType()->isSized() ? (U)DL->getTypeAllocSize(G.getValueType()) : 8; auto o = newObj(*s, sz, G.getName().str()); gid[&G] = o->id; }
	for (auto &A : M->aliases()) { auto *b = dyn_cast<GlobalValue>(A.getAliasee()->stripPointerCasts()); if (b && gid.count(b)) gid[&A] = gid[b]; }
	for (auto &G : M->globals()) {
		Obj *o = s->mem[gid[&G]].get();
		if (G.hasInitializer()) { for (U i = 0; i < o->size; ++i) putByte(o, i, 0); initGlobal(*s, o, 0, G.getInitializer()); } else for (U i = 0; i < o->size; ++i) putByte(o, i, 0);
		o->ro = G.isConstant();
	}
	auto call = [&](Function *F) {
		std::vector<Val> none; pushCall(*s, getFun(F), none, -1);
		auto r = run(s, 0, nullptr); return r;
	};
	if (auto *gc = M->getNamedGlobal("llvm.global_ctors")) if (auto *arr = dyn_cast<ConstantArray>(gc->getInitializer()))
		for (auto &op : arr->operands()) { auto *F = dyn_cast<Function>(cast<ConstantStruct>(op)->getOperand(1)->stripPointerCasts()); auto r = call(F); if (r.size() != 1) finish(3, "constructor"); s = r[0]; }
	nPaths = 0;
	Function *F = M->getFunction(entry); if (!F || F->isDeclaration()) finish(3, "no entry " + entry);
	auto r = call(F);
	finish(viols.empty() ? 0 : 1, viols.empty() ? "complete" : "violations");
	return nullptr;
}
int main(int argc, char **argv)
{
	tStart = std::chrono::steady_clock::now();
	for (int i = 1; i < argc; ++i) {
		std::string a = argv[i]; auto nx = [&] { return std::string(argv[++i]); };
		if (a == "-o") outFile = nx(); else if (a == "--entry") entry = nx(); else if (a == "--tt") g_ttbits = std::stoi(nx()); else if (a == "--time") maxTime = std::stod(nx());
		else if (a == "--inputs" || a == "--fix") { concreteRun = a == "--inputs"; std::ifstream in(nx()); u32 q; u64 v; while (in >> q >> v) fixedIn[q] = v; } else if (a == "--trace") traceRun = true; else if (a == "--budget") g_miniBudget = std::stoll(nx()); else if (a == "--ext-timeout") g_extTimeout = std::stod(nx()); else if (a == "--tmp") g_tmpdir = nx(); else if (a == "--cross") g_crossCheck = true; else if (a == "--abs") g_absAdd = true; else if (a == "--portfolio") g_portfolio = std::stoi(nx());
		else if (a == "--max-viol") maxViol = std::stoull(nx()); else if (a == "--max-inst") maxInst = std::stoull(nx()); else if (a == "-v") verbose = true; else if (a == "--src") srcFilter = nx(); else if (a == "--nonan") assumeNoNaN = true;
		else bcFile = a;
	}
	pthread_attr_t at; pthread_attr_init(&at); size_t sz = (size_t)8 << 30;
	void *stk = mmap(nullptr, sz, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
	if (stk == MAP_FAILED) { fprintf(stderr, "stack\n"); return 3; }
	pthread_attr_setstack(&at, stk, sz);
	std::thread([] { for (;;) { usleep(200000); if (elapsed() > maxTime + 2) finish(3, "time limit"); } }).detach();
	pthread_t t; if (pthread_create(&t, &at, mainThread, nullptr)) { fprintf(stderr, "thread\n"); return 3; }
	pthread_join(t, nullptr);
	return 0;
}
