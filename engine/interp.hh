// Symbolic interpreter for LLVM IR.
#pragma once
#include "expr.hh"
#include "solver.hh"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <map>
#include <set>

struct Lane { E e = nullptr; u64 c = 0; };
struct Val {
	Lane l; std::shared_ptr<std::vector<Lane>> m; bool def = false;
	size_t n() const { return m ? m->size() : 1; }
	const Lane &at(size_t i) const { return m ? (*m)[i] : l; }
	static Val C(u64 c) { Val v; v.l.c = c; v.def = true; return v; }
	static Val S(const Lane &x) { Val v; v.l = x; v.def = true; return v; }
	static Val V(std::vector<Lane> &&x) { Val v; v.def = true; if (x.size() == 1) v.l = x[0]; else v.m = std::make_shared<std::vector<Lane>>(std::move(x)); return v; }
};
static inline E toE(const Lane &l, unsigned w) { return l.e ? l.e : mkC(w, l.c); }
static inline Lane fromE(E e) { Lane l; if (e->isC()) l.c = e->c; else l.e = e; return l; }

struct Cell { E e = nullptr; u8 idx = 0, tot = 0; };
extern const E UNINIT;
struct Obj {
	u32 id; u64 size; bool ro = false, heap = false; std::string name;
	std::vector<u8> b; std::vector<Cell> s; u64 nsym = 0;
};
typedef std::shared_ptr<Obj> ObjP;

struct Opd { int reg; Val c; };
struct Blk;
struct Inst {
	unsigned op; int dst = -1; unsigned w = 0, sw = 0;	// result / source lane width
	std::vector<Opd> a; llvm::Instruction *I; std::vector<unsigned> lw;	// lane widths of the result (aggregates, vectors)
	unsigned pred = 0; Blk *t = nullptr, *f = nullptr; i64 off = 0; std::vector<i64> scale; std::vector<unsigned> sws; struct Fun *callee = nullptr; std::string cname; int ext = -1;
};
struct Phi { int dst; std::vector<std::pair<int, Opd>> in; };
struct Blk { int id; std::vector<Phi> phis; std::vector<Inst> in; Blk *ipdom = nullptr; std::vector<bool> live; bool seen = false; llvm::BasicBlock *bb; };
struct Fun { llvm::Function *F; std::vector<std::unique_ptr<Blk>> b; int nreg = 0; bool decoded = false; std::string name; };
struct Frame { Fun *f; Blk *b; u32 pc; std::vector<Val> r; std::vector<u32> allocas; int retReg; int prev = -1; };
struct State {
	std::vector<Frame> st;
	std::unordered_map<u32, ObjP> mem;
	std::vector<E> pc; std::unordered_set<u32> known;
	std::shared_ptr<Model> wit;
	u32 seq = 0; int merge = 1; bool undefUsed = false; u64 tag = 0;	// tag: addresses chosen so far, states that chose differently stay apart
	std::vector<std::pair<u32, E>> syms;	// (seq, expression) in order of creation
	u64 fuel = 0;
};
typedef std::shared_ptr<State> SP;
