// Hash-consed bit-vector expressions with on-the-fly normalisation.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstring>
#include <vector>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <functional>
#include <memory>
#include <algorithm>
#include <cassert>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8; typedef unsigned __int128 u128; typedef __int128 i128;

enum Op : u8 {
	CONST, VAR, ADD, MUL, UDIV, UREM, SDIV, SREM, AND, OR, XOR, SHL, LSHR, ASHR,
	ITE, EQ, ULT, SLT, CONCAT, EXTRACT, SEXT, TABLE, UF
};

struct Expr;
typedef const Expr *E;

struct Table {
	u32 id, ew;
	std::vector<u64> val;
	u64 lo, hi;
};

struct Expr {
	Op op;
	u8 leafy;	// >0: ITE tree whose leaves are all constants (number of distinct leaves, saturating)
	u16 w;
	u32 id, n;
	u64 c;		// CONST value, ADD constant, EXTRACT low bit, TABLE id, VAR index, UF kind
	u64 umin, umax;	// unsigned range (w<=64)
	i64 smin, smax;	// signed range (w<=64)
	u64 hash;
	const E *k;
	const u64 *co;	// ADD coefficients
	bool isC() const { return op == CONST; }
};

static inline u64 msk(unsigned w) { return w >= 64 ? ~(u64)0 : (((u64)1 << w) - 1); }
static inline i64 sx(u64 v, unsigned w) { return w >= 64 ? (i64)v : (i64)(v << (64 - w)) >> (64 - w); }

struct VarInfo { std::string name; unsigned w; u32 seq; bool undef; };
extern std::vector<VarInfo> g_vars;
extern std::vector<Table*> g_tables;
extern std::vector<std::string> g_ufs;
extern unsigned g_ttbits;	// >0: canonicalise small-support functions
extern u64 g_nexpr, g_tt_rewrites;
u32 numExprs();

E mkC(unsigned w, u64 v);
static inline E mkB(bool b) { return mkC(1, b); }
E mkVar(unsigned w, const std::string &name, u32 seq, bool undef = false);
E mkAdd(E a, E b);
E mkSub(E a, E b);
E mkNeg(E a);
E mkMul(E a, E b);
E mkUDiv(E a, E b);
E mkURem(E a, E b);
E mkSDiv(E a, E b);
E mkSRem(E a, E b);
E mkAnd(E a, E b);
E mkOr(E a, E b);
E mkXor(E a, E b);
E mkNot(E a);
E mkShl(E a, E b);
E mkLShr(E a, E b);
E mkAShr(E a, E b);
E mkIte(E c, E t, E e);
E mkEq(E a, E b);
E mkUlt(E a, E b);
E mkSlt(E a, E b);
static inline E mkUle(E a, E b) { return mkNot(mkUlt(b, a)); }
static inline E mkSle(E a, E b) { return mkNot(mkSlt(b, a)); }
static inline E mkNe(E a, E b) { return mkNot(mkEq(a, b)); }
E mkConcat(E hi, E lo);
E mkConcatV(const std::vector<E> &hiToLo);
E mkExtract(E a, unsigned hi, unsigned lo);
E mkZext(E a, unsigned w);
E mkSext(E a, unsigned w);
E mkTrunc(E a, unsigned w);
E mkTable(Table *t, E idx);
E mkUF(const std::string &kind, unsigned w, const std::vector<E> &args);
Table *internTable(unsigned ew, const std::vector<u64> &val);

// Concrete evaluation under an assignment of the variables.
struct Model {
	std::unordered_map<u32, u64> var;	// by VAR index; missing = 0
	std::unordered_map<u32, u64> uf;	// by expression id; missing = 0
	std::vector<u64> val; std::vector<u8> have;
	u64 eval(E e);
};
u64 evalOp(E e, const u64 *kv);
std::string show(E e, int depth = 6);
extern double g_tt_time;
E fnRow(E e, unsigned n);
bool hasFn(E e);	// represented by a complete function table
E substitute(E e, const std::unordered_map<E, E> &m, std::unordered_map<E, E> &memo);
E rebuild(E e, const std::vector<E> &k);
extern bool g_absAdd;	// linear forms stay whole in comparisons, for abstraction in the solver
