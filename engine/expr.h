// Hash-consed bit-vector terms with aggressive local simplification.
#pragma once
#include <cstdint>
#include <string>
#include <unordered_map>
#include <vector>
#include <memory>

typedef unsigned __int128 u128;
typedef __int128 i128;

enum Op : uint8_t {
	O_CONST, O_VAR, O_ADD, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
	O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
	O_EQ, O_ULT, O_ULE, O_SLT, O_SLE, O_ITE, O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT
};

struct Expr {
	Op op;
	uint16_t w;
	uint32_t aux;		// extract: low bit; var: index
	uint32_t id;
	const Expr* a;
	const Expr* b;
	const Expr* c;
	u128 val;			// const
	u128 kz, ko;		// known zero / known one bits (w <= 128)
	u128 lo, hi;		// unsigned range
	uint64_t vmask;		// bloom of variables below
	bool is_const() const { return op == O_CONST; }
};
typedef const Expr* E;

inline u128 wmask(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct VarInfo { std::string name; unsigned w; E e; };
extern std::vector<VarInfo> g_vars;

E mk_const(u128 v, unsigned w);
E mk_var(const std::string& name, unsigned w);
E mk_add(E a, E b); E mk_sub(E a, E b); E mk_mul(E a, E b);
E mk_udiv(E a, E b); E mk_sdiv(E a, E b); E mk_urem(E a, E b); E mk_srem(E a, E b);
E mk_and(E a, E b); E mk_or(E a, E b); E mk_xor(E a, E b); E mk_not(E a);
E mk_shl(E a, E b); E mk_lshr(E a, E b); E mk_ashr(E a, E b);
E mk_eq(E a, E b); E mk_ult(E a, E b); E mk_ule(E a, E b); E mk_slt(E a, E b); E mk_sle(E a, E b);
E mk_ite(E c, E a, E b);
E mk_concat(E hi, E lo);
E mk_extract(E a, unsigned lo, unsigned w);
E mk_zext(E a, unsigned w); E mk_sext(E a, unsigned w);
E mk_bool(bool b);

// Evaluate a constant operation (division by zero follows SMT-LIB)
u128 eval_op(Op op, unsigned w, unsigned aw, u128 a, u128 b, u128 c, unsigned aux, unsigned bw);

// Model: values by variable index; missing = 0
struct Model {
	std::unordered_map<uint32_t, u128> v;
};
u128 eval_expr(E e, const Model& m, std::unordered_map<E, u128>& memo);
inline u128 eval_expr(E e, const Model& m) { if(e->is_const()) return e->val; std::unordered_map<E, u128> memo; return eval_expr(e, m, memo); }

void collect_vars(E e, std::vector<uint32_t>& out);	// sorted unique, cached
std::string to_string(E e, int depth = 6);
size_t num_exprs();
extern bool g_nosimp;
