#include "expr.h"
#include <cassert>
#include <algorithm>
#include <cstring>
#include <deque>
#include <unordered_set>
#include <functional>

std::vector<VarInfo> g_vars;
static std::unordered_map<std::string, uint32_t> g_var_by_name;

namespace {
struct KeyHash {
	size_t operator()(const Expr* e) const {
		uint64_t h = e->op * 0x9E3779B97F4A7C15ull + e->w;
		auto mix = [&h](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; };
		mix(e->aux);
		mix((uint64_t)e->a); mix((uint64_t)e->b); mix((uint64_t)e->c);
		mix((uint64_t)e->val); mix((uint64_t)(e->val >> 64));
		return h ^ (h >> 32);
	}
};
struct KeyEq {
	bool operator()(const Expr* x, const Expr* y) const {
		return x->op == y->op && x->w == y->w && x->aux == y->aux && x->a == y->a && x->b == y->b && x->c == y->c && x->val == y->val;
	}
};
}
static std::unordered_set<const Expr*, KeyHash, KeyEq> g_tab;
static std::deque<Expr> g_store;
size_t num_exprs() { return g_store.size(); }

static i128 sx(u128 v, unsigned w) {
	if(w >= 128) return (i128)v;
	u128 m = (u128)1 << (w - 1);
	return (i128)((v ^ m) - m);
}

u128 eval_op(Op op, unsigned w, unsigned aw, u128 a, u128 b, u128 c, unsigned aux, unsigned bw)
{
	u128 M = wmask(w);
	switch(op) {
	case O_ADD: return (a + b) & M;
	case O_MUL: return (a * b) & M;
	case O_UDIV: return b ? a / b : M;
	case O_UREM: return b ? a % b : a;
	case O_SDIV: { i128 x = sx(a, w), y = sx(b, w); if(!y) return x < 0 ? 1 : M; if(y == -1) return (0 - a) & M; return (u128)(x / y) & M; }
	case O_SREM: { i128 x = sx(a, w), y = sx(b, w); if(!y) return a; if(y == -1) return 0; return (u128)(x % y) & M; }
	case O_AND: return a & b;
	case O_OR: return a | b;
	case O_XOR: return a ^ b;
	case O_SHL: return b >= w ? 0 : (a << (unsigned)b) & M;
	case O_LSHR: return b >= w ? 0 : (a >> (unsigned)b);
	case O_ASHR: { i128 x = sx(a, w); unsigned s = b >= w ? w - 1 : (unsigned)b; return (u128)(x >> s) & M; }
	case O_EQ: return a == b;
	case O_ULT: return a < b;
	case O_ULE: return a <= b;
	case O_SLT: return sx(a, aw) < sx(b, aw);
	case O_SLE: return sx(a, aw) <= sx(b, aw);
	case O_ITE: return a ? b : c;
	case O_CONCAT: return bw >= 128 ? b : ((a << bw) | b) & M;
	case O_EXTRACT: return (a >> aux) & M;
	case O_ZEXT: return a;
	case O_SEXT: return (u128)sx(a, aw) & M;
	default: assert(0); return 0;
	}
}

void analyse(Expr& e)
{
	const u128 M = wmask(e.w);
	e.kz = e.ko = 0; e.lo = 0; e.hi = M;
	if(e.w > 128) { e.vmask = (e.a ? e.a->vmask : 0) | (e.b ? e.b->vmask : 0) | (e.c ? e.c->vmask : 0); return; }
	E a = e.a, b = e.b, c = e.c;
	e.vmask = (a ? a->vmask : 0) | (b ? b->vmask : 0) | (c ? c->vmask : 0);
	switch(e.op) {
	case O_CONST: e.kz = ~e.val & M; e.ko = e.val; e.lo = e.hi = e.val; break;
	case O_VAR: e.vmask = 1ull << (e.aux & 63); break;
	case O_AND: e.kz = a->kz | b->kz; e.ko = a->ko & b->ko; e.hi = std::min(a->hi, b->hi); break;
	case O_OR: e.kz = a->kz & b->kz; e.ko = a->ko | b->ko; e.lo = std::max(a->lo, b->lo); break;
	case O_XOR: e.kz = (a->kz & b->kz) | (a->ko & b->ko); e.ko = (a->kz & b->ko) | (a->ko & b->kz); break;
	case O_ADD: {
		// trailing known bits
		u128 known = (a->kz | a->ko) & (b->kz | b->ko);
		unsigned n = 0; while(n < e.w && ((known >> n) & 1)) n++;
		if(n) { u128 s = (a->ko + b->ko); u128 m = wmask(n); e.ko |= s & m; e.kz |= ~s & m; }
		u128 h = a->hi + b->hi;
		if(h >= a->hi && h <= M) { e.hi = h; e.lo = a->lo + b->lo; }
		else if(b->op == O_CONST) {
			// wrap-around subtraction: a + (2^w - c), a->lo >= c
			u128 sub = (0 - b->val) & M;
			if(a->lo >= sub) { e.lo = a->lo - sub; e.hi = a->hi - sub; }
		}
		break;
	}
	case O_MUL: {
		if(a->hi < ((u128)1 << 64) && b->hi < ((u128)1 << 64)) {
			u128 h = a->hi * b->hi;
			if(h <= M) { e.hi = h; e.lo = a->lo * b->lo; }
		}
		unsigned ta = 0, tb = 0;
		while(ta < e.w && ((a->kz >> ta) & 1)) ta++;
		while(tb < e.w && ((b->kz >> tb) & 1)) tb++;
		unsigned t = std::min<unsigned>(ta + tb, e.w);
		e.kz |= wmask(t);
		break;
	}
	case O_UDIV: if(b->lo > 0) { e.hi = a->hi / b->lo; e.lo = b->hi ? a->lo / b->hi : 0; } break;
	case O_UREM: if(b->lo > 0) { e.hi = std::min(a->hi, b->hi - 1); } break;
	case O_LSHR: e.hi = a->hi; break;
	case O_ITE: e.kz = b->kz & c->kz; e.ko = b->ko & c->ko; e.lo = std::min(b->lo, c->lo); e.hi = std::max(b->hi, c->hi); break;
	case O_CONCAT:
		e.kz = (a->kz << b->w) | b->kz; e.ko = (a->ko << b->w) | b->ko;
		e.lo = (a->lo << b->w) | b->lo; e.hi = (a->hi << b->w) | b->hi; break;
	case O_EXTRACT:
		if(a->w <= 128) {
			e.kz = (a->kz >> e.aux) & M; e.ko = (a->ko >> e.aux) & M;
			if((a->hi >> e.aux) <= M) { e.hi = a->hi >> e.aux; e.lo = a->lo >> e.aux; }
			else if(e.aux == 0 && a->hi <= M) { e.hi = a->hi; e.lo = a->lo; }
		}
		break;
	case O_ZEXT: e.kz = a->kz | (M & ~wmask(a->w)); e.ko = a->ko; e.lo = a->lo; e.hi = a->hi; break;
	case O_SEXT: {
		e.ko = a->ko; e.kz = a->kz;
		u128 sb = (u128)1 << (a->w - 1); u128 up = M & ~wmask(a->w);
		if(a->kz & sb) { e.kz |= up; e.lo = a->lo; e.hi = a->hi; } else if(a->ko & sb) e.ko |= up;
		break;
	}
	default: break;
	}
	e.kz &= M; e.ko &= M;
	e.hi = std::min(e.hi, M & ~e.kz);
	e.lo = std::max(e.lo, e.ko);
	if(e.hi < e.lo) { e.hi = M & ~e.kz; e.lo = e.ko; }	// defensive
	// leading zeros from range
	if(e.hi < M) { unsigned n = 0; while(n < e.w && (e.hi >> n)) n++; e.kz |= M & ~wmask(n); }
}

static E intern(Op op, unsigned w, E a, E b, E c, u128 val, uint32_t aux)
{
	Expr k; k.op = op; k.w = w; k.a = a; k.b = b; k.c = c; k.val = val; k.aux = aux;
	auto it = g_tab.find(&k);
	if(it != g_tab.end()) return *it;
	k.id = g_store.size();
	analyse(k);
	g_store.push_back(k);
	E e = &g_store.back();
	g_tab.insert(e);
	// fully determined by analysis?
	return e;
}
static E fin(E e) {
	if(e->op != O_CONST && e->w <= 128 && ((e->kz | e->ko) == wmask(e->w) || e->lo == e->hi))
		return mk_const(e->lo == e->hi ? e->lo : e->ko, e->w);
	return e;
}

E mk_const(u128 v, unsigned w) {
	if(w > 128) { // build from pieces
		return mk_zext(mk_const(v, 128), w);
	}
	return intern(O_CONST, w, nullptr, nullptr, nullptr, v & wmask(w), 0);
}
E mk_bool(bool b) { return mk_const(b, 1); }
E mk_var(const std::string& name, unsigned w) {
	auto it = g_var_by_name.find(name);
	if(it != g_var_by_name.end()) { assert(g_vars[it->second].w == w); return g_vars[it->second].e; }
	uint32_t idx = g_vars.size();
	g_vars.push_back({name, w, nullptr});
	g_var_by_name[name] = idx;
	E e = intern(O_VAR, w, nullptr, nullptr, nullptr, 0, idx);
	g_vars[idx].e = e;
	return e;
}

static bool both_const(E a, E b) { return a->is_const() && b->is_const(); }
static E mk2(Op op, unsigned w, E a, E b) { return fin(intern(op, w, a, b, nullptr, 0, 0)); }

// is e an ite tree with few constant leaves?
static bool const_leaf_ite(E e) { return e->op == O_ITE && e->b->is_const() && e->c->is_const(); }

// Segment-wise rebuild of a|b (or a+b) when every bit is known zero on at least one side.
static E merge_disjoint(E a, E b)
{
	unsigned w = a->w;
	std::vector<E> parts;	// low to high
	unsigned i = 0, n = 0;
	while(i < w) {
		int side = ((a->kz >> i) & 1) ? (((b->kz >> i) & 1) ? 2 : 1) : 0;
		unsigned j = i + 1;
		while(j < w) {
			int s2 = ((a->kz >> j) & 1) ? (((b->kz >> j) & 1) ? 2 : 1) : 0;
			if(s2 != side) break;
			j++;
		}
		if(side == 2) parts.push_back(mk_const(0, j - i));
		else parts.push_back(mk_extract(side == 0 ? a : b, i, j - i));
		i = j;
		if(++n > 32) return nullptr;
	}
	E r = parts[0];
	for(size_t k = 1; k < parts.size(); ++k) r = mk_concat(parts[k], r);
	return r;
}

bool g_nosimp = false;
// simplifier off: constants still fold, everything else is handed to the solver as written
static E raw(Op op, unsigned w, E a, E b = nullptr, E c = nullptr, uint32_t aux = 0) {
	if(a->is_const() && (!b || b->is_const()) && (!c || c->is_const()) && w <= 128 && a->w <= 128)
		return mk_const(eval_op(op, w, a->w, a->val, b ? b->val : 0, c ? c->val : 0, aux, b ? b->w : 0), w);
	return intern(op, w, a, b, c, 0, aux);
}
E mk_add(E a, E b)
{
	if(g_nosimp) return raw(O_ADD, a->w, a, b);
	assert(a->w == b->w);
	if(both_const(a, b)) return mk_const(a->val + b->val, a->w);
	if(a->is_const()) std::swap(a, b);
	if(b->is_const()) {
		if(b->val == 0) return a;
		if(a->op == O_ADD && a->b->is_const()) return mk_add(a->a, mk_const(a->b->val + b->val, a->w));
		if(const_leaf_ite(a)) return mk_ite(a->a, mk_add(a->b, b), mk_add(a->c, b));
	} else {
		if(a->op == O_ADD && a->b->is_const()) return mk_add(mk_add(a->a, b), a->b);
		if(b->op == O_ADD && b->b->is_const()) return mk_add(mk_add(a, b->a), b->b);
		// x + (-1 * x)
		auto neg_of = [](E x, E y) { return x->op == O_MUL && x->b->is_const() && x->b->val == wmask(x->w) && x->a == y; };
		if(neg_of(a, b) || neg_of(b, a)) return mk_const(0, a->w);
		// (x + y) + (-x) cancellation, one level
		if(b->op == O_MUL && b->b->is_const() && b->b->val == wmask(b->w) && a->op == O_ADD) {
			if(a->a == b->a) return a->b;
			if(a->b == b->a) return a->a;
		}
		if(a->op == O_MUL && a->b->is_const() && a->b->val == wmask(a->w) && b->op == O_ADD) {
			if(b->a == a->a) return b->b;
			if(b->b == a->a) return b->a;
		}
	}
	if(a->w <= 128 && ((a->kz | b->kz) == wmask(a->w))) {
		if(E r = merge_disjoint(a, b)) return r;
	}
	if(!b->is_const() && (a->op == O_ADD || b->op == O_ADD)) {	// canonical sum: addends sorted by id
		E l[16]; int n = 0;
		auto flat = [&](auto& self, E x) -> void { if(n > 12) return; if(x->op == O_ADD) { self(self, x->a); self(self, x->b); } else l[n++] = x; };
		flat(flat, a); flat(flat, b);
		if(n <= 12) {
			std::sort(l, l + n, [](E x, E y) { return x->is_const() != y->is_const() ? y->is_const() : x->id < y->id; });
			E r = l[0];
			for(int i = 1; i < n; ++i) r = mk2(O_ADD, a->w, r, l[i]);
			return r;
		}
	}
	if(!b->is_const() && a->id > b->id) std::swap(a, b);
	return mk2(O_ADD, a->w, a, b);
}
E mk_sub(E a, E b)
{
	if(a == b) return mk_const(0, a->w);
	if(b->is_const()) return mk_add(a, mk_const(0 - b->val, a->w));
	return mk_add(a, mk_mul(b, mk_const(~(u128)0, a->w)));
}
E mk_mul(E a, E b)
{
	if(g_nosimp) return raw(O_MUL, a->w, a, b);
	if(both_const(a, b)) return mk_const(a->val * b->val, a->w);
	if(a->is_const()) std::swap(a, b);
	if(b->is_const()) {
		if(b->val == 0) return b;
		if(b->val == 1) return a;
		if((b->val & (b->val - 1)) == 0) {
			unsigned s = 0; while(!((b->val >> s) & 1)) s++;
			return mk_shl(a, mk_const(s, a->w));
		}
		if(a->op == O_MUL && a->b->is_const()) return mk_mul(a->a, mk_const(a->b->val * b->val, a->w));
		if(const_leaf_ite(a)) return mk_ite(a->a, mk_mul(a->b, b), mk_mul(a->c, b));
		if(a->op == O_ADD && a->b->is_const()) return mk_add(mk_mul(a->a, b), mk_const(a->b->val * b->val, a->w));
	} else if(a->id > b->id) std::swap(a, b);
	return mk2(O_MUL, a->w, a, b);
}
static bool pow2(u128 v, unsigned& s) {
	if(v == 0 || (v & (v - 1))) return false;
	s = 0; while(!((v >> s) & 1)) s++;
	return true;
}
E mk_udiv(E a, E b)
{
	if(g_nosimp) return raw(O_UDIV, a->w, a, b);
	if(both_const(a, b)) return mk_const(eval_op(O_UDIV, a->w, a->w, a->val, b->val, 0, 0, b->w), a->w);
	unsigned s;
	if(b->is_const() && pow2(b->val, s)) return mk_lshr(a, mk_const(s, a->w));
	if(b->is_const() && b->val && a->hi < b->val) return mk_const(0, a->w);
	if(b->is_const() && const_leaf_ite(a)) return mk_ite(a->a, mk_udiv(a->b, b), mk_udiv(a->c, b));
	// narrow
	if(b->is_const() && b->val && a->op == O_ZEXT && b->val <= wmask(a->a->w))
		return mk_zext(mk_udiv(a->a, mk_const(b->val, a->a->w)), a->w);
	return mk2(O_UDIV, a->w, a, b);
}
E mk_urem(E a, E b)
{
	if(g_nosimp) return raw(O_UREM, a->w, a, b);
	if(both_const(a, b)) return mk_const(eval_op(O_UREM, a->w, a->w, a->val, b->val, 0, 0, b->w), a->w);
	unsigned s;
	if(b->is_const() && pow2(b->val, s)) return mk_and(a, mk_const(b->val - 1, a->w));
	if(b->lo > a->hi) return a;
	if(b->is_const() && const_leaf_ite(a)) return mk_ite(a->a, mk_urem(a->b, b), mk_urem(a->c, b));
	if(b->is_const() && b->val && a->op == O_ZEXT && b->val <= wmask(a->a->w))
		return mk_zext(mk_urem(a->a, mk_const(b->val, a->a->w)), a->w);
	return mk2(O_UREM, a->w, a, b);
}
E mk_sdiv(E a, E b)
{
	if(g_nosimp) return raw(O_SDIV, a->w, a, b);
	if(both_const(a, b)) return mk_const(eval_op(O_SDIV, a->w, a->w, a->val, b->val, 0, 0, b->w), a->w);
	u128 sb = (u128)1 << (a->w - 1);
	if((a->kz & sb) && (b->kz & sb) && b->lo > 0) return mk_udiv(a, b);
	return mk2(O_SDIV, a->w, a, b);
}
E mk_srem(E a, E b)
{
	if(g_nosimp) return raw(O_SREM, a->w, a, b);
	if(both_const(a, b)) return mk_const(eval_op(O_SREM, a->w, a->w, a->val, b->val, 0, 0, b->w), a->w);
	u128 sb = (u128)1 << (a->w - 1);
	if((a->kz & sb) && (b->kz & sb) && b->lo > 0) return mk_urem(a, b);
	return mk2(O_SREM, a->w, a, b);
}

E mk_and(E a, E b)
{
	if(g_nosimp && !(a->w == 1 && (a->is_const() || b->is_const()))) return raw(O_AND, a->w, a, b);
	assert(a->w == b->w);
	if(a == b) return a;
	if(both_const(a, b)) return mk_const(a->val & b->val, a->w);
	if(a->is_const()) std::swap(a, b);
	unsigned w = a->w;
	u128 M = wmask(w);
	if(b->is_const()) {
		if(b->val == 0) return b;
		if(b->val == M) return a;
		if(((~b->val) & M & ~a->kz) == 0) return a;	// masked bits already zero
		if(const_leaf_ite(a)) return mk_ite(a->a, mk_and(a->b, b), mk_and(a->c, b));
		// runs
		unsigned runs = 0;
		for(unsigned i = 0; i < w; ++i) if(((b->val >> i) & 1) && (i == 0 || !((b->val >> (i - 1)) & 1))) runs++;
		if(runs <= 8) {
			E r = nullptr;
			unsigned i = 0;
			while(i < w) {
				bool one = (b->val >> i) & 1;
				unsigned j = i + 1;
				while(j < w && (bool)((b->val >> j) & 1) == one) j++;
				E p = one ? mk_extract(a, i, j - i) : mk_const(0, j - i);
				r = r ? mk_concat(p, r) : p;
				i = j;
			}
			return r;
		}
	}
	if(w == 1) {
		// absorb complement
		if(a == mk_not(b)) return mk_const(0, 1);
	}
	if(!b->is_const() && a->id > b->id) std::swap(a, b);
	return mk2(O_AND, w, a, b);
}
E mk_or(E a, E b)
{
	if(g_nosimp && !(a->w == 1 && (a->is_const() || b->is_const()))) return raw(O_OR, a->w, a, b);
	assert(a->w == b->w);
	if(a == b) return a;
	if(both_const(a, b)) return mk_const(a->val | b->val, a->w);
	if(a->is_const()) std::swap(a, b);
	unsigned w = a->w;
	u128 M = wmask(w);
	if(b->is_const()) {
		if(b->val == 0) return a;
		if(b->val == M) return b;
		if(const_leaf_ite(a)) return mk_ite(a->a, mk_or(a->b, b), mk_or(a->c, b));
		unsigned runs = 0;
		for(unsigned i = 0; i < w; ++i) if(((b->val >> i) & 1) && (i == 0 || !((b->val >> (i - 1)) & 1))) runs++;
		if(runs <= 8) {
			E r = nullptr;
			unsigned i = 0;
			while(i < w) {
				bool one = (b->val >> i) & 1;
				unsigned j = i + 1;
				while(j < w && (bool)((b->val >> j) & 1) == one) j++;
				E p = one ? mk_const(wmask(j - i), j - i) : mk_extract(a, i, j - i);
				r = r ? mk_concat(p, r) : p;
				i = j;
			}
			return r;
		}
	}
	if(((a->kz | b->kz) & M) == M) {
		if(E r = merge_disjoint(a, b)) return r;
	}
	if(w == 1 && a == mk_not(b)) return mk_const(1, 1);
	if(!b->is_const() && a->id > b->id) std::swap(a, b);
	return mk2(O_OR, w, a, b);
}
E mk_xor(E a, E b)
{
	if(g_nosimp) return raw(O_XOR, a->w, a, b);
	if(a == b) return mk_const(0, a->w);
	if(both_const(a, b)) return mk_const(a->val ^ b->val, a->w);
	if(a->is_const()) std::swap(a, b);
	if(b->is_const()) {
		if(b->val == 0) return a;
		if(a->op == O_XOR && a->b->is_const()) return mk_xor(a->a, mk_const(a->b->val ^ b->val, a->w));
		if(const_leaf_ite(a)) return mk_ite(a->a, mk_xor(a->b, b), mk_xor(a->c, b));
		if(a->w == 1) {	// not
			if(a->op == O_ULT) return mk_ule(a->b, a->a);
			if(a->op == O_ULE) return mk_ult(a->b, a->a);
			if(a->op == O_SLT) return mk_sle(a->b, a->a);
			if(a->op == O_SLE) return mk_slt(a->b, a->a);
		}
	}
	if(((a->kz | b->kz)) == wmask(a->w)) {
		if(E r = merge_disjoint(a, b)) return r;
	}
	if(!b->is_const() && a->id > b->id) std::swap(a, b);
	return mk2(O_XOR, a->w, a, b);
}
E mk_not(E a) { return mk_xor(a, mk_const(~(u128)0, a->w)); }

E mk_shl(E a, E b)
{
	if(g_nosimp) return raw(O_SHL, a->w, a, b);
	unsigned w = a->w;
	if(both_const(a, b)) return mk_const(eval_op(O_SHL, w, w, a->val, b->val, 0, 0, b->w), w);
	if(b->is_const()) {
		if(b->val == 0) return a;
		if(b->val >= w) return mk_const(0, w);
		unsigned s = (unsigned)b->val;
		return mk_concat(mk_extract(a, 0, w - s), mk_const(0, s));
	}
	if(const_leaf_ite(b)) return mk_ite(b->a, mk_shl(a, b->b), mk_shl(a, b->c));
	return mk2(O_SHL, w, a, b);
}
E mk_lshr(E a, E b)
{
	if(g_nosimp) return raw(O_LSHR, a->w, a, b);
	unsigned w = a->w;
	if(both_const(a, b)) return mk_const(eval_op(O_LSHR, w, w, a->val, b->val, 0, 0, b->w), w);
	if(b->is_const()) {
		if(b->val == 0) return a;
		if(b->val >= w) return mk_const(0, w);
		unsigned s = (unsigned)b->val;
		return mk_zext(mk_extract(a, s, w - s), w);
	}
	if(const_leaf_ite(b)) return mk_ite(b->a, mk_lshr(a, b->b), mk_lshr(a, b->c));
	return mk2(O_LSHR, w, a, b);
}
E mk_ashr(E a, E b)
{
	if(g_nosimp) return raw(O_ASHR, a->w, a, b);
	unsigned w = a->w;
	if(both_const(a, b)) return mk_const(eval_op(O_ASHR, w, w, a->val, b->val, 0, 0, b->w), w);
	if(b->is_const()) {
		if(b->val == 0) return a;
		unsigned s = b->val >= w ? w - 1 : (unsigned)b->val;
		return mk_sext(mk_extract(a, s, w - s), w);
	}
	if((a->kz >> (w - 1)) & 1) return mk_lshr(a, b);	// note: differs only for b >= w (poison), lshr gives 0 = ashr of nonneg
	return mk2(O_ASHR, w, a, b);
}

E mk_eq(E a, E b)
{
	if(g_nosimp) return raw(O_EQ, 1, a, b);
	assert(a->w == b->w);
	if(a == b) return mk_bool(true);
	if(both_const(a, b)) return mk_bool(a->val == b->val);
	if(a->is_const()) std::swap(a, b);
	if(a->w <= 128) {
		if((a->kz & b->ko) || (a->ko & b->kz)) return mk_bool(false);
		if(a->hi < b->lo || b->hi < a->lo) return mk_bool(false);
	}
	if(a->w == 1 && b->is_const()) return b->val ? a : mk_not(a);
	if(b->is_const()) {
		if(a->op == O_ZEXT) {
			if(b->val & ~wmask(a->a->w)) return mk_bool(false);
			return mk_eq(a->a, mk_const(b->val, a->a->w));
		}
		if(a->op == O_SEXT) {
			u128 v = b->val & wmask(a->a->w);
			if(((u128)sx(v, a->a->w) & wmask(a->w)) != b->val) return mk_bool(false);
			return mk_eq(a->a, mk_const(v, a->a->w));
		}
		if(a->op == O_ADD && a->b->is_const()) return mk_eq(a->a, mk_const(b->val - a->b->val, a->w));
		if(a->op == O_XOR && a->b->is_const()) return mk_eq(a->a, mk_const(b->val ^ a->b->val, a->w));
		if(a->op == O_CONCAT) {
			return mk_and(mk_eq(a->a, mk_const(b->val >> a->b->w, a->a->w)), mk_eq(a->b, mk_const(b->val, a->b->w)));
		}
		if(a->op == O_ITE) {
			if(a->b->is_const() || a->c->is_const()) {
				E x = mk_eq(a->b, b), y = mk_eq(a->c, b);
				return mk_or(mk_and(a->a, x), mk_and(mk_not(a->a), y));
			}
		}
	} else {
		if(a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk_eq(a->a, b->a);
		if(a->op == O_SEXT && b->op == O_SEXT && a->a->w == b->a->w) return mk_eq(a->a, b->a);
		if(a->op == O_CONCAT && b->op == O_CONCAT && a->b->w == b->b->w)
			return mk_and(mk_eq(a->a, b->a), mk_eq(a->b, b->b));
		if(a->op == O_CONCAT && b->op == O_ZEXT && a->a->is_const() && a->a->val == 0) {}
		if(a->op == O_ADD && b->op == O_ADD) {
			if(a->b->is_const() && b->b->is_const()) return mk_eq(a->a, mk_add(b->a, mk_const(b->b->val - a->b->val, a->w)));
			if(a->a == b->a) return mk_eq(a->b, b->b);
			if(a->b == b->b) return mk_eq(a->a, b->a);
			if(a->a == b->b) return mk_eq(a->b, b->a);
			if(a->b == b->a) return mk_eq(a->a, b->b);
		}
		if(a->op == O_ADD && (a->a == b)) return mk_eq(a->b, mk_const(0, a->w));
		if(a->op == O_ADD && (a->b == b)) return mk_eq(a->a, mk_const(0, a->w));
		if(b->op == O_ADD && (b->a == a)) return mk_eq(b->b, mk_const(0, a->w));
		if(b->op == O_ADD && (b->b == a)) return mk_eq(b->a, mk_const(0, a->w));
		if(a->op == O_ITE && b->op == O_ITE && a->a == b->a)
			return mk_ite(a->a, mk_eq(a->b, b->b), mk_eq(a->c, b->c));
	}
	if(!b->is_const() && a->id > b->id) std::swap(a, b);
	return mk2(O_EQ, 1, a, b);
}
E mk_ult(E a, E b)
{
	if(g_nosimp) return raw(O_ULT, 1, a, b);
	assert(a->w == b->w);
	if(a == b) return mk_bool(false);
	if(both_const(a, b)) return mk_bool(a->val < b->val);
	if(a->w <= 128) {
		if(a->hi < b->lo) return mk_bool(true);
		if(a->lo >= b->hi) return mk_bool(false);
	}
	if(b->is_const() && b->val == 1) return mk_eq(a, mk_const(0, a->w));
	if(a->is_const() && a->val == 0) return mk_not(mk_eq(b, a));
	if(a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk_ult(a->a, b->a);
	if(a->op == O_ZEXT && b->is_const()) return b->val > wmask(a->a->w) ? mk_bool(true) : mk_ult(a->a, mk_const(b->val, a->a->w));
	if(b->op == O_ZEXT && a->is_const()) return a->val >= wmask(b->a->w) ? mk_bool(false) : mk_ult(mk_const(a->val, b->a->w), b->a);
	if(const_leaf_ite(a) && b->is_const()) return mk_ite(a->a, mk_ult(a->b, b), mk_ult(a->c, b));
	if(const_leaf_ite(b) && a->is_const()) return mk_ite(b->a, mk_ult(a, b->b), mk_ult(a, b->c));
	return mk2(O_ULT, 1, a, b);
}
E mk_ule(E a, E b)
{
	if(g_nosimp) return raw(O_ULE, 1, a, b);
	if(a == b) return mk_bool(true);
	if(both_const(a, b)) return mk_bool(a->val <= b->val);
	if(a->w <= 128) {
		if(a->hi <= b->lo) return mk_bool(true);
		if(a->lo > b->hi) return mk_bool(false);
	}
	if(b->is_const()) return b->val == wmask(b->w) ? mk_bool(true) : mk_ult(a, mk_const(b->val + 1, b->w));
	if(a->is_const()) return a->val == 0 ? mk_bool(true) : mk_ult(mk_const(a->val - 1, a->w), b);
	if(a->op == O_ZEXT && b->op == O_ZEXT && a->a->w == b->a->w) return mk_ule(a->a, b->a);
	return mk2(O_ULE, 1, a, b);
}
E mk_slt(E a, E b)
{
	if(g_nosimp) return raw(O_SLT, 1, a, b);
	if(a == b) return mk_bool(false);
	if(both_const(a, b)) return mk_bool(sx(a->val, a->w) < sx(b->val, a->w));
	u128 sb = (u128)1 << (a->w - 1);
	if((a->kz & sb) && (b->kz & sb)) return mk_ult(a, b);
	if((a->ko & sb) && (b->ko & sb)) return mk_ult(a, b);
	if((a->ko & sb) && (b->kz & sb)) return mk_bool(true);
	if((a->kz & sb) && (b->ko & sb)) return mk_bool(false);
	if(const_leaf_ite(a) && b->is_const()) return mk_ite(a->a, mk_slt(a->b, b), mk_slt(a->c, b));
	if(const_leaf_ite(b) && a->is_const()) return mk_ite(b->a, mk_slt(a, b->b), mk_slt(a, b->c));
	return mk2(O_SLT, 1, a, b);
}
E mk_sle(E a, E b)
{
	if(g_nosimp) return raw(O_SLE, 1, a, b);
	if(a == b) return mk_bool(true);
	if(both_const(a, b)) return mk_bool(sx(a->val, a->w) <= sx(b->val, a->w));
	u128 sb = (u128)1 << (a->w - 1);
	if((a->kz & sb) && (b->kz & sb)) return mk_ule(a, b);
	if((a->ko & sb) && (b->ko & sb)) return mk_ule(a, b);
	if((a->ko & sb) && (b->kz & sb)) return mk_bool(true);
	if((a->kz & sb) && (b->ko & sb)) return mk_bool(false);
	if(const_leaf_ite(a) && b->is_const()) return mk_ite(a->a, mk_sle(a->b, b), mk_sle(a->c, b));
	return mk2(O_SLE, 1, a, b);
}

E mk_ite(E c, E a, E b)
{
	if(g_nosimp && !c->is_const()) return raw(O_ITE, a->w, c, a, b);
	assert(c->w == 1 && a->w == b->w);
	if(c->is_const()) return c->val ? a : b;
	if(a == b) return a;
	if(a->w == 1) {
		if(both_const(a, b)) return a->val ? c : mk_not(c);
		if(a->is_const()) return a->val ? mk_or(c, b) : mk_and(mk_not(c), b);
		if(b->is_const()) return b->val ? mk_or(mk_not(c), a) : mk_and(c, a);
	}
	// not(c): canonicalise on xor-const
	if(c->op == O_XOR && c->b->is_const()) return mk_ite(c->a, b, a);
	if(a->op == O_ITE && a->a == c) a = a->b;
	if(b->op == O_ITE && b->a == c) b = b->c;
	if(a == b) return a;
	return fin(intern(O_ITE, a->w, c, a, b, 0, 0));
}

E mk_concat(E hi, E lo)
{
	if(g_nosimp && hi->w + lo->w <= 128) return raw(O_CONCAT, hi->w + lo->w, hi, lo);
	unsigned w = hi->w + lo->w;
	if(both_const(hi, lo) && w <= 128) return mk_const((hi->val << lo->w) | lo->val, w);
	if(hi->is_const() && hi->val == 0) return mk_zext(lo, w);
	if(hi->op == O_ZEXT) return mk_zext(mk_concat(hi->a, lo), w);
	if(hi->op == O_EXTRACT && lo->op == O_EXTRACT && hi->a == lo->a && hi->aux == lo->aux + lo->w)
		return mk_extract(hi->a, lo->aux, w);
	// one side is an extract, the other the adjacent part of the same term, rewritten by mk_extract
	auto arith = [](E e) { return e->op == O_ADD || e->op == O_MUL || e->op == O_XOR; };
	auto narrowed = [&](E h, E l) {
		if(h->op == O_EXTRACT && l->op != O_EXTRACT && arith(h->a) && h->aux >= l->w) return mk_extract(h->a, h->aux - l->w, l->w) == l;
		if(l->op == O_EXTRACT && h->op != O_EXTRACT && arith(l->a) && l->aux + l->w + h->w <= l->a->w) return mk_extract(l->a, l->aux + l->w, h->w) == h;
		return false;
	};
	if(narrowed(hi, lo)) return hi->op == O_EXTRACT ? mk_extract(hi->a, hi->aux - lo->w, w) : mk_extract(lo->a, lo->aux, w);
	// right associate: concat(a, concat(b, c)) canonical with left-most merging
	if(hi->op == O_CONCAT) return mk_concat(hi->a, mk_concat(hi->b, lo));
	if(lo->op == O_CONCAT) {
		// try merging hi with lo's top piece
		E t = lo->a;
		bool can = narrowed(hi, t) || (hi->op == O_EXTRACT && t->op == O_EXTRACT && hi->a == t->a && hi->aux == t->aux + t->w)
				|| (both_const(hi, t) && hi->w + t->w <= 128)
				|| (hi->op == O_ITE && t->op == O_ITE && hi->a == t->a);
		if(can) return mk_concat(mk_concat(hi, t), lo->b);
	}
	if(hi->op == O_ITE && lo->op == O_ITE && hi->a == lo->a)
		return mk_ite(hi->a, mk_concat(hi->b, lo->b), mk_concat(hi->c, lo->c));
	// sign-extension pieces: extract of sext
	return fin(intern(O_CONCAT, w, hi, lo, nullptr, 0, 0));
}

E mk_extract(E a, unsigned lo, unsigned w)
{
	if(g_nosimp && w != a->w && a->w <= 128) return raw(O_EXTRACT, w, a, nullptr, nullptr, lo);
	assert(lo + w <= a->w && w > 0);
	if(lo == 0 && w == a->w) return a;
	if(a->is_const()) return mk_const(a->val >> lo, w);
	if(a->w <= 128) {
		u128 M = wmask(w) << lo;
		if(((a->kz | a->ko) & M) == M) return mk_const((a->ko >> lo) & wmask(w), w);
	}
	switch(a->op) {
	case O_EXTRACT: return mk_extract(a->a, a->aux + lo, w);
	case O_CONCAT: {
		unsigned bw = a->b->w;
		if(lo + w <= bw) return mk_extract(a->b, lo, w);
		if(lo >= bw) return mk_extract(a->a, lo - bw, w);
		return mk_concat(mk_extract(a->a, 0, lo + w - bw), mk_extract(a->b, lo, bw - lo));
	}
	case O_ZEXT: {
		unsigned aw = a->a->w;
		if(lo >= aw) return mk_const(0, w);
		if(lo + w <= aw) return mk_extract(a->a, lo, w);
		return mk_zext(mk_extract(a->a, lo, aw - lo), w);
	}
	case O_SEXT: {
		unsigned aw = a->a->w;
		if(lo + w <= aw) return mk_extract(a->a, lo, w);
		if(lo < aw) return mk_sext(mk_extract(a->a, lo, aw - lo), w);
		break;
	}
	case O_AND: return mk_and(mk_extract(a->a, lo, w), mk_extract(a->b, lo, w));
	case O_OR: return mk_or(mk_extract(a->a, lo, w), mk_extract(a->b, lo, w));
	case O_XOR: if(a->b->is_const() || w == 1) return mk_xor(mk_extract(a->a, lo, w), mk_extract(a->b, lo, w)); break;
	case O_ITE:
		if(a->b->is_const() || a->c->is_const())
			return mk_ite(a->a, mk_extract(a->b, lo, w), mk_extract(a->c, lo, w));
		break;
	case O_ADD: case O_MUL:
		if(lo == 0) {	// narrow only when that removes something, so that byte-wise stores re-assemble
			E x = mk_extract(a->a, 0, w), y = mk_extract(a->b, 0, w);
			auto opaque = [](E e) { return e->op == O_EXTRACT && e->a->op != O_VAR; };
			if(!opaque(x) && !opaque(y)) return a->op == O_ADD ? mk_add(x, y) : mk_mul(x, y);
			if((x->is_const() && x->val == 0) || (y->is_const() && y->val == 0)) return a->op == O_ADD ? mk_add(x, y) : mk_mul(x, y);
		}
		break;
	default: break;
	}
	return fin(intern(O_EXTRACT, w, a, nullptr, nullptr, 0, lo));
}
E mk_zext(E a, unsigned w)
{
	if(g_nosimp && w != a->w) return raw(O_ZEXT, w, a);
	if(w == a->w) return a;
	assert(w > a->w);
	if(a->is_const() && w <= 128) return mk_const(a->val, w);
	if(a->op == O_ZEXT) return mk_zext(a->a, w);
	if(const_leaf_ite(a) && w <= 128) return mk_ite(a->a, mk_zext(a->b, w), mk_zext(a->c, w));
	return fin(intern(O_ZEXT, w, a, nullptr, nullptr, 0, 0));
}
E mk_sext(E a, unsigned w)
{
	if(g_nosimp && w != a->w) return raw(O_SEXT, w, a);
	if(w == a->w) return a;
	if(a->is_const()) return mk_const((u128)sx(a->val, a->w), w);
	if((a->kz >> (a->w - 1)) & 1) return mk_zext(a, w);
	if(a->op == O_SEXT) return mk_sext(a->a, w);
	if(const_leaf_ite(a)) return mk_ite(a->a, mk_sext(a->b, w), mk_sext(a->c, w));
	return fin(intern(O_SEXT, w, a, nullptr, nullptr, 0, 0));
}

u128 eval_expr(E e, const Model& m, std::unordered_map<E, u128>& memo)
{
	if(e->is_const()) return e->val;
	if(e->op == O_VAR) { auto it = m.v.find(e->aux); return it == m.v.end() ? 0 : it->second & wmask(e->w); }
	auto it = memo.find(e);
	if(it != memo.end()) return it->second;
	// iterative post-order to survive deep terms
	std::vector<std::pair<E, bool>> st;
	st.push_back({e, false});
	auto get = [&](E x, u128& v) -> bool {
		if(x->is_const()) { v = x->val; return true; }
		if(x->op == O_VAR) { auto i = m.v.find(x->aux); v = i == m.v.end() ? 0 : i->second & wmask(x->w); return true; }
		auto i = memo.find(x); if(i == memo.end()) return false; v = i->second; return true;
	};
	u128 r = 0;
	while(!st.empty()) {
		E x = st.back().first; u128 t;
		if(get(x, t)) { r = t; st.pop_back(); continue; }
		u128 va = 0, vb = 0, vc = 0;
		if(x->op == O_ITE) {
			if(!get(x->a, va)) { st.push_back({x->a, false}); continue; }
			E br = va ? x->b : x->c;
			if(!get(br, vb)) { st.push_back({br, false}); continue; }
			memo[x] = vb; continue;
		}
		bool ok = true;
		if(x->a && !get(x->a, va)) { st.push_back({x->a, false}); ok = false; }
		if(x->b && !get(x->b, vb)) { st.push_back({x->b, false}); ok = false; }
		if(x->c && !get(x->c, vc)) { st.push_back({x->c, false}); ok = false; }
		if(!ok) continue;
		memo[x] = eval_op(x->op, x->w, x->a ? x->a->w : 0, va, vb, vc, x->aux, x->b ? x->b->w : 0);
	}
	u128 v; get(e, v);
	return v;
}

void collect_vars(E e, std::vector<uint32_t>& out)
{
	std::unordered_set<E> seen;
	std::vector<E> st{e};
	while(!st.empty()) {
		E x = st.back(); st.pop_back();
		if(x->is_const() || !seen.insert(x).second) continue;
		if(x->op == O_VAR) { out.push_back(x->aux); continue; }
		if(x->a) st.push_back(x->a);
		if(x->b) st.push_back(x->b);
		if(x->c) st.push_back(x->c);
	}
	std::sort(out.begin(), out.end());
	out.erase(std::unique(out.begin(), out.end()), out.end());
}

static const char* opn[] = {"const","var","+","*","udiv","sdiv","urem","srem","&","|","^","<<",">>u",">>s","==","<u","<=u","<s","<=s","ite","concat","extract","zext","sext"};
std::string to_string(E e, int depth)
{
	if(e->is_const()) { char b[64]; if(e->val >> 64) snprintf(b, sizeof b, "0x%llx%016llx", (unsigned long long)(e->val >> 64), (unsigned long long)e->val); else snprintf(b, sizeof b, "0x%llx", (unsigned long long)e->val); return std::string(b) + ":" + std::to_string(e->w); }
	if(e->op == O_VAR) return g_vars[e->aux].name;
	if(depth <= 0) return "..";
	std::string s = "(" + std::string(opn[e->op]);
	if(e->op == O_EXTRACT) s += "[" + std::to_string(e->aux + e->w - 1) + ":" + std::to_string(e->aux) + "]";
	if(e->op == O_ZEXT || e->op == O_SEXT) s += std::to_string(e->w);
	for(E x : {e->a, e->b, e->c}) if(x) s += " " + to_string(x, depth - 1);
	return s + ")";
}
