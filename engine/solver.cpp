#include "solver.h"
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <z3.h>
#include <chrono>
#include <unordered_set>
#include <algorithm>
#include <cassert>
#include <cstring>
#include <cstdio>
#include <cstdlib>

SolverStats g_sstat;
double g_solver_timeout = 120;

static Z3_context ctx;
static Z3_solver inc;			// incremental smt core
static std::unordered_map<E, Z3_ast> g_z3;
static std::unordered_map<E, std::vector<uint32_t>> g_vars_of;

static void err_handler(Z3_context c, Z3_error_code e) {
	fprintf(stderr, "z3 error: %s\n", Z3_get_error_msg(c, e));
}
static void init() {
	if(ctx) return;
	Z3_config cfg = Z3_mk_config();
	ctx = Z3_mk_context(cfg);
	Z3_set_error_handler(ctx, err_handler);
	Z3_del_config(cfg);
	inc = Z3_mk_simple_solver(ctx);
	Z3_solver_inc_ref(ctx, inc);
}

const std::vector<uint32_t>& vars_of(E e) {
	auto it = g_vars_of.find(e);
	if(it != g_vars_of.end()) return it->second;
	std::vector<uint32_t> v; collect_vars(e, v);
	return g_vars_of.emplace(e, std::move(v)).first->second;
}

static Z3_ast b2bv(Z3_ast b) {
	Z3_sort s1 = Z3_mk_bv_sort(ctx, 1);
	return Z3_mk_ite(ctx, b, Z3_mk_unsigned_int64(ctx, 1, s1), Z3_mk_unsigned_int64(ctx, 0, s1));
}
static Z3_ast bv2b(Z3_ast v) {
	// strip ite(b,1,0)
	if(Z3_get_ast_kind(ctx, v) == Z3_APP_AST) {
		Z3_app app = Z3_to_app(ctx, v);
		if(Z3_get_decl_kind(ctx, Z3_get_app_decl(ctx, app)) == Z3_OP_ITE) {
			Z3_ast t = Z3_get_app_arg(ctx, app, 1);
			uint64_t x, y;
			if(Z3_is_numeral_ast(ctx, t) && Z3_is_numeral_ast(ctx, Z3_get_app_arg(ctx, app, 2)) && Z3_get_numeral_uint64(ctx, t, &x) && x == 1
				&& Z3_get_numeral_uint64(ctx, Z3_get_app_arg(ctx, app, 2), &y) && y == 0)
				return Z3_get_app_arg(ctx, app, 0);
		}
	}
	return Z3_mk_eq(ctx, v, Z3_mk_unsigned_int64(ctx, 1, Z3_mk_bv_sort(ctx, 1)));
}

static Z3_ast lookup(E e) { auto it = g_z3.find(e); return it == g_z3.end() ? nullptr : it->second; }
static Z3_ast konst(u128 v, unsigned w) {
	if(w <= 64) return Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, w));
	Z3_ast lo = Z3_mk_unsigned_int64(ctx, (uint64_t)v, Z3_mk_bv_sort(ctx, 64));
	Z3_ast hi = Z3_mk_unsigned_int64(ctx, (uint64_t)(v >> 64), Z3_mk_bv_sort(ctx, w - 64));
	return Z3_mk_concat(ctx, hi, lo);
}
static Z3_ast build1(E x)
{
	Z3_ast a = x->a ? lookup(x->a) : nullptr, b = x->b ? lookup(x->b) : nullptr, c = x->c ? lookup(x->c) : nullptr;
	switch(x->op) {
	case O_CONST: return konst(x->val, x->w);
	case O_VAR: return Z3_mk_const(ctx, Z3_mk_string_symbol(ctx, g_vars[x->aux].name.c_str()), Z3_mk_bv_sort(ctx, x->w));
	case O_ADD: return Z3_mk_bvadd(ctx, a, b);
	case O_MUL: return Z3_mk_bvmul(ctx, a, b);
	case O_UDIV: return Z3_mk_bvudiv(ctx, a, b);
	case O_SDIV: return Z3_mk_bvsdiv(ctx, a, b);
	case O_UREM: return Z3_mk_bvurem(ctx, a, b);
	case O_SREM: return Z3_mk_bvsrem(ctx, a, b);
	case O_AND: return x->w == 1 ? b2bv([&]{ Z3_ast t[2] = {bv2b(a), bv2b(b)}; return Z3_mk_and(ctx, 2, t); }()) : Z3_mk_bvand(ctx, a, b);
	case O_OR: return x->w == 1 ? b2bv([&]{ Z3_ast t[2] = {bv2b(a), bv2b(b)}; return Z3_mk_or(ctx, 2, t); }()) : Z3_mk_bvor(ctx, a, b);
	case O_XOR: if(x->w == 1 && x->b->is_const() && x->b->val == 1) return b2bv(Z3_mk_not(ctx, bv2b(a))); return Z3_mk_bvxor(ctx, a, b);
	case O_SHL: return Z3_mk_bvshl(ctx, a, b);
	case O_LSHR: return Z3_mk_bvlshr(ctx, a, b);
	case O_ASHR: return Z3_mk_bvashr(ctx, a, b);
	case O_EQ: return b2bv(Z3_mk_eq(ctx, a, b));
	case O_ULT: return b2bv(Z3_mk_bvult(ctx, a, b));
	case O_ULE: return b2bv(Z3_mk_bvule(ctx, a, b));
	case O_SLT: return b2bv(Z3_mk_bvslt(ctx, a, b));
	case O_SLE: return b2bv(Z3_mk_bvsle(ctx, a, b));
	case O_ITE: return Z3_mk_ite(ctx, bv2b(a), b, c);
	case O_CONCAT: return Z3_mk_concat(ctx, a, b);
	case O_EXTRACT: return Z3_mk_extract(ctx, x->aux + x->w - 1, x->aux, a);
	case O_ZEXT: return Z3_mk_zero_ext(ctx, x->w - x->a->w, a);
	case O_SEXT: return Z3_mk_sign_ext(ctx, x->w - x->a->w, a);
	}
	return nullptr;
}
static Z3_ast to_z3(E e)
{
	if(Z3_ast r = lookup(e)) return r;
	std::vector<E> st{e};
	while(!st.empty()) {
		E x = st.back();
		if(lookup(x)) { st.pop_back(); continue; }
		bool ok = true;
		for(E y : {x->a, x->b, x->c}) if(y && !lookup(y)) { st.push_back(y); ok = false; }
		if(!ok) continue;
		Z3_ast r = build1(x);
		Z3_inc_ref(ctx, r);
		g_z3[x] = r;
		st.pop_back();
	}
	return lookup(e);
}
static Z3_ast to_bool(E e) { return bv2b(to_z3(e)); }

static void read_model(Z3_solver s, const std::vector<E>& cons, Model* out)
{
	Z3_model m = Z3_solver_get_model(ctx, s);
	Z3_model_inc_ref(ctx, m);
	std::unordered_set<uint32_t> vs;
	for(E c : cons) for(uint32_t v : vars_of(c)) vs.insert(v);
	for(uint32_t v : vs) {
		Z3_ast r = nullptr;
		if(!Z3_model_eval(ctx, m, to_z3(g_vars[v].e), true, &r) || !r) continue;
		Z3_inc_ref(ctx, r);
		u128 val = 0;
		if(g_vars[v].w <= 64) { uint64_t x = 0; Z3_get_numeral_uint64(ctx, r, &x); val = x; }
		else { const char* s = Z3_get_numeral_string(ctx, r); for(; *s; ++s) val = val * 10 + (*s - '0'); }
		Z3_dec_ref(ctx, r);
		out->v[v] = val;
	}
	Z3_model_dec_ref(ctx, m);
}

struct CacheKeyHash { size_t operator()(const std::vector<uint32_t>& v) const { uint64_t h = 1469598103934665603ull; for(auto x : v) { h ^= x; h *= 1099511628211ull; h ^= h >> 29; } return h; } };
struct CacheVal { int res; Model m; };
static std::unordered_map<std::vector<uint32_t>, CacheVal, CacheKeyHash> g_cache;

static void set_param(Z3_solver s, unsigned ms) {
	Z3_params p = Z3_mk_params(ctx); Z3_params_inc_ref(ctx, p);
	Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, "timeout"), ms);
	Z3_solver_set_params(ctx, s, p);
	Z3_params_dec_ref(ctx, p);
}

int solve(const std::vector<E>& cons_, Model* out)
{
	init();
	std::vector<E> cons;
	for(E c : cons_) { if(c->is_const()) { if(!c->val) return 0; continue; } cons.push_back(c); }
	if(cons.empty()) return 1;
	std::vector<uint32_t> key;
	for(E c : cons) key.push_back(c->id);
	std::sort(key.begin(), key.end()); key.erase(std::unique(key.begin(), key.end()), key.end());
	auto it = g_cache.find(key);
	if(it != g_cache.end()) { g_sstat.cache_hits++; if(it->second.res == 1 && out) for(auto& p : it->second.m.v) out->v[p.first] = p.second; return it->second.res; }
	g_sstat.queries++;
	auto t0 = std::chrono::steady_clock::now();
	int res = -1;
	Model m;
	{
		set_param(inc, 400);
		Z3_solver_push(ctx, inc);
		for(E c : cons) Z3_solver_assert(ctx, inc, to_bool(c));
		Z3_lbool r = Z3_solver_check(ctx, inc);
		if(r == Z3_L_TRUE) { res = 1; read_model(inc, cons, &m); }
		else if(r == Z3_L_FALSE) res = 0;
		Z3_solver_pop(ctx, inc, 1);
	}
	if(res < 0) {	// a few concrete assignments: cheap witnesses for satisfiable queries
		std::vector<uint32_t> vs;
		for(E c : cons) for(uint32_t v : vars_of(c)) vs.push_back(v);
		std::sort(vs.begin(), vs.end()); vs.erase(std::unique(vs.begin(), vs.end()), vs.end());
		static uint64_t seed = 88172645463325252ull;
		auto rnd = [&]() { seed ^= seed << 13; seed ^= seed >> 7; seed ^= seed << 17; return seed; };
		for(int t = 0; t < 60 && res < 0; ++t) {
			Model g; std::unordered_map<E, u128> memo;
			for(uint32_t v : vs) { u128 x = ((u128)rnd() << 64) | rnd(); int k = t < 20 ? 0 : rnd() % 4; if(k == 1) x = 0; else if(k == 2) x = ~(u128)0; else if(k == 3) x &= 7; g.v[v] = x & wmask(g_vars[v].w); }
			bool ok = true;
			for(E c : cons) if(!eval_expr(c, g, memo)) { ok = false; break; }
			if(ok) { res = 1; m = g; }
		}
	}
	if(res < 0) {
		g_sstat.hard++;
		Z3_tactic t = Z3_mk_tactic(ctx, "qfbv"); Z3_tactic_inc_ref(ctx, t);
		Z3_solver s = Z3_mk_solver_from_tactic(ctx, t); Z3_solver_inc_ref(ctx, s);
		set_param(s, (unsigned)(g_solver_timeout * 1000));
		for(E c : cons) Z3_solver_assert(ctx, s, to_bool(c));
		Z3_lbool r = Z3_solver_check(ctx, s);
		if(r == Z3_L_TRUE) { res = 1; read_model(s, cons, &m); }
		else if(r == Z3_L_FALSE) res = 0;
		Z3_solver_dec_ref(ctx, s);
		Z3_tactic_dec_ref(ctx, t);
	}
	double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	g_sstat.time += dt; g_sstat.max_time = std::max(g_sstat.max_time, dt);
	if(dt > 5 && getenv("SYMX_DUMP")) {
		static int n = 0; char f[64]; snprintf(f, sizeof f, "/tmp/symx_q%d_%d.smt2", (int)(dt), n++);
		FILE* fp = fopen(f, "w"); if(fp) { fputs(smt2_of(cons).c_str(), fp); fclose(fp); }
	}
	if(res == 1) {
		g_sstat.sat++;
		// trust but verify the model
		for(E c : cons) if(!eval_expr(c, m)) { fprintf(stderr, "solver model does not satisfy constraint\n"); res = -1; }
		if(out) for(auto& p : m.v) out->v[p.first] = p.second;
	} else if(res == 0) g_sstat.unsat++; else g_sstat.unknown++;
	if(res >= 0) { auto& cv = g_cache[key]; cv.res = res; cv.m = std::move(m); }
	return res;
}

// Cheap refutation by interval reasoning: bounds that the path constraints put on terms are propagated into e.
void analyse(Expr& e);
namespace {
struct Refine {
	std::unordered_map<E, std::pair<u128, u128>> bnd;
	std::unordered_map<E, Expr*> memo; std::deque<Expr> store; int budget = 4000;
	void bound(E t, u128 lo, u128 hi) {
		while(true) {
			auto it = bnd.find(t);
			if(it == bnd.end()) bnd[t] = {lo, hi}; else { it->second.first = std::max(it->second.first, lo); it->second.second = std::min(it->second.second, hi); }
			if(t->op == O_ZEXT) { t = t->a; hi = std::min(hi, wmask(t->w)); continue; }
			if(t->op == O_CONCAT && t->a->is_const() && t->a->val == 0) { t = t->b; hi = std::min(hi, wmask(t->w)); continue; }
			break;
		}
	}
	void learn(E c, bool pos) {
		if(c->w != 1) return;
		if(c->op == O_XOR && c->b->is_const() && c->b->val == 1) { learn(c->a, !pos); return; }
		if(pos && c->op == O_AND) { learn(c->a, true); learn(c->b, true); return; }
		if(!pos && c->op == O_OR) { learn(c->a, false); learn(c->b, false); return; }
		if(c->op != O_ULT && c->op != O_ULE && c->op != O_EQ) return;
		E a = c->a, b = c->b; if(a->w > 128) return;
		u128 M = wmask(a->w);
		if(c->op == O_EQ) { if(pos) { if(b->is_const()) bound(a, b->val, b->val); else if(a->is_const()) bound(b, a->val, a->val); } return; }
		bool strict = c->op == O_ULT;
		if(!pos) { std::swap(a, b); strict = !strict; }	// !(a<b) == b<=a
		if(b->is_const()) { if(strict && b->val == 0) return; bound(a, 0, strict ? b->val - 1 : b->val); }
		else if(a->is_const()) { if(strict && a->val == M) return; bound(b, strict ? a->val + 1 : a->val, M); }
	}
	const Expr* range(E e) {
		if(e->is_const()) return e;
		auto it = memo.find(e); if(it != memo.end()) return it->second;
		if(--budget < 0 || e->w > 128) return e;
		store.push_back(*e); Expr* t = &store.back();
		if(e->a) t->a = range(e->a); if(e->b) t->b = range(e->b); if(e->c) t->c = range(e->c);
		if((e->a && e->a->w > 128) || (e->b && e->b->w > 128)) { t->lo = e->lo; t->hi = e->hi; }
		else {
			analyse(*t);
			const Expr* a = t->a, * b = t->b;
			switch(e->op) {
			case O_ULT: if(a->hi < b->lo) t->lo = 1; else if(a->lo >= b->hi) t->hi = 0; break;
			case O_ULE: if(a->hi <= b->lo) t->lo = 1; else if(a->lo > b->hi) t->hi = 0; break;
			case O_EQ: if(a->hi < b->lo || a->lo > b->hi) t->hi = 0; else if(a->lo == a->hi && b->lo == b->hi && a->lo == b->lo) t->lo = 1; break;
			case O_AND: if(e->w == 1 && (a->hi == 0 || b->hi == 0)) t->hi = 0; break;
			case O_ITE: if(a->lo == 1) { t->lo = b->lo; t->hi = b->hi; t->kz = b->kz; t->ko = b->ko; } else if(a->hi == 0) { t->lo = t->c->lo; t->hi = t->c->hi; t->kz = t->c->kz; t->ko = t->c->ko; } break;
			default: break;
			}
		}
		t->lo = std::max(t->lo, e->lo); t->hi = std::min(t->hi, e->hi);
		auto bi = bnd.find(e); if(bi != bnd.end()) { t->lo = std::max(t->lo, bi->second.first); t->hi = std::min(t->hi, bi->second.second); }
		if(t->lo > t->hi) { t->lo = e->lo; t->hi = e->hi; }	// contradictory bounds: leave it to the solver
		memo[e] = t;
		return t;
	}
};
}
int solve_sliced(const std::vector<E>& cons, E e, Model* out)
{
	if(e->is_const() && !e->val) return 0;
	std::unordered_set<uint32_t> vs(vars_of(e).begin(), vars_of(e).end());
	uint64_t mask = e->vmask;
	std::vector<E> sel{e};
	std::vector<char> used(cons.size(), 0);
	bool changed = true;
	while(changed) {
		changed = false;
		for(size_t i = 0; i < cons.size(); ++i) {
			if(used[i] || !(cons[i]->vmask & mask)) continue;
			bool hit = false;
			for(uint32_t v : vars_of(cons[i])) if(vs.count(v)) { hit = true; break; }
			if(!hit) continue;
			used[i] = 1; changed = true;
			sel.push_back(cons[i]);
			for(uint32_t v : vars_of(cons[i])) vs.insert(v);
			mask |= cons[i]->vmask;
		}
	}
	if(!g_nosimp && sel.size() > 1 && e->w == 1) {
		Refine r; for(size_t i = 1; i < sel.size(); ++i) r.learn(sel[i], true);
		if(!r.bnd.empty() && r.range(e)->hi == 0) { g_sstat.interval++; return 0; }
	}
	return solve(sel, out);
}

std::string smt2_of(const std::vector<E>& cons)
{
	init();
	Z3_solver s = Z3_mk_solver(ctx); Z3_solver_inc_ref(ctx, s);
	for(E c : cons) Z3_solver_assert(ctx, s, to_bool(c));
	std::string r = "(set-logic QF_BV)\n" + std::string(Z3_solver_to_string(ctx, s)) + "(check-sat)\n";
	Z3_solver_dec_ref(ctx, s);
	return r;
}
