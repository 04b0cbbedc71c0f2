// differential test of the simplifier: random op DAG evaluated two ways
#include "expr.h"
#include <random>
#include <cstdio>
#include <cstdlib>
static std::mt19937_64 R(1);
int main(int argc, char** argv) {
	R.seed(argc > 1 ? atoi(argv[1]) : 1);
	long n = argc > 2 ? atol(argv[2]) : 200000, bad = 0;
	std::vector<E> vars;
	unsigned ws[] = {1, 8, 8, 16, 32, 64, 64, 128, 5, 33};
	for(int i = 0; i < 10; ++i) vars.push_back(mk_var("v" + std::to_string(i), ws[i]));
	struct T { E e; std::vector<u128> v; };
	const int NM = 6;
	for(long it = 0; it < n / 60; ++it) {
		std::vector<Model> ms(NM);
		for(int m = 0; m < NM; ++m) for(int i = 0; i < 10; ++i) { u128 x = ((u128)R() << 64) | R(); if(R() % 3 == 0) x = R() % 4; ms[m].v[vars[i]->aux] = x & wmask(ws[i]); }
		std::vector<T> pool;
		for(int i = 0; i < 10; ++i) { T t{vars[i], {}}; for(auto& m : ms) t.v.push_back(m.v[vars[i]->aux]); pool.push_back(t); }
		for(int k = 0; k < 60; ++k) {
			int op = R() % 26;
			T& a = pool[R() % pool.size()];
			unsigned w = a.e->w;
			auto pick = [&](unsigned w) -> T {
				if(R() % 3 == 0) { u128 c = R() % 2 ? (u128)(R() % 70) : (((u128)R() << 64) | R()); if(R() % 4 == 0) c = wmask(1 + R() % w); c &= wmask(w); T t{mk_const(c, w), {}}; t.v.assign(NM, c); return t; }
				std::vector<T*> c; for(auto& t : pool) if(t.e->w == w) c.push_back(&t);
				return *c[R() % c.size()];
			};
			T b = pick(w), r; Op o = O_ADD; unsigned rw = w, aux = 0; u128 cv = 0; (void)cv;
			T x = a;
			if(R() % 4 == 0) std::swap(x, b);
			T c3 = b;
			switch(op) {
			case 0: case 24: r.e = mk_add(x.e, b.e); o = O_ADD; break;
			case 1: r.e = mk_mul(x.e, b.e); o = O_MUL; break;
			case 2: r.e = mk_udiv(x.e, b.e); o = O_UDIV; break;
			case 3: r.e = mk_sdiv(x.e, b.e); o = O_SDIV; break;
			case 4: r.e = mk_urem(x.e, b.e); o = O_UREM; break;
			case 5: r.e = mk_srem(x.e, b.e); o = O_SREM; break;
			case 6: r.e = mk_and(x.e, b.e); o = O_AND; break;
			case 7: case 25: r.e = mk_or(x.e, b.e); o = O_OR; break;
			case 8: r.e = mk_xor(x.e, b.e); o = O_XOR; break;
			case 9: r.e = mk_shl(x.e, b.e); o = O_SHL; break;
			case 10: r.e = mk_lshr(x.e, b.e); o = O_LSHR; break;
			case 11: r.e = mk_ashr(x.e, b.e); o = O_ASHR; break;
			case 12: r.e = mk_eq(x.e, b.e); o = O_EQ; rw = 1; break;
			case 13: r.e = mk_ult(x.e, b.e); o = O_ULT; rw = 1; break;
			case 14: r.e = mk_ule(x.e, b.e); o = O_ULE; rw = 1; break;
			case 15: r.e = mk_slt(x.e, b.e); o = O_SLT; rw = 1; break;
			case 16: r.e = mk_sle(x.e, b.e); o = O_SLE; rw = 1; break;
			case 17: case 18: { T c = pick(1); c3 = b; r.e = mk_ite(c.e, x.e, b.e); for(int m = 0; m < NM; ++m) r.v.push_back(c.v[m] ? x.v[m] : b.v[m]); break; }
			case 19: { T y = pool[R() % pool.size()]; if(x.e->w + y.e->w > 128) { r = x; break; } r.e = mk_concat(x.e, y.e); for(int m = 0; m < NM; ++m) r.v.push_back((x.v[m] << y.e->w) | y.v[m]); break; }
			case 20: case 21: { aux = R() % w; rw = 1 + R() % (w - aux); r.e = mk_extract(x.e, aux, rw); for(int m = 0; m < NM; ++m) r.v.push_back((x.v[m] >> aux) & wmask(rw)); break; }
			case 22: { rw = w + R() % (129 - w); r.e = mk_zext(x.e, rw); r.v = x.v; break; }
			case 23: { rw = w + R() % (129 - w); r.e = mk_sext(x.e, rw); for(int m = 0; m < NM; ++m) r.v.push_back(eval_op(O_SEXT, rw, w, x.v[m], 0, 0, 0, 0)); break; }
			}
			if(r.v.empty()) for(int m = 0; m < NM; ++m) r.v.push_back(eval_op(o, rw, w, x.v[m], b.v[m], 0, 0, w));
			for(int m = 0; m < NM; ++m) {
				u128 g = eval_expr(r.e, ms[m]);
				if(g != r.v[m] || r.v[m] < r.e->lo || r.v[m] > r.e->hi || (r.v[m] & r.e->kz) || (~r.v[m] & r.e->ko)) {
					if(bad++ < 10) printf("MISMATCH op %d w %u: %s  (x=%s b=%s) got %llx want %llx lo %llx hi %llx\n", op, r.e->w, to_string(r.e).c_str(), to_string(x.e, 3).c_str(), to_string(b.e, 3).c_str(), (unsigned long long)g, (unsigned long long)r.v[m], (unsigned long long)r.e->lo, (unsigned long long)r.e->hi);
				}
			}
			pool.push_back(r);
		}
	}
	printf("expr_test: %ld terms, %ld mismatches\n", n, bad);
	return bad != 0;
}
