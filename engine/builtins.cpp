#include "engine.h"
#include <cmath>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
using namespace llvm;
extern Val fp_binop(int op, Val a, Val b, int k);
extern long double fp_get(Val v, int k);
extern Val fp_put(long double d, int k);

#define B(name) static void name(Engine& e, State& s, const Ins& in)
static void ret(Engine& e, State& s, const Ins& in, Val v) { e.setres(s, in, v); e.finish_call(s, in); }
static void retv(Engine& e, State& s, const Ins& in) { e.finish_call(s, in); }

static Val ev(E x) { return Val::of(x); }

// ---- harness API -----------------------------------------------------------
B(b_sym) {
	std::string n = e.cstr(s, e.carg(s, in, 0)); unsigned w = e.carg(s, in, 1);
	for(auto& c : n) if(c == ' ') c = '_';
	E v;
	if(e.rnd >= 0) {
		static uint64_t x; x = x * 6364136223846793005ull + 1442695040888963407ull + e.rnd;
		uint64_t c = x ^ (x >> 29); if((x >> 60) == 0) c = (x >> 20) & 3; if((x >> 60) == 1) c = ~0ull;
		v = mk_const(c, w);
	} else {
		v = mk_var(n + "#" + std::to_string(s.nsym) + "." + std::to_string(w), w);
	}
	s.nsym++;
	s.tr('S', n, w, v, 0);
	ret(e, s, in, ev(mk_zext(v, 64)));
}
B(b_choice) {
	uint64_t n = e.carg(s, in, 0); std::string nm = e.cstr(s, e.carg(s, in, 1));
	for(auto& c : nm) if(c == ' ') c = '_';
	uint64_t pick = 0;
	if(n == 0) e.end(2);
	if(e.rnd >= 0) { e.rnd = (e.rnd * 1103515245 + 12345) & 0x7fffffff; pick = (e.rnd >> 8) % n; }
	else for(uint64_t i = n; i-- > 1;) { State* f = e.fork(s); f->tr('C', nm, 64, nullptr, i); ret(e, *f, in, Val(i)); }
	s.tr('C', nm, 64, nullptr, pick);
	ret(e, s, in, Val(pick));
}
B(b_assume) {
	Val c = e.arg(s, in, 0);
	E x = c.ex(in.aw[0]);
	if(x->w != 1) x = mk_not(mk_eq(x, mk_const(0, x->w)));
	if(!e.assume(s, x)) e.end(2);
	retv(e, s, in);
}
B(b_assert) {
	if(getenv("SYMX_SHOW")) { Val v = e.arg(s, in, 0); if(!v.conc()) fprintf(stderr, "ASSERT %s\n", to_string(v.e, atoi(getenv("SYMX_SHOW"))).c_str()); }
	Val c = e.arg(s, in, 0);
	E x = c.ex(in.aw[0]);
	if(x->w != 1) x = mk_not(mk_eq(x, mk_const(0, x->w)));
	e.n_asserts++;
	if(x->is_const()) {
		if(!x->val) { e.violation(s, "assert", e.cstr(s, e.carg(s, in, 1))); e.end(1); }
	} else {
		e.n_assert_q++;
		std::shared_ptr<Witness> w;
		if(e.feasible(s, mk_not(x), &w)) {
			e.violation(s, "assert", e.cstr(s, e.carg(s, in, 1)), w);
			e.end(1);
		}
	}
	retv(e, s, in);
}
B(b_unsupported) { e.unsupported(s, e.cstr(s, e.carg(s, in, 0))); }
B(b_cover) { e.covers[e.cstr(s, e.carg(s, in, 0))]++; retv(e, s, in); }
B(b_observe) {
	Val v = e.arg(s, in, 0); std::string n = e.cstr(s, e.carg(s, in, 1));
	uint64_t c = v.conc() ? v.c : (uint64_t)e.wval(s, v.e);
	(void)c;
	for(auto& ch : n) if(ch == ' ') ch = '_';
	s.tr('O', n, 64, v.conc() ? nullptr : v.e, v.c);
	retv(e, s, in);
}
B(b_concretize) { uint64_t c = e.carg(s, in, 0); ret(e, s, in, Val(c)); }
B(b_end) { e.end(0); }
B(b_allow_abort) { s.allow_abort = e.carg(s, in, 0); retv(e, s, in); }
B(b_abort_hook) { s.abort_hook = e.carg(s, in, 0); retv(e, s, in); }
B(b_is_engine) { ret(e, s, in, Val(1)); }
B(b_uninit) {
	uint64_t a = e.carg(s, in, 0), n = e.carg(s, in, 1);
	e.check_range(s, a, n, true);
	uint64_t off = (a & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
	Obj* o = e.slot(s, a, true).p;
	for(uint64_t i = 0; i < n; ++i) { Page* p = o->wr(off + i); p->mksym(); p->s[(off + i) % PS] = UNINIT; }
	retv(e, s, in);
}
B(b_print) { if(e.verbose) { Val v = e.arg(s, in, 1); fprintf(stderr, "[print] %s = %s\n", e.cstr(s, e.carg(s, in, 0)).c_str(), v.conc() ? std::to_string(v.c).c_str() : to_string(v.e, 12).c_str()); } retv(e, s, in); }
B(b_is_sym) { Val v = e.arg(s, in, 0); ret(e, s, in, Val(v.conc() ? 0 : 1)); }
B(b_set_preempt) { e.max_preempt = (int)(int64_t)e.carg(s, in, 0); retv(e, s, in); }

// ---- memory ----------------------------------------------------------------
B(b_malloc) {
	uint64_t n = e.carg(s, in, 0);
	uint64_t a = e.alloc(s, n, OK_HEAP, loc_of(in.I)); ret(e, s, in, Val(a));
}
B(b_calloc) { uint64_t n = e.carg(s, in, 0) * e.carg(s, in, 1); uint64_t a = e.alloc(s, n, OK_HEAP, loc_of(in.I)); e.slot(s, a, true)->zero = true; ret(e, s, in, Val(a)); }
B(b_realloc) {
	uint64_t p = e.carg(s, in, 0), n = e.carg(s, in, 1);
	uint64_t a = e.alloc(s, n, OK_HEAP, loc_of(in.I));
	if(p) { Obj* o = e.find(s, p); if(!o || o->freed) { e.violation(s, "memory", "realloc of invalid pointer"); e.end(1); } e.copy_mem(s, a, p, std::min(n, o->size)); e.free_obj(s, p, "free"); }
	ret(e, s, in, Val(a));
}
B(b_free) { e.free_obj(s, e.carg(s, in, 0), "free"); retv(e, s, in); }
B(b_memalign) { uint64_t a = e.alloc(s, e.carg(s, in, 1), OK_HEAP, loc_of(in.I)); ret(e, s, in, Val(a)); }
B(b_memcpy) {
	uint64_t n = e.carg(s, in, 2);
	if(n == 0) { ret(e, s, in, e.arg(s, in, 0)); return; }
	Val d = e.arg(s, in, 0), q = e.arg(s, in, 1);
	if((!d.conc() || !q.conc()) && n <= 16) { // symbolic addresses: go through the symbolic load/store
		Val v = e.load_mem(s, q, n); e.store_mem(s, d, n, v);
		ret(e, s, in, d); return;
	}
	uint64_t da = e.carg(s, in, 0), sa = e.carg(s, in, 1);
	e.copy_mem(s, da, sa, n);
	ret(e, s, in, Val(da));
}
B(b_memset) {
	uint64_t n = e.carg(s, in, 2), d = e.carg(s, in, 0);
	Val v = e.arg(s, in, 1);
	if(!n) { ret(e, s, in, Val(d)); return; }
	e.check_range(s, d, n, true);
	if(e.races) e.access(s, d, n, true);
	E b = v.conc() ? nullptr : mk_extract(v.e, 0, 8);
	uint64_t off = (d & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
	Obj* o = e.slot(s, d, true).p;
	if(!b && v.c == 0 && off == 0 && n == o->size) { o->pages.assign(o->pages.size(), Ref<Page>()); o->zero = true; o->hashed = false; ret(e, s, in, Val(d)); return; }
	for(uint64_t i = 0; i < n;) {
		Page* p = o->wr(off + i); unsigned k = (off + i) % PS; uint64_t m = std::min<uint64_t>(n - i, PS - k);
		memset(p->c + k, b ? 0 : (uint8_t)v.c, m);
		if(b) { p->mksym(); for(uint64_t j = 0; j < m; ++j) p->s[k + j] = b; }
		else if(p->s) for(uint64_t j = 0; j < m; ++j) p->s[k + j] = nullptr;
		i += m;
	}
	ret(e, s, in, Val(d));
}
B(b_memcmp) {
	uint64_t n = e.carg(s, in, 2), a = e.carg(s, in, 0), b = e.carg(s, in, 1);
	if(n) { e.check_range(s, a, n, false); e.check_range(s, b, n, false); }
	E r = mk_const(0, 32);
	std::vector<std::pair<E, E>> v;
	for(uint64_t i = 0; i < n; ++i) {
		E x = e.load_mem(s, Val(a + i), 1).ex(8), y = e.load_mem(s, Val(b + i), 1).ex(8);
		v.push_back({x, y});
		if(x->is_const() && y->is_const() && x->val != y->val) break;
	}
	for(size_t i = v.size(); i-- > 0;) {
		E eq = mk_eq(v[i].first, v[i].second);
		if(eq->is_const() && eq->val) continue;
		r = mk_ite(eq, r, mk_ite(mk_ult(v[i].first, v[i].second), mk_const(~(u128)0, 32), mk_const(1, 32)));
	}
	ret(e, s, in, ev(r));
}
B(b_strlen) {
	uint64_t a = e.carg(s, in, 0), n = 0;
	while(e.rd_u8(s, a + n)) ++n;
	ret(e, s, in, Val(n));
}

// ---- exceptions ------------------------------------------------------------
B(b_alloc_exn) { uint64_t a = e.alloc(s, std::max<uint64_t>(e.carg(s, in, 0), 16), OK_HEAP, "exception"); s.exns[a] = ExnInfo{0, 0, 0}; ret(e, s, in, Val(a)); }
B(b_free_exn) { retv(e, s, in); }
B(b_throw) {
	uint64_t x = e.carg(s, in, 0);
	s.exns[x].ti = e.carg(s, in, 1); s.exns[x].dtor = e.carg(s, in, 2);
	e.throw_exn(s, x);
}
B(b_begin_catch) { uint64_t x = e.carg(s, in, 0); s.exns[x].handlers++; s.T().caught.push_back(x); ret(e, s, in, Val(x)); }
B(b_get_exn_ptr) { ret(e, s, in, e.arg(s, in, 0)); }
B(b_end_catch) {
	auto& c = s.T().caught;
	if(!c.empty()) {
		uint64_t x = c.back(); c.pop_back();
		if(s.exns.count(x) && --s.exns[x].handlers <= 0) {
			if(Obj* o = e.find(s, x)) if(!o->freed) { bool r = e.races; e.races = false; e.free_obj(s, x, "free"); e.races = r; }
			s.exns.erase(x);
		}
	}
	retv(e, s, in);
}
B(b_rethrow) {
	if(s.T().caught.empty()) { e.abort_path(s, "rethrow without exception"); return; }
	uint64_t x = s.T().caught.back();
	s.exns[x].handlers++;	// survives the end_catch on the way out
	s.exns[x].handlers += 0;
	e.throw_exn(s, x);
}
// std::exception_ptr: one word, reference count shared with the handlers
static void exn_ref(State& s, uint64_t x) { if(x) s.exns[x].handlers++; }
B(b_cur_exn) { uint64_t p = e.carg(s, in, 0), x = s.T().caught.empty() ? 0 : s.T().caught.back(); exn_ref(s, x); e.store_mem(s, Val(p), 8, Val(x)); retv(e, s, in); }
B(b_exn_addref) { Val v = e.load_mem(s, Val(e.carg(s, in, 0)), 8); exn_ref(s, v.c); retv(e, s, in); }
B(b_exn_release) {
	uint64_t p = e.carg(s, in, 0), x = e.load_mem(s, Val(p), 8).c;
	if(x && s.exns.count(x) && --s.exns[x].handlers <= 0) {
		if(Obj* o = e.find(s, x)) if(!o->freed) { bool r = e.races; e.races = false; e.free_obj(s, x, "free"); e.races = r; }
		s.exns.erase(x); e.store_mem(s, Val(p), 8, Val(0));
	}
	retv(e, s, in);
}
B(b_exn_rethrow) { uint64_t x = e.load_mem(s, Val(e.carg(s, in, 0)), 8).c; if(!x) { e.abort_path(s, "rethrow of an empty exception_ptr"); return; } exn_ref(s, x); e.throw_exn(s, x); }
B(b_uncaught) { ret(e, s, in, Val(0)); }
B(b_terminate) { e.abort_path(s, "std::terminate"); }
B(b_abort) { e.abort_path(s, "abort"); }
B(b_assert_fail) { std::string m = e.cstr(s, e.carg(s, in, 0)); e.abort_path(s, "assertion failed: " + m); }
B(b_pure) { e.abort_path(s, "pure virtual call"); }
B(b_exit) { // process exit: same as abort for the purposes of the harness, with the code observable
	uint64_t c = e.carg(s, in, 0);
	e.abort_path(s, "exit(" + std::to_string((int)c) + ")");
}

B(b_crash) { s.allow_abort = 1; e.abort_path(s, "crash"); }

// ---- threads ---------------------------------------------------------------
B(b_sched_point) { if(e.sync_point(s)) return; retv(e, s, in); }
B(b_mutex_lock) {
	if(e.sync_point(s)) return;
	uint64_t m = e.carg(s, in, 0);
	MutexSt& x = s.mtx[m];
	if(x.owner >= 0) {
		if(x.owner == s.cur && e.rd_u8(s, m + 16) == 1) { x.depth++; ret(e, s, in, Val(0)); return; }	// PTHREAD_MUTEX_RECURSIVE
		if(x.owner == s.cur) { e.violation(s, "deadlock", "mutex locked twice by the same thread"); e.end(1); }
		s.T().stat = T_MUTEX; s.T().waddr = m; e.sched(s, true); return;
	}
	x.owner = s.cur; if(e.races) s.T().vc.join(s.mvc[m]);
	ret(e, s, in, Val(0));
}
B(b_mutex_trylock) {
	if(e.sync_point(s)) return;
	uint64_t m = e.carg(s, in, 0);
	MutexSt& x = s.mtx[m];
	if(x.owner == s.cur && e.rd_u8(s, m + 16) == 1) { x.depth++; ret(e, s, in, Val(0)); return; }
	if(x.owner >= 0) { ret(e, s, in, Val(16)); return; }
	x.owner = s.cur; if(e.races) s.T().vc.join(s.mvc[m]);
	ret(e, s, in, Val(0));
}
static void release(Engine& e, State& s, uint64_t m) { s.mtx[m].owner = -1; if(e.races) { s.mvc[m].join(s.T().vc); s.T().vc.at(s.cur)++; } }
B(b_mutex_unlock) {
	uint64_t m = e.carg(s, in, 0);
	auto it = s.mtx.find(m);
	if(it == s.mtx.end() || it->second.owner != s.cur) { e.violation(s, "memory", "unlock of a mutex not held"); e.end(1); }
	if(it->second.depth > 0) it->second.depth--; else release(e, s, m);
	ret(e, s, in, Val(0));
}
B(b_timed_wait) { // (cv, mutex): 1 if the time limit was reached; both null: sleep or yield
	uint64_t cv = e.carg(s, in, 0), m = e.carg(s, in, 1);
	Thread& T = s.T();
	if(T.phase == 0) {
		if(!m && s.th.size() == 1) { ret(e, s, in, Val(1)); return; }
		if(m && s.mtx[m].owner != s.cur) { e.violation(s, "memory", "condition wait without holding the mutex"); e.end(1); }
		if(m) release(e, s, m);
		T.stat = T_CV; T.waddr = cv; T.wmutex = m; T.sched_ok = false; T.timed = true;
		e.sched(s, true); return;
	}
	T.timed = false;
	if(m) {
		MutexSt& x = s.mtx[m];
		if(x.owner >= 0) { T.stat = T_MUTEX; T.waddr = m; e.sched(s, true); return; }
		x.owner = s.cur; if(e.races) T.vc.join(s.mvc[m]);
	}
	const bool late = T.phase == 2; T.phase = 0; T.sched_ok = false;
	ret(e, s, in, Val(late));
}
B(b_cv_wait) {
	uint64_t cv = e.carg(s, in, 0), m = e.carg(s, in, 1);
	Thread& T = s.T();
	if(T.phase == 0) {
		if(s.mtx[m].owner != s.cur) { e.violation(s, "memory", "condition wait without holding the mutex"); e.end(1); }
		release(e, s, m);
		T.stat = T_CV; T.waddr = cv; T.wmutex = m; T.sched_ok = false;
		e.sched(s, true); return;
	}
	MutexSt& x = s.mtx[m];
	if(x.owner >= 0) { T.stat = T_MUTEX; T.waddr = m; e.sched(s, true); return; }
	x.owner = s.cur; T.phase = 0; T.sched_ok = false; if(e.races) T.vc.join(s.mvc[m]);
	ret(e, s, in, Val(0));
}
B(b_cv_notify_all) {
	if(e.sync_point(s)) return;
	uint64_t cv = e.carg(s, in, 0);
	for(auto& T : s.th) if(T.stat == T_CV && T.waddr == cv) { T.stat = T_MUTEX; T.waddr = T.wmutex; T.phase = 1; }
	ret(e, s, in, Val(0));
}
B(b_cv_notify_one) {
	if(e.sync_point(s)) return;
	uint64_t cv = e.carg(s, in, 0);
	std::vector<int> w;
	for(size_t i = 0; i < s.th.size(); ++i) if(s.th[i].stat == T_CV && s.th[i].waddr == cv) w.push_back(i);
	auto wake = [&](State& x, int t) { Thread& T = x.th[t]; T.stat = T_MUTEX; T.waddr = T.wmutex; T.phase = 1; };
	if(w.size() > 1) {
		if(e.rnd < 0) for(size_t i = w.size(); i-- > 1;) { State* f = e.fork(s); f->tr('N', "notify", 8, nullptr, w[i]); wake(*f, w[i]); ret(e, *f, in, Val(0)); }
		s.tr('N', "notify", 8, nullptr, w[0]);
	}
	if(!w.empty()) wake(s, w[0]);
	ret(e, s, in, Val(0));
}
B(b_thread_create) { // vp_thread_create(fn, arg) -> tid
	uint64_t fn = e.carg(s, in, 0); Val a = e.arg(s, in, 1);
	if(s.th.size() >= 1000) e.unsupported(s, "more than 1000 threads");
	int id = s.th.size();
	s.th.emplace_back();
	s.ar.resize(ARENA_THREAD0 + 2 * (id + 1));
	Thread& T = s.th[id];
	if(e.races) { T.vc = s.th[s.cur].vc; T.vc.at(id) = 1; s.th[s.cur].vc.at(s.cur)++; }
	int c = s.cur; s.cur = id;
	e.push_call(s, e.fbyaddr[fn], {a});
	s.cur = c;
	ret(e, s, in, Val(id));
	if(id < 64 && __builtin_popcountll(s.slow) < e.max_slow) e.fork(s)->slow |= 1ull << id;
}
B(b_thread_join) {
	if(e.sync_point(s)) return;
	uint64_t t = e.carg(s, in, 0);
	if(t >= s.th.size()) { e.violation(s, "memory", "join of invalid thread"); e.end(1); }
	if(s.th[t].stat != T_DONE) { s.T().stat = T_JOIN; s.T().waddr = t; e.sched(s, true); return; }
	if(e.races) s.T().vc.join(s.th[t].vc);
	ret(e, s, in, Val(0));
}
B(b_thread_self) { ret(e, s, in, Val(s.cur)); }

// ---- misc libc --------------------------------------------------------------
B(b_zero) { ret(e, s, in, Val(0)); }
B(b_one) { ret(e, s, in, Val(1)); }
B(b_nop) { retv(e, s, in); }
B(b_arg0) { ret(e, s, in, e.arg(s, in, 0)); }
static std::string fmt(Engine& e, State& s, const std::string& f, const std::vector<Val>& va, const std::vector<uint16_t>& vaw)
{
	std::string out; size_t k = 0;
	auto next = [&](unsigned w) -> uint64_t { if(k >= va.size()) return 0; Val v = va[k++]; return v.conc() ? v.c : e.concretize(s, v, w); };
	for(size_t i = 0; i < f.size(); ++i) {
		if(f[i] != '%') { out.push_back(f[i]); continue; }
		std::string sp = "%"; ++i;
		while(i < f.size() && (strchr("-+ #0.'", f[i]) || isdigit(f[i]) || f[i] == '*')) { if(f[i] == '*') { sp += std::to_string((int)next(32)); } else sp.push_back(f[i]); ++i; }
		std::string len; while(i < f.size() && strchr("hlLqjzt", f[i])) len.push_back(f[i++]);
		char c = i < f.size() ? f[i] : 0; char b[512];
		switch(c) {
		case '%': out.push_back('%'); break;
		case 'd': case 'i': { uint64_t v = next(64); long long x = len.empty() || len[0] == 'h' ? (int)v : (long long)v; snprintf(b, sizeof b, (sp + "lld").c_str(), x); out += b; break; }
		case 'u': case 'x': case 'X': case 'o': { uint64_t v = next(64); if(len.empty()) v &= 0xffffffff; if(len == "hh") v &= 0xff; else if(len == "h") v &= 0xffff; snprintf(b, sizeof b, (sp + "ll" + c).c_str(), (unsigned long long)v); out += b; break; }
		case 'p': snprintf(b, sizeof b, "0x%llx", (unsigned long long)next(64)); out += b; break;
		case 'c': out.push_back((char)next(32)); break;
		case 's': { std::string x = e.cstr(s, next(64)); std::string r(x.size() + 300, 0); int n = snprintf(&r[0], r.size(), (sp + "s").c_str(), x.c_str()); out += r.substr(0, n); break; }
		case 'f': case 'g': case 'e': case 'G': case 'E': { if(k < va.size() && vaw[k] == 80) { long double d = fp_get(va[k], 3); ++k; snprintf(b, sizeof b, (sp + "L" + c).c_str(), d); } else { double d = (double)fp_get(Val(next(64)), 2); snprintf(b, sizeof b, (sp + c).c_str(), d); } out += b; break; }
		default: out += "?"; break;
		}
	}
	return out;
}
static void put_str(Engine& e, State& s, uint64_t d, uint64_t n, const std::string& o) {
	if(!n) return;
	uint64_t m = std::min<uint64_t>(o.size(), n - 1);
	e.check_range(s, d, m + 1, true);
	for(uint64_t i = 0; i < m; ++i) e.writev(s, d + i, 1, Val((uint8_t)o[i]));
	e.writev(s, d + m, 1, Val(0));
}
B(b_snprintf) {
	uint64_t d = e.carg(s, in, 0), n = e.carg(s, in, 1); std::string f = e.cstr(s, e.carg(s, in, 2));
	std::vector<Val> va; std::vector<uint16_t> vw; for(size_t i = 3; i < in.an.size(); ++i) { va.push_back(e.arg(s, in, i)); vw.push_back(in.aw[i]); }
	std::string o = fmt(e, s, f, va, vw);
	put_str(e, s, d, n, o);
	ret(e, s, in, Val(o.size()));
}
B(b_sprintf) {
	uint64_t d = e.carg(s, in, 0); std::string f = e.cstr(s, e.carg(s, in, 1));
	std::vector<Val> va; std::vector<uint16_t> vw; for(size_t i = 2; i < in.an.size(); ++i) { va.push_back(e.arg(s, in, i)); vw.push_back(in.aw[i]); }
	std::string o = fmt(e, s, f, va, vw);
	put_str(e, s, d, o.size() + 1, o);
	ret(e, s, in, Val(o.size()));
}
B(b_vsnprintf) { // va_list: our va_start stores a frame cookie
	uint64_t d = e.carg(s, in, 0), n = e.carg(s, in, 1); std::string f = e.cstr(s, e.carg(s, in, 2));
	uint64_t ap = e.carg(s, in, 3);
	Val ck = e.load_mem(s, Val(ap), 8);
	Frame* fr = nullptr; if(ck.conc() && ck.c < s.T().st.size()) fr = &s.T().st[ck.c];
	if(!fr) e.unsupported(s, "va_list");
	std::string o = fmt(e, s, f, fr->va, fr->vaw);
	put_str(e, s, d, n, o);
	ret(e, s, in, Val(o.size()));
}
B(b_printf) { ret(e, s, in, Val(1)); }
B(b_va_start) { e.store_mem(s, e.arg(s, in, 0), 8, Val(s.T().st.size() - 1)); retv(e, s, in); }
template<long double (*F)(long double)> static void fp1(Engine& e, State& s, const Ins& in) { int k = in.fp ? in.fp : 2; Val v = e.arg(s, in, 0); if(k != 3) v = Val(e.carg(s, in, 0)); ret(e, s, in, fp_put(F(fp_get(v, k)), k)); }
static long double f_log2(long double x) { return log2((double)x); }
static long double f_log2l(long double x) { return log2l(x); }
static long double f_log(long double x) { return log((double)x); }
static long double f_exp2(long double x) { return exp2((double)x); }
static long double f_exp(long double x) { return exp((double)x); }
static long double f_sqrt(long double x) { return sqrtl(x); }
static long double f_floor(long double x) { return floorl(x); }
static long double f_ceil(long double x) { return ceill(x); }
static long double f_fabs(long double x) { return fabsl(x); }
static long double f_round(long double x) { return roundl(x); }
static long double f_trunc(long double x) { return truncl(x); }
static long double f_rint(long double x) { return rintl(x); }
B(b_pow) { int k = in.fp ? in.fp : 2; Val a = Val(e.carg(s, in, 0)), b = Val(e.carg(s, in, 1)); ret(e, s, in, fp_put(pow((double)fp_get(a, k), (double)fp_get(b, k)), k)); }
B(b_powi) { int k = in.fp ? in.fp : 2; Val a = Val(e.carg(s, in, 0)); int b = (int)e.carg(s, in, 1); ret(e, s, in, fp_put(__builtin_powi((double)fp_get(a, k), b), k)); }
B(b_fmuladd) { int k = in.fp; Val a = Val(e.carg(s, in, 0)), b = Val(e.carg(s, in, 1)), c = Val(e.carg(s, in, 2)); ret(e, s, in, fp_binop(I_FADD, fp_binop(I_FMUL, a, b, k), c, k)); }

static E mkbin(int k, E x, E y) {
	switch(k) {
	case 0: return mk_ite(mk_ult(x, y), y, x); case 1: return mk_ite(mk_ult(x, y), x, y);
	case 2: return mk_ite(mk_slt(x, y), y, x); default: return mk_ite(mk_slt(x, y), x, y);
	}
}
template<int K> static void minmax(Engine& e, State& s, const Ins& in) {
	Frame& f = s.F(); std::vector<Val> t;
	if(e.fork_select && in.n == 1) {
		E x = e.op(f, in.a[0], 0).ex(in.w), y = e.op(f, in.a[1], 0).ex(in.w); E c = K < 2 ? mk_ult(x, y) : mk_slt(x, y);
		State* o; bool v = e.branch(s, c, &o);	// the other state re-executes the call
		f.r[in.dst] = ev(v == (K % 2 == 1) ? x : y);
		e.finish_call(s, in); return;
	}
	for(int i = 0; i < in.n; ++i) t.push_back(ev(mkbin(K, e.op(f, in.a[0], i).ex(in.w), e.op(f, in.a[1], i).ex(in.w))));
	for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = t[i];
	e.finish_call(s, in);
}
template<int K> static void sat(Engine& e, State& s, const Ins& in) {
	E x = e.arg(s, in, 0).ex(in.w), y = e.arg(s, in, 1).ex(in.w);
	if(K == 0) ret(e, s, in, ev(mk_ite(mk_ult(x, y), mk_const(0, in.w), mk_sub(x, y))));
	else { E r = mk_add(x, y); ret(e, s, in, ev(mk_ite(mk_ult(r, x), mk_const(~(u128)0, in.w), r))); }
}
B(b_abs) { E x = e.arg(s, in, 0).ex(in.w); ret(e, s, in, ev(mk_ite(mk_slt(x, mk_const(0, in.w)), mk_sub(mk_const(0, in.w), x), x))); }
B(b_ctpop) { Frame& f = s.F(); for(int k = 0; k < in.n; ++k) { E x = e.op(f, in.a[0], k).ex(in.w); E r = mk_const(0, in.w); for(unsigned i = 0; i < in.w; ++i) r = mk_add(r, mk_zext(mk_extract(x, i, 1), in.w)); f.r[in.dst + k] = ev(r); } e.finish_call(s, in); }
B(b_ctlz) { E x = e.arg(s, in, 0).ex(in.w); E r = mk_const(in.w, in.w); for(unsigned i = 0; i < in.w; ++i) r = mk_ite(mk_extract(x, i, 1), mk_const(in.w - 1 - i, in.w), r); ret(e, s, in, ev(r)); }
B(b_cttz) { E x = e.arg(s, in, 0).ex(in.w); E r = mk_const(in.w, in.w); for(unsigned i = in.w; i-- > 0;) r = mk_ite(mk_extract(x, i, 1), mk_const(i, in.w), r); ret(e, s, in, ev(r)); }
B(b_bswap) { Frame& f = s.F(); for(int k = 0; k < in.n; ++k) { E x = e.op(f, in.a[0], k).ex(in.w); E r = nullptr; for(unsigned i = 0; i < in.w / 8; ++i) { E b = mk_extract(x, i * 8, 8); r = r ? mk_concat(r, b) : b; } f.r[in.dst + k] = ev(r); } e.finish_call(s, in); }
B(b_bitreverse) { E x = e.arg(s, in, 0).ex(in.w); E r = nullptr; for(unsigned i = 0; i < in.w; ++i) { E b = mk_extract(x, i, 1); r = r ? mk_concat(r, b) : b; } ret(e, s, in, ev(r)); }
template<bool L> static void fsh(Engine& e, State& s, const Ins& in) {
	Frame& f = s.F(); std::vector<Val> t; unsigned w = in.w;
	for(int i = 0; i < in.n; ++i) {
		E a = e.op(f, in.a[0], i).ex(w), b = e.op(f, in.a[1], i).ex(w), c = e.op(f, in.a[2], i).ex(w);
		c = mk_urem(c, mk_const(w, w));
		E inv = mk_sub(mk_const(w, w), c), z = mk_eq(c, mk_const(0, w));
		if(L) t.push_back(ev(mk_ite(z, a, mk_or(mk_shl(a, c), mk_lshr(b, inv)))));
		else t.push_back(ev(mk_ite(z, b, mk_or(mk_lshr(b, c), mk_shl(a, inv)))));
	}
	for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = t[i];
	e.finish_call(s, in);
}
template<int K> static void ovf(Engine& e, State& s, const Ins& in) {
	unsigned w = in.rw[0]; if(w > 64) e.unsupported(s, "wide overflow intrinsic");
	E x = e.arg(s, in, 0).ex(w), y = e.arg(s, in, 1).ex(w), r, o;
	E zx = mk_zext(x, 2 * w), zy = mk_zext(y, 2 * w), sxx = mk_sext(x, 2 * w), sy = mk_sext(y, 2 * w), wr = nullptr;
	switch(K) {
	case 0: r = mk_add(x, y); o = mk_ult(r, x); break;
	case 1: r = mk_sub(x, y); o = mk_ult(x, y); break;
	case 2: r = mk_mul(x, y); wr = mk_mul(zx, zy); o = mk_not(mk_eq(mk_extract(wr, w, w), mk_const(0, w))); break;
	case 3: r = mk_add(x, y); wr = mk_add(sxx, sy); o = mk_not(mk_eq(wr, mk_sext(r, 2 * w))); break;
	case 4: r = mk_sub(x, y); wr = mk_sub(sxx, sy); o = mk_not(mk_eq(wr, mk_sext(r, 2 * w))); break;
	default: r = mk_mul(x, y); wr = mk_mul(sxx, sy); o = mk_not(mk_eq(wr, mk_sext(r, 2 * w))); break;
	}
	Frame& f = s.F(); f.r[in.dst] = ev(r); f.r[in.dst + 1] = ev(o);
	e.finish_call(s, in);
}
B(b_typeid_for) { ret(e, s, in, Val(e.ti_id(e.carg(s, in, 0)))); }
B(b_objsize) { ret(e, s, in, Val(in.w >= 64 ? ~0ull : ((1ull << in.w) - 1))); }
B(b_is_const) { ret(e, s, in, Val(0)); }
template<int K> static void vreduce(Engine& e, State& s, const Ins& in) {
	Frame& f = s.F(); E r = nullptr;
	for(int i = 0; i < in.an[0]; ++i) { E x = e.op(f, in.a[0], i).ex(in.w); r = !r ? x : K == 0 ? mk_add(r, x) : K == 1 ? mk_or(r, x) : K == 2 ? mk_and(r, x) : K == 3 ? mk_xor(r, x) : K == 4 ? mkbin(0, r, x) : mkbin(1, r, x); }
	ret(e, s, in, ev(r));
}

static void intrinsic(Engine& e, State& s, const Ins& in)
{
	auto* II = dyn_cast<IntrinsicInst>(in.I);
	if(!II) e.unsupported(s, "intrinsic");
	switch(II->getIntrinsicID()) {
	case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: b_memcpy(e, s, in); return;
	case Intrinsic::memset: b_memset(e, s, in); return;
	case Intrinsic::umax: minmax<0>(e, s, in); return; case Intrinsic::umin: minmax<1>(e, s, in); return;
	case Intrinsic::smax: minmax<2>(e, s, in); return; case Intrinsic::smin: minmax<3>(e, s, in); return;
	case Intrinsic::abs: b_abs(e, s, in); return;
	case Intrinsic::ctpop: b_ctpop(e, s, in); return; case Intrinsic::ctlz: b_ctlz(e, s, in); return; case Intrinsic::cttz: b_cttz(e, s, in); return;
	case Intrinsic::bswap: b_bswap(e, s, in); return; case Intrinsic::bitreverse: b_bitreverse(e, s, in); return;
	case Intrinsic::fshl: fsh<true>(e, s, in); return; case Intrinsic::fshr: fsh<false>(e, s, in); return;
	case Intrinsic::uadd_with_overflow: ovf<0>(e, s, in); return; case Intrinsic::usub_with_overflow: ovf<1>(e, s, in); return; case Intrinsic::umul_with_overflow: ovf<2>(e, s, in); return;
	case Intrinsic::sadd_with_overflow: ovf<3>(e, s, in); return; case Intrinsic::ssub_with_overflow: ovf<4>(e, s, in); return; case Intrinsic::smul_with_overflow: ovf<5>(e, s, in); return;
	case Intrinsic::usub_sat: sat<0>(e, s, in); return; case Intrinsic::uadd_sat: sat<1>(e, s, in); return;
	case Intrinsic::eh_typeid_for: b_typeid_for(e, s, in); return;
	case Intrinsic::objectsize: b_objsize(e, s, in); return;
	case Intrinsic::is_constant: b_is_const(e, s, in); return;
	case Intrinsic::expect: case Intrinsic::expect_with_probability: case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: case Intrinsic::threadlocal_address: b_arg0(e, s, in); return;
	case Intrinsic::vastart: b_va_start(e, s, in); return; case Intrinsic::vaend: b_nop(e, s, in); return;
	case Intrinsic::vacopy: e.store_mem(s, e.arg(s, in, 0), 8, e.load_mem(s, e.arg(s, in, 1), 8)); retv(e, s, in); return;
	case Intrinsic::trap: case Intrinsic::ubsantrap: case Intrinsic::debugtrap: e.abort_path(s, "trap"); return;
	case Intrinsic::stacksave: b_zero(e, s, in); return; case Intrinsic::stackrestore: case Intrinsic::prefetch: b_nop(e, s, in); return;
	case Intrinsic::fmuladd: case Intrinsic::fma: b_fmuladd(e, s, in); return;
	case Intrinsic::fabs: fp1<f_fabs>(e, s, in); return; case Intrinsic::sqrt: fp1<f_sqrt>(e, s, in); return; case Intrinsic::floor: fp1<f_floor>(e, s, in); return; case Intrinsic::ceil: fp1<f_ceil>(e, s, in); return;
	case Intrinsic::log2: if(in.fp == 3) fp1<f_log2l>(e, s, in); else fp1<f_log2>(e, s, in); return; case Intrinsic::log: fp1<f_log>(e, s, in); return; case Intrinsic::exp2: fp1<f_exp2>(e, s, in); return; case Intrinsic::exp: fp1<f_exp>(e, s, in); return; case Intrinsic::pow: b_pow(e, s, in); return; case Intrinsic::powi: b_powi(e, s, in); return; case Intrinsic::round: fp1<f_round>(e, s, in); return; case Intrinsic::trunc: fp1<f_trunc>(e, s, in); return; case Intrinsic::rint: case Intrinsic::nearbyint: fp1<f_rint>(e, s, in); return;
	case Intrinsic::vector_reduce_add: vreduce<0>(e, s, in); return; case Intrinsic::vector_reduce_or: vreduce<1>(e, s, in); return; case Intrinsic::vector_reduce_and: vreduce<2>(e, s, in); return; case Intrinsic::vector_reduce_xor: vreduce<3>(e, s, in); return; case Intrinsic::vector_reduce_umax: vreduce<4>(e, s, in); return; case Intrinsic::vector_reduce_umin: vreduce<5>(e, s, in); return;
	default: e.unsupported(s, "intrinsic " + II->getCalledFunction()->getName().str());
	}
}
Builtin intrinsic_builtin() { return intrinsic; }

void register_builtins(Engine& en)
{
	auto& b = en.builtins;
	b["vp_sym"] = b_sym; b["vp_choice"] = b_choice; b["vp_assume"] = b_assume; b["vp_assert"] = b_assert; b["vp_cover"] = b_cover; b["vp_unsupported"] = b_unsupported; b["vp_observe"] = b_observe;
	b["vp_concretize"] = b_concretize; b["vp_end"] = b_end; b["vp_allow_abort"] = b_allow_abort; b["vp_abort_hook"] = b_abort_hook; b["vp_is_engine"] = b_is_engine; b["vp_uninit"] = b_uninit; b["vp_print"] = b_print; b["vp_is_sym"] = b_is_sym; b["vp_set_preempt"] = b_set_preempt;
	for(auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "_ZnwmSt11align_val_t", "_ZnamSt11align_val_t"}) b[n] = b_malloc;
	b["calloc"] = b_calloc; b["realloc"] = b_realloc; b["aligned_alloc"] = b_memalign; b["memalign"] = b_memalign;
	for(auto n : {"free", "_ZdlPv", "_ZdaPv", "_ZdlPvm", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdaPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "_ZdaPvmSt11align_val_t"}) b[n] = b_free;
	b["memcpy"] = b["memmove"] = b_memcpy; b["memset"] = b_memset; b["memcmp"] = b["bcmp"] = b_memcmp; b["strlen"] = b_strlen;
	b["__cxa_allocate_exception"] = b_alloc_exn; b["__cxa_free_exception"] = b_free_exn; b["__cxa_throw"] = b_throw; b["__cxa_begin_catch"] = b_begin_catch; b["__cxa_end_catch"] = b_end_catch; b["__cxa_rethrow"] = b_rethrow; b["__cxa_get_exception_ptr"] = b_get_exn_ptr;
	b["_ZSt18uncaught_exceptionv"] = b_uncaught; b["_ZSt19uncaught_exceptionsv"] = b_uncaught;
	b["_ZSt9terminatev"] = b_terminate; b["__clang_call_terminate"] = b_terminate; b["abort"] = b_abort; b["__assert_fail"] = b_assert_fail; b["__cxa_pure_virtual"] = b_pure; b["vp_exit"] = b["vp_abort"] = b_abort; b["vp_assert_fail"] = b_assert_fail; b["vp_crash"] = b_crash; b["vp_exit"] = b["exit"] = b["_exit"] = b["quick_exit"] = b["_Exit"] = b_exit; b["__cxa_call_unexpected"] = b_terminate;
	b["vp_sched_point"] = b_sched_point; b["vp_mutex_lock"] = b_mutex_lock; b["vp_mutex_trylock"] = b_mutex_trylock; b["vp_mutex_unlock"] = b_mutex_unlock; b["vp_cv_wait"] = b_cv_wait; b["vp_timed_wait"] = b_timed_wait; b["vp_cv_notify_all"] = b_cv_notify_all; b["vp_cv_notify_one"] = b_cv_notify_one; b["vp_thread_create"] = b_thread_create; b["vp_thread_join"] = b_thread_join; b["vp_thread_self"] = b_thread_self;
	b["_ZSt17current_exceptionv"] = b_cur_exn; b["_ZSt17rethrow_exceptionNSt15__exception_ptr13exception_ptrE"] = b_exn_rethrow; b["_ZNSt15__exception_ptr13exception_ptr9_M_addrefEv"] = b_exn_addref; b["_ZNSt15__exception_ptr13exception_ptr10_M_releaseEv"] = b_exn_release;
	b["__cxa_atexit"] = b_zero; b["atexit"] = b_zero; b["snprintf"] = b_snprintf; b["sprintf"] = b_sprintf; b["vsnprintf"] = b_vsnprintf;
	for(auto n : {"printf", "puts", "putchar", "fputs", "fputc"}) b[n] = b_printf;
	b["log2"] = fp1<f_log2>; b["log2l"] = fp1<f_log2l>; b["log"] = fp1<f_log>; b["exp2"] = fp1<f_exp2>; b["exp"] = fp1<f_exp>; b["sqrt"] = fp1<f_sqrt>; b["floor"] = fp1<f_floor>; b["ceil"] = fp1<f_ceil>; b["round"] = fp1<f_round>; b["pow"] = b_pow; b["trunc"] = fp1<f_trunc>;
}
