#include "engine.h"
#include <cmath>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Constants.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static inline uint64_t mk64(uint64_t v, unsigned w) { return w >= 64 ? v : v & ((1ull << w) - 1); }
static inline int64_t sx64(uint64_t v, unsigned w) { if(w >= 64) return (int64_t)v; uint64_t m = 1ull << (w - 1); return (int64_t)((v ^ m) - m); }

// ---------------------------------------------------------------- solver ---
u128 Engine::wval(State& s, E e) { return e->is_const() ? e->val : eval_expr(e, s.wit->m, s.wit->memo); }
bool Engine::feasible(State& s, E c, std::shared_ptr<Witness>* w)
{
	if(c->is_const()) { if(c->val) { if(w) *w = s.wit; return true; } return false; }
	if(wval(s, c)) { if(w) *w = s.wit; return true; }
	Model m;
	int r = solve_sliced(s.cons, c, &m);
	if(r < 0) { incomplete.insert("solver timeout at " + where(s, false)); return false; }
	if(!r) return false;
	if(w) {
		auto n = std::make_shared<Witness>();
		n->m = s.wit->m;
		for(auto& p : m.v) n->m.v[p.first] = p.second;
		*w = n;
	}
	return true;
}
void Engine::add_cons(State& s, E c) { if(!c->is_const()) s.cons.push_back(c); }
bool Engine::assume(State& s, E c)
{
	if(c->is_const()) return c->val;
	std::shared_ptr<Witness> w;
	if(!feasible(s, c, &w)) return false;
	s.wit = w;
	add_cons(s, c);
	return true;
}
State* Engine::fork(State& s) { n_forks++; State* n = new State(s); n->depth++; work.push_back(n); return n; }

bool Engine::branch(State& s, E c, State** other)
{
	*other = nullptr;
	if(c->is_const()) return c->val;
	bool v = wval(s, c);
	E here = v ? c : mk_not(c), there = v ? mk_not(c) : c;
	if(rnd < 0) {
		std::shared_ptr<Witness> w;
		if(feasible(s, there, &w)) {
			State* n = fork(s);
			n->wit = w; n->cons.push_back(there);
			*other = n;
			add_cons(s, here);
		}
		// otherwise 'here' is implied and need not be recorded
	} else add_cons(s, here);
	return v;
}
uint64_t Engine::concretize(State& s, Val v, unsigned w)
{
	if(v.conc()) return v.c;
	uint64_t c = (uint64_t)wval(s, v.e);
	E eq = mk_eq(v.e, mk_const(c, v.e->w));
	if(eq->is_const()) return c;
	std::shared_ptr<Witness> wn;
	if(rnd < 0 && feasible(s, mk_not(eq), &wn)) {
		State* n = fork(s);
		n->wit = wn; n->cons.push_back(mk_not(eq));
		add_cons(s, eq);
	}
	return c;
}
E Engine::fresh(State& s, unsigned w, const char* what)
{
	return mk_var(std::string("!") + what + "#" + std::to_string(s.nuninit++) + "." + std::to_string(w), w);
}

// ------------------------------------------------------------- reporting ---
std::string Engine::where(State& s, bool stack)
{
	std::string r;
	auto& st = s.T().st;
	for(int i = (int)st.size() - 1, k = 0; i >= 0 && k < 6; --i) {
		Frame& f = st[i];
		if(f.pc < 0 || f.pc >= (int)f.f->code.size()) continue;
		std::string l = loc_of(f.f->code[f.pc].I);
		if(l == "?" ) continue;
		if(!r.empty()) r += " < ";
		r += l; ++k;
		if(!stack) break;
	}
	return r;
}
std::vector<std::string> Engine::trace_of(State& s, Witness& w)
{
	std::vector<std::string> out;
	for(TraceNode* t = s.trace.p; t; t = t->prev.p) {
		char b[512]; uint64_t v = t->it.e ? (uint64_t)eval_expr(t->it.e, w.m, w.memo) : t->it.c;
		snprintf(b, sizeof b, "%c %s %u %llu", t->it.kind, t->it.name.empty() ? "-" : t->it.name.c_str(), t->it.w, (unsigned long long)v);
		out.push_back(b);
	}
	std::reverse(out.begin(), out.end());
	return out;
}
void Engine::violation(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<Witness> w)
{
	std::string loc = where(s, true);
	std::string key = kind + "|" + msg + "|" + where(s, false);
	if(!vkeys.insert(key).second) return;
	Violation v; v.kind = kind; v.msg = msg; v.loc = loc;
	v.trace = trace_of(s, w ? *w : *s.wit);
	viols.push_back(v);
	if(verbose) fprintf(stderr, "VIOL %s: %s at %s\n", kind.c_str(), msg.c_str(), loc.c_str());
}
void Engine::unsupported(State& s, const std::string& what)
{
	incomplete.insert("unsupported: " + what + " at " + where(s, true));
	throw PathEnd{4};
}
void Engine::abort_path(State& s, const std::string& why)
{
	n_aborts++;
	if(s.in_hook) { violation(s, "abort", why + " (inside abort hook)"); end(1); }
	if(!s.allow_abort) { violation(s, "abort", why); end(1); }
	if(s.abort_hook) {
		FuncInfo* f = fbyaddr[s.abort_hook];
		s.in_hook = true;
		// everything else stops; the hook inspects what the process left behind
		Thread t = s.th[s.cur];
		t.st.resize(1); t.stat = T_RUN; t.st[0].pc = -2;
		for(auto& o : s.th) { o.stat = T_DONE; }
		s.th[s.cur].st.resize(1);
		s.th[s.cur].stat = T_RUN;
		push_call(s, f, {});
		s.F().hook = true;
		return;
	}
	end(0);
}

// ----------------------------------------------------------------- floats ---
static long double ldof(u128 v) { long double r = 0; memcpy(&r, &v, 10); return r; }
static u128 ofld(long double d) { u128 v = 0; memcpy(&v, &d, 10); return v; }
static long double tofp(Val v, int k) {
	if(k == 1) { float f; uint32_t x = v.c; memcpy(&f, &x, 4); return f; }
	if(k == 2) { double f; memcpy(&f, &v.c, 8); return f; }
	return ldof(v.e ? v.e->val : 0);
}
static Val fromfp(long double d, int k) {
	if(k == 1) { float f = (float)d; uint32_t x; memcpy(&x, &f, 4); return Val(x); }
	if(k == 2) { double f = (double)d; uint64_t x; memcpy(&x, &f, 8); return Val(x); }
	return Val::of(mk_const(ofld(d), 80));
}
Val fp_binop(int op, Val a, Val b, int k) {
	if(k == 2) { // stay in double precision
		double x, y, r = 0; memcpy(&x, &a.c, 8); memcpy(&y, &b.c, 8);
		switch(op) { case I_FADD: r = x + y; break; case I_FSUB: r = x - y; break; case I_FMUL: r = x * y; break; case I_FDIV: r = x / y; break; case I_FREM: r = fmod(x, y); break; }
		uint64_t v; memcpy(&v, &r, 8); return Val(v);
	}
	if(k == 1) {
		float x, y, r = 0; memcpy(&x, &a.c, 4); memcpy(&y, &b.c, 4);
		switch(op) { case I_FADD: r = x + y; break; case I_FSUB: r = x - y; break; case I_FMUL: r = x * y; break; case I_FDIV: r = x / y; break; case I_FREM: r = fmodf(x, y); break; }
		uint32_t v; memcpy(&v, &r, 4); return Val(v);
	}
	long double x = tofp(a, k), y = tofp(b, k), r = 0;
	switch(op) { case I_FADD: r = x + y; break; case I_FSUB: r = x - y; break; case I_FMUL: r = x * y; break; case I_FDIV: r = x / y; break; case I_FREM: r = fmodl(x, y); break; }
	return fromfp(r, k);
}
long double fp_get(Val v, int k) { return tofp(v, k); }
Val fp_put(long double d, int k) { return fromfp(d, k); }

// ---------------------------------------------------------------- control ---
void Engine::goto_edge(State& s, int e)
{
	Frame& f = s.F();
	Edge& ed = f.f->edges[e];
	if(!ed.moves.empty()) {
		static std::vector<Val> tmp; tmp.clear();
		for(auto& m : ed.moves) for(int i = 0; i < m.n; ++i) tmp.push_back(op(f, m.src, i));
		size_t k = 0;
		for(auto& m : ed.moves) for(int i = 0; i < m.n; ++i) f.r[m.dst + i] = tmp[k++];
	}
	f.pc = ed.pc;
}
void Engine::finish_call(State& s, const Ins& in)
{
	if(in.invoke) goto_edge(s, in.edges[0]);
	else s.F().pc++;
}
void Engine::push_call(State& s, FuncInfo* f, const std::vector<Val>& args)
{
	if(f->F->isDeclaration()) unsupported(s, "external function " + f->name);
	if(!f->decoded) decode(f);
	f->executed = true;
	if(s.T().st.size() > 2000) { violation(s, "memory", "stack overflow"); end(1); }
	s.T().st.emplace_back();
	Frame& fr = s.T().st.back();
	fr.f = f; fr.pc = 0; fr.r.resize(f->nslots);
	for(size_t i = 0; i < args.size() && i < (size_t)f->nslots; ++i) fr.r[i] = args[i];
}
static void pop_frame(Engine& e, State& s)
{
	Thread& T = s.T();
	Frame& f = T.st.back();
	uint32_t ar = ARENA_THREAD0 + 2 * s.cur + 1;
	for(uint32_t ix : f.allocas) {
		Ref<Chunk>& c = s.ar[ar].ch[ix / CHUNK];
		c.w();
		if(e.races && s.th.size() > 1) { Obj* o = c->o[ix % CHUNK].p; uint64_t a = mkaddr(ar, ix); if(o) for(uint64_t i = 0; i < o->size && i < 65536; i += 8) s.shadow.erase((a + i) >> 3); }
		c->o[ix % CHUNK].drop();
	}
	if(!f.allocas.empty()) T.stack_n = f.allocas.front() - 1;
	T.st.pop_back();
}
void Engine::do_ret(State& s, const Ins& in)
{
	Frame& f = s.F();
	std::vector<Val> rv;
	for(int i = 0; i < in.n; ++i) rv.push_back(op(f, in.a[0], i));
	bool hook = f.hook;
	pop_frame(*this, s);
	if(hook) end(0);
	if(s.T().st.empty()) {
		if(s.cur == 0) end(0);
		s.T().stat = T_DONE;
		sched(s, true);
		return;
	}
	Frame& c = s.F();
	const Ins& ci = c.f->code[c.pc];
	for(int i = 0; i < ci.n && i < (int)rv.size(); ++i) c.r[ci.dst + i] = rv[i];
	finish_call(s, ci);
}
void Engine::do_call(State& s, const Ins& in)
{
	Frame& f = s.F();
	FuncInfo* cf = in.callee;
	if(!cf) {
		if(in.imm == 1) { // inline asm
			auto* IA = cast<InlineAsm>(cast<CallBase>(in.I)->getCalledOperand()->stripPointerCasts());
			std::string as = IA->getAsmString();
			if(as.find("popcnt") != std::string::npos && in.a.size() >= 1) {
				Val v = op(f, in.a[0]);
				unsigned w = in.w;
				if(v.conc()) setres(s, in, Val(__builtin_popcountll(v.c)));
				else { E x = v.e, r = mk_const(0, w); for(unsigned i = 0; i < x->w; ++i) r = mk_add(r, mk_zext(mk_extract(x, i, 1), w)); setres(s, in, Val::of(r)); }
				finish_call(s, in);
				return;
			}
			if(as.empty() || as.find("pause") != std::string::npos) { if(in.dst < 0) { finish_call(s, in); return; } }
			unsupported(s, "inline asm '" + as + "'");
		}
		Val t = op(f, in.a.back());
		uint64_t a = t.conc() ? t.c : concretize(s, t, 64);
		auto it = fbyaddr.find(a);
		if(it == fbyaddr.end()) { violation(s, "memory", "call through invalid function pointer"); end(1); }
		cf = it->second;
	}
	if(cf->bi) { cf->bi(*this, s, in); return; }
	if(cf->F->isDeclaration()) unsupported(s, "external function " + cf->name);
	if(!cf->decoded) decode(cf);
	std::vector<Val> args; std::vector<Val> va; std::vector<uint16_t> vaw;
	size_t nfixed = cf->F->arg_size(), na = in.an.size();
	for(size_t i = 0; i < na; ++i) {
		bool byval = i < nfixed && cf->F->getArg(i)->hasByValAttr();
		if(byval) {
			Type* BT = cf->F->getArg(i)->getParamByValType();
			uint64_t sz = DL->getTypeAllocSize(BT);
			uint64_t src = carg(s, in, i);
			uint64_t d = alloc(s, sz, OK_STACK, "byval");
			copy_mem(s, d, src, sz);
			args.push_back(Val(d));
			// owned by the callee frame
			continue;
		}
		if(i < nfixed) for(int k = 0; k < in.an[i]; ++k) args.push_back(op(f, in.a[i], k));
		else { va.push_back(op(f, in.a[i])); vaw.push_back(in.aw[i]); }
	}
	uint32_t sn = s.T().stack_n;
	push_call(s, cf, args);
	(void)sn;
	for(size_t i = 0; i < nfixed && i < na; ++i) if(cf->F->getArg(i)->hasByValAttr()) s.F().allocas.push_back((args[i].c >> SLOT_SHIFT) & ((1u << IDX_BITS) - 1));
	s.F().va = va; s.F().vaw = vaw;
}

// -------------------------------------------------------------- exceptions --
static const std::map<std::string, std::string>& std_bases() {
	static std::map<std::string, std::string> m = {
		{"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"},
		{"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt10bad_typeid", "_ZTISt9exception"}, {"_ZTISt13bad_exception", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"},
		{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"},
		{"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt15underflow_error", "_ZTISt13runtime_error"}, {"_ZTISt12system_error", "_ZTISt13runtime_error"}};
	return m;
}
bool Engine::ti_match(State& s, uint64_t thrown, uint64_t caught)
{
	if(!caught || thrown == caught) return true;
	Obj* o = find(s, thrown);
	if(!o) return false;
	auto it = std_bases().find(o->name);
	GlobalVariable* GV = M->getGlobalVariable(o->name, true);
	if(GV && GV->hasInitializer()) {
		auto* CS = dyn_cast<ConstantStruct>(GV->getInitializer());
		if(CS && CS->getNumOperands() == 3) return ti_match(s, const_addr(CS->getOperand(2)), caught);		// __si_class_type_info
		if(CS && CS->getNumOperands() > 4) {	// __vmi_class_type_info: bases at operands 4, 6, ... (offset adjustments not modelled)
			for(unsigned i = 4; i < CS->getNumOperands(); i += 2) if(ti_match(s, const_addr(CS->getOperand(i)), caught)) return true;
		}
		if(it == std_bases().end()) return false;
	}
	if(it != std_bases().end()) {
		GlobalVariable* B = M->getGlobalVariable(it->second, true);
		if(!B) {
			// base never mentioned in the module: continue up the chain by name
			std::string nm = it->second;
			while(true) { auto j = std_bases().find(nm); if(j == std_bases().end()) return false; nm = j->second; if(auto* G = M->getGlobalVariable(nm, true)) { return ti_match(s, gaddr[G], caught); } }
		}
		return ti_match(s, gaddr[B], caught);
	}
	return false;
}
static int lp_select(Engine& en, State& s, const LandingPadInst* LP, uint64_t ti, bool& is_catch)
{
	for(unsigned i = 0; i < LP->getNumClauses(); ++i) {
		if(LP->isCatch(i)) {
			Constant* C = LP->getClause(i);
			uint64_t ct = C->isNullValue() ? 0 : en.const_addr(C);
			if(en.ti_match(s, ti, ct)) { is_catch = true; return en.ti_id(ct); }
		} else { // filter: empty filter = throw()
			auto* AT = cast<ArrayType>(LP->getClause(i)->getType());
			if(AT->getNumElements() == 0) { is_catch = true; return -1; }
		}
	}
	is_catch = false;
	return 0;
}
static const LandingPadInst* lp_of(Frame& f) {
	if(f.pc < 0 || f.pc >= (int)f.f->code.size()) return nullptr;
	auto* II = dyn_cast<InvokeInst>(f.f->code[f.pc].I);
	return II ? II->getLandingPadInst() : nullptr;
}
void Engine::throw_exn(State& s, uint64_t exn)
{
	uint64_t ti = s.exns[exn].ti;
	Thread& T = s.T();
	bool found = false;
	for(int i = (int)T.st.size() - 1; i >= 0 && !found; --i) {
		if(auto* LP = lp_of(T.st[i])) { bool c; lp_select(*this, s, LP, ti, c); if(c) found = true; }
	}
	if(!found) {
		std::string what;
		if(Obj* o = find(s, ti)) what = o->name;
		abort_path(s, "uncaught exception " + what);
		return;
	}
	unwind(s, exn, false);
}
void Engine::unwind(State& s, uint64_t exn, bool from_current)
{
	uint64_t ti = s.exns[exn].ti;
	bool first = true;
	while(true) {
		Thread& T = s.T();
		if(T.st.empty()) { unsupported(s, "unwound past thread start"); }
		Frame& f = T.st.back();
		if(!(first && from_current)) {
			if(auto* LP = lp_of(f)) {
				bool c; int sel = lp_select(*this, s, LP, ti, c);
				if(c || LP->isCleanup()) {
					T.cur_exn = exn; T.cur_sel = sel;
					goto_edge(s, f.f->code[f.pc].edges[1]);
					return;
				}
			}
		}
		first = false;
		pop_frame(*this, s);
		if(s.T().st.empty()) { abort_path(s, "uncaught exception in thread"); return; }
	}
}

// ----------------------------------------------------------------- threads --
bool Engine::enabled(State& s, int t)
{
	Thread& T = s.th[t];
	switch(T.stat) {
	case T_RUN: return true;
	case T_MUTEX: { auto it = s.mtx.find(T.waddr); return it == s.mtx.end() || it->second.owner < 0; }
	case T_JOIN: return s.th[T.waddr].stat == T_DONE;
	default: return false;
	}
}
uint64_t Engine::hash_state(State& s)
{
	uint64_t h = s.cur * 77 + s.slow * 104729 + s.starved * 6700417ull + s.timeouts * 919 + s.spurious * 1313 + (max_preempt >= 0 ? s.preempt * 31 : 0) + (max_delay >= 0 ? s.delay * 100003ull : 0) + s.nsym * 7919ull;
	auto mix = [&h](uint64_t v) { h ^= v + 0x9E3779B97F4A7C15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; };
	for(auto& T : s.th) {
		mix(T.stat); if(T.stat == T_DONE) continue;
		mix(T.waddr); mix(T.phase + (T.timed ? 64 : 0)); mix(T.sched_ok); mix(T.cur_exn); mix(T.cur_sel);
		for(auto x : T.caught) mix(x);
		for(auto& f : T.st) { mix((uint64_t)f.f); mix(f.pc); for(auto& v : f.r) { if(v.e) mix(v.e->id + 0x1234567890ull); else mix(v.c); } }
	}
	for(auto& p : s.mtx) if(p.second.owner >= 0) { mix(p.first); mix(p.second.owner); }
	for(auto& p : s.exns) { mix(p.first); mix(p.second.handlers); }
	for(size_t a = ARENA_THREAD0; a < s.ar.size(); ++a) {
		Arena& A = s.ar[a];
		mix(A.n);
		for(uint32_t i = 1; i < A.n; ++i) { Obj* o = A.ch[i / CHUNK]->o[i % CHUNK].p; if(o && !o->freed) mix(o->get_hash() ^ i); }
	}
	uint64_t g = 0;
	for(uint64_t a : s.globals_dirty) g += (find(s, a)->get_hash() ^ a) * 0x9E3779B97F4A7C15ull;
	mix(g);
	for(E c : s.cons) mix(c->id);
	return h;
}
void Engine::sched(State& s, bool forced)
{
	n_sched++;
	const int TIMEOUT = -100000;
	std::vector<int> cand;	// >= 0 thread; < 0 spurious wake-up of thread -c-1; <= TIMEOUT: time limit of thread TIMEOUT-c
	bool cur_en = !forced && s.th[s.cur].stat == T_RUN;
	if(cur_en) cand.push_back(s.cur);
	if(!(cur_en && max_preempt >= 0 && s.preempt >= max_preempt)) {
		for(int t = 0; t < (int)s.th.size(); ++t) if(!(t == s.cur && cur_en) && enabled(s, t)) cand.push_back(t);
		if(s.spurious < max_spurious) for(int t = 0; t < (int)s.th.size(); ++t) if(s.th[t].stat == T_CV && s.th[t].waddr) {
			cand.push_back(-t - 1);
		}
		bool reg = false; for(int c : cand) reg |= c >= 0;
		if(!reg || s.timeouts < 1) for(int t = 0; t < (int)s.th.size(); ++t) if(s.th[t].stat == T_CV && s.th[t].timed) cand.push_back(TIMEOUT - t);	// while others can run, at most one
	}
	bool any = false;
	for(int c : cand) if(c >= 0 || c <= TIMEOUT) any = true;
	if(!any) {
		std::string d = "deadlock:";
		for(size_t t = 0; t < s.th.size(); ++t) if(s.th[t].stat != T_DONE) {
			d += " thread " + std::to_string(t) + (s.th[t].stat == T_CV ? " waits on condition" : s.th[t].stat == T_MUTEX ? " waits for mutex" : s.th[t].stat == T_JOIN ? " joins thread" : " ?");
		}
		violation(s, "deadlock", d);
		end(1);
	}
	if(cand.size() > 1 && dedup && !one_sched) {
		uint64_t h = hash_state(s);
		if(!visited.insert(h).second) end(3);
		if(visited.size() > max_states) { incomplete.insert("state limit"); end(4); }
	}
	int pick = cand[0];
	auto apply = [&](State& x, int c) {
		if(cand.size() > 1) x.tr('T', "sched", 8, nullptr, (uint64_t)(int64_t)c);
		if(c <= TIMEOUT) {
			const int t = TIMEOUT - c;
			bool reg = false; for(int q : cand) reg |= q >= 0; if(reg) x.timeouts++;
			x.th[t].phase = 2; x.th[t].stat = T_RUN; if(cur_en) x.preempt++; x.cur = t; x.th[t].sched_ok = true;
			return;
		}
		if(c < 0) {
			int t = -c - 1;
			x.spurious++;
			x.th[t].phase = 1;
			x.th[t].stat = T_RUN;	// re-executes the wait, which re-acquires the mutex
			if(cur_en) { x.preempt++; }
			x.cur = t; x.th[t].sched_ok = true;
			return;
		}
		if(cur_en && c != x.cur) x.preempt++;
		x.cur = c;
		Thread& T = x.th[c];
		T.sched_ok = true;
		T.stat = T_RUN;
	};
	// threads chosen to be slow run only when no other can
	if(s.slow) { // starved for long (others may poll each other for ever): no longer slow
		bool waits = false; for(int c : cand) waits |= c >= 0 && c < 64 && ((s.slow >> c) & 1);
		if(!waits) s.starved = 0; else if(++s.starved > 1500) { s.slow = 0; s.starved = 0; }
	}
	auto is_slow = [&](int c) { return c >= 0 && c < 64 && ((s.slow >> c) & 1); };
	auto not_slow = [&]() {
		if(!is_slow(pick)) return;
		int first = -1, next = -1;
		for(int c : cand) if(c >= 0 && !is_slow(c)) { if(first < 0 || c < first) first = c; if(c > s.cur && (next < 0 || c < next)) next = c; }
		if(first >= 0) pick = next >= 0 ? next : first;
	};
	if(one_sched) { if(cand.size() > 1 && !cur_en) { pick = cand[0]; for(int c : cand) if(c > s.cur) { pick = c; break; } } not_slow(); }
	else if(rnd >= 0 && cand.size() > 1) { rnd = rnd * 1103515245 + 12345; pick = cand[((unsigned)rnd >> 8) % cand.size()]; }
	else if(max_delay >= 0 && cand.size() > 1) { // deviations from a deterministic schedule are bounded
		if(!cur_en) for(int c : cand) if(c > s.cur) { pick = c; break; }
		not_slow();
		if(s.delay < max_delay) for(size_t i = cand.size(); i-- > 0;) if(cand[i] != pick && !is_slow(cand[i])) { State* n = fork(s); n->delay++; apply(*n, cand[i]); }
	}
	else for(size_t i = cand.size(); i-- > 1;) { State* n = fork(s); apply(*n, cand[i]); }
	apply(s, pick);
}
bool Engine::sync_point(State& s)
{
	if(s.th.size() > 1 && !s.T().sched_ok) { sched(s, false); return true; }
	s.T().sched_ok = false;
	return false;
}

// ------------------------------------------------------------------- step ---
static Val binE(Engine& en, State& s, IOp o, unsigned w, Val a, Val b)
{
	E x = a.ex(w), y = b.ex(w);
	switch(o) {
	case I_ADD: return Val::of(mk_add(x, y)); case I_SUB: return Val::of(mk_sub(x, y)); case I_MUL: return Val::of(mk_mul(x, y));
	case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: {
		E z = mk_eq(y, mk_const(0, w));
		std::shared_ptr<Witness> wn;
		if(en.feasible(s, z, &wn)) { en.violation(s, "memory", "division by zero", wn); if(!en.assume(s, mk_not(z))) en.end(1); }
		return Val::of(o == I_UDIV ? mk_udiv(x, y) : o == I_SDIV ? mk_sdiv(x, y) : o == I_UREM ? mk_urem(x, y) : mk_srem(x, y));
	}
	case I_SHL: case I_LSHR: case I_ASHR: {
		E r = o == I_SHL ? mk_shl(x, y) : o == I_LSHR ? mk_lshr(x, y) : mk_ashr(x, y);
		if(y->hi >= w) { // oversized shifts are arbitrary
			E in = mk_ult(y, mk_const(w, w));
			if(in->is_const() ? !in->val : en.feasible(s, mk_not(in), nullptr)) r = mk_ite(in, r, en.fresh(s, w, "shift"));
		}
		return Val::of(r);
	}
	case I_AND: return Val::of(mk_and(x, y)); case I_OR: return Val::of(mk_or(x, y)); case I_XOR: return Val::of(mk_xor(x, y));
	default: return Val(0);
	}
}
static Val binop(Engine& en, State& s, IOp o, unsigned w, const Val& a, const Val& b)
{
	if(a.conc() && b.conc() && w <= 64) {
		uint64_t x = a.c, y = b.c;
		switch(o) {
		case I_ADD: return mk64(x + y, w); case I_SUB: return mk64(x - y, w); case I_MUL: return mk64(x * y, w);
		case I_AND: return x & y; case I_OR: return x | y; case I_XOR: return x ^ y;
		case I_SHL: if(y < w) return mk64(x << y, w); break;
		case I_LSHR: if(y < w) return x >> y; break;
		case I_ASHR: if(y < w) return mk64((uint64_t)(sx64(x, w) >> y), w); break;
		case I_UDIV: if(y) return x / y; break; case I_UREM: if(y) return x % y; break;
		case I_SDIV: if(y) { int64_t p = sx64(x, w), q = sx64(y, w); return mk64(q == -1 ? (uint64_t)0 - x : (uint64_t)(p / q), w); } break;
		case I_SREM: if(y) { int64_t p = sx64(x, w), q = sx64(y, w); return mk64(q == -1 ? 0 : (uint64_t)(p % q), w); } break;
		default: break;
		}
	}
	return binE(en, s, o, w, a, b);
}
static Val icmp(unsigned pred, unsigned w, const Val& a, const Val& b)
{
	if(a.conc() && b.conc()) {
		uint64_t x = a.c, y = b.c; int64_t p = sx64(x, w), q = sx64(y, w);
		switch(pred) {
		case CmpInst::ICMP_EQ: return x == y; case CmpInst::ICMP_NE: return x != y;
		case CmpInst::ICMP_ULT: return x < y; case CmpInst::ICMP_ULE: return x <= y; case CmpInst::ICMP_UGT: return x > y; case CmpInst::ICMP_UGE: return x >= y;
		case CmpInst::ICMP_SLT: return p < q; case CmpInst::ICMP_SLE: return p <= q; case CmpInst::ICMP_SGT: return p > q; case CmpInst::ICMP_SGE: return p >= q;
		}
	}
	E x = a.ex(w), y = b.ex(w);
	switch(pred) {
	case CmpInst::ICMP_EQ: return Val::of(mk_eq(x, y)); case CmpInst::ICMP_NE: return Val::of(mk_not(mk_eq(x, y)));
	case CmpInst::ICMP_ULT: return Val::of(mk_ult(x, y)); case CmpInst::ICMP_ULE: return Val::of(mk_ule(x, y)); case CmpInst::ICMP_UGT: return Val::of(mk_ult(y, x)); case CmpInst::ICMP_UGE: return Val::of(mk_ule(y, x));
	case CmpInst::ICMP_SLT: return Val::of(mk_slt(x, y)); case CmpInst::ICMP_SLE: return Val::of(mk_sle(x, y)); case CmpInst::ICMP_SGT: return Val::of(mk_slt(y, x)); case CmpInst::ICMP_SGE: return Val::of(mk_sle(y, x));
	}
	return Val(0);
}

static void atomic_sync(State& s, uint64_t a) {
	VC& v = s.mvc[a]; v.join(s.T().vc); s.T().vc.join(v); s.T().vc.at(s.cur)++;
}

void Engine::step(State& s)
{
	Frame& f = s.F();
	const Ins& in = f.f->code[f.pc];
	if(in.swi) { if(sync_point(s)) return; }
	auto FPC = [&](int o, int i, int k) -> Val { Val v = op(f, o, i); if(!v.conc() && !v.e->is_const()) { uint64_t c = concretize(s, v, k == 1 ? 32 : 64); return Val(c); } return v; };
	switch(in.op) {
	case I_ADD: case I_SUB: case I_MUL: case I_UDIV: case I_SDIV: case I_UREM: case I_SREM: case I_SHL: case I_LSHR: case I_ASHR: case I_AND: case I_OR: case I_XOR:
		for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = binop(*this, s, in.op, in.w, op(f, in.a[0], i), op(f, in.a[1], i));
		f.pc++; return;
	case I_FADD: case I_FSUB: case I_FMUL: case I_FDIV: case I_FREM:
		for(int i = 0; i < in.n; ++i) { Val a = FPC(in.a[0], i, in.fp), b = FPC(in.a[1], i, in.fp); f.r[in.dst + i] = fp_binop(in.op, a, b, in.fp); }
		f.pc++; return;
	case I_FNEG: for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = fp_put(-fp_get(FPC(in.a[0], i, in.fp), in.fp), in.fp); f.pc++; return;
	case I_ICMP:
		for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = icmp(in.sub, in.w2, op(f, in.a[0], i), op(f, in.a[1], i));
		f.pc++; return;
	case I_FCMP:
		for(int i = 0; i < in.n; ++i) {
			long double x = fp_get(FPC(in.a[0], i, in.fp), in.fp), y = fp_get(FPC(in.a[1], i, in.fp), in.fp);
			bool uno = std::isnan(x) || std::isnan(y), r = false;
			switch(in.sub) {
			case CmpInst::FCMP_FALSE: r = false; break; case CmpInst::FCMP_TRUE: r = true; break;
			case CmpInst::FCMP_OEQ: r = !uno && x == y; break; case CmpInst::FCMP_OGT: r = !uno && x > y; break; case CmpInst::FCMP_OGE: r = !uno && x >= y; break; case CmpInst::FCMP_OLT: r = !uno && x < y; break; case CmpInst::FCMP_OLE: r = !uno && x <= y; break; case CmpInst::FCMP_ONE: r = !uno && x != y; break; case CmpInst::FCMP_ORD: r = !uno; break;
			case CmpInst::FCMP_UNO: r = uno; break; case CmpInst::FCMP_UEQ: r = uno || x == y; break; case CmpInst::FCMP_UGT: r = uno || x > y; break; case CmpInst::FCMP_UGE: r = uno || x >= y; break; case CmpInst::FCMP_ULT: r = uno || x < y; break; case CmpInst::FCMP_ULE: r = uno || x <= y; break; case CmpInst::FCMP_UNE: r = uno || x != y; break;
			}
			f.r[in.dst + i] = Val(r);
		}
		f.pc++; return;
	case I_ZEXT:
		for(int i = 0; i < in.n; ++i) { const Val& a = op(f, in.a[0], i); f.r[in.dst + i] = (a.conc() && in.w <= 64) ? a : Val::of(mk_zext(a.ex(in.w2), in.w)); }
		f.pc++; return;
	case I_SEXT:
		for(int i = 0; i < in.n; ++i) { const Val& a = op(f, in.a[0], i); f.r[in.dst + i] = (a.conc() && in.w <= 64) ? Val(mk64((uint64_t)sx64(a.c, in.w2), in.w)) : Val::of(mk_sext(a.ex(in.w2), in.w)); }
		f.pc++; return;
	case I_TRUNC:
		for(int i = 0; i < in.n; ++i) { const Val& a = op(f, in.a[0], i); f.r[in.dst + i] = a.conc() ? Val(mk64(a.c, in.w)) : Val::of(mk_extract(a.e, 0, in.w)); }
		f.pc++; return;
	case I_MOV: { // bitcast
		if(in.imm == in.n) { for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = op(f, in.a[0], i); }
		else {
			E all = nullptr;
			for(int i = 0; i < in.imm; ++i) { E x = op(f, in.a[0], i).ex(in.w2); all = all ? mk_concat(x, all) : x; }
			for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = Val::of(mk_extract(all, i * in.w, in.w));
		}
		f.pc++; return;
	}
	case I_FREEZE: case I_EXTRACT:
		for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = op(f, in.a[0], i + (in.op == I_EXTRACT ? in.imm : 0));
		f.pc++; return;
	case I_INSERT: {
		std::vector<Val> t; for(int i = 0; i < in.n; ++i) t.push_back(op(f, in.a[0], i));
		for(int i = 0; i < in.an[0]; ++i) t[in.imm + i] = op(f, in.a[1], i);
		for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = t[i];
		f.pc++; return;
	}
	case I_EXTELEM: { Val ix = op(f, in.a[1]); uint64_t k = ix.conc() ? ix.c : concretize(s, ix, in.w2); for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = op(f, in.a[0], k * in.n + i); f.pc++; return; }
	case I_INSELEM: {
		Val ix = op(f, in.a[2]); uint64_t k = ix.conc() ? ix.c : concretize(s, ix, in.w2);
		std::vector<Val> t; for(int i = 0; i < in.n; ++i) t.push_back(op(f, in.a[0], i));
		t[k] = op(f, in.a[1]);
		for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = t[i];
		f.pc++; return;
	}
	case I_SHUFFLE: {
		std::vector<Val> t;
		for(int i = 0; i < in.n; ++i) { int m = in.an[i]; t.push_back(m < 0 ? Val(0) : m < in.imm ? op(f, in.a[0], m) : op(f, in.a[1], m - in.imm)); }
		for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = t[i];
		f.pc++; return;
	}
	case I_FPTOUI: case I_FPTOSI: for(int i = 0; i < in.n; ++i) {
		long double d = fp_get(FPC(in.a[0], i, in.sub), in.sub);
		uint64_t v = in.op == I_FPTOUI ? (d >= 0 && d < 18446744073709551616.0L ? (uint64_t)d : 0) : (uint64_t)(int64_t)d;
		f.r[in.dst + i] = Val(mk64(v, in.w));
		} f.pc++; return;
	case I_UITOFP: case I_SITOFP: for(int i = 0; i < in.n; ++i) {
		Val v = op(f, in.a[0], i); uint64_t c = v.conc() ? v.c : concretize(s, v, in.w2);
		if(in.w2 > 64) unsupported(s, "wide int to fp");
		if(in.fp == 2) { double d = in.op == I_UITOFP ? (double)c : (double)sx64(c, in.w2); uint64_t x; memcpy(&x, &d, 8); f.r[in.dst + i] = Val(x); }
		else if(in.fp == 1) { float d = in.op == I_UITOFP ? (float)c : (float)sx64(c, in.w2); uint32_t x; memcpy(&x, &d, 4); f.r[in.dst + i] = Val(x); }
		else f.r[in.dst + i] = fp_put(in.op == I_UITOFP ? (long double)c : (long double)sx64(c, in.w2), in.fp);
		} f.pc++; return;
	case I_FPEXT: case I_FPTRUNC: for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = fp_put(fp_get(FPC(in.a[0], i, in.sub), in.sub), in.fp); f.pc++; return;
	case I_LOAD: {
		if(in.atomic) { if(sync_point(s)) return; }
		Val a = op(f, in.a[0]);
		if(in.leaves.size() == 1) {
			const Leaf& l = in.leaves[0];
			Val v = load_mem(s, a, l.bytes);
			if(l.w != l.bytes * 8) v = v.conc() ? Val(mk64(v.c, l.w)) : Val::of(mk_extract(v.e, 0, l.w));
			if(in.atomic && races) atomic_sync(s, a.c);
			s.F().r[in.dst] = v;
		} else {
			std::vector<Val> t;
			for(auto& l : in.leaves) {
				Val x = a.conc() ? Val(a.c + l.off) : Val::of(mk_add(a.e, mk_const(l.off, 64)));
				Val v = load_mem(s, x, l.bytes);
				if(l.w != l.bytes * 8) v = v.conc() ? Val(mk64(v.c, l.w)) : Val::of(mk_extract(v.e, 0, l.w));
				t.push_back(v);
			}
			for(size_t i = 0; i < t.size(); ++i) s.F().r[in.dst + i] = t[i];
		}
		s.F().pc++; return;
	}
	case I_STORE: {
		if(in.atomic) { if(sync_point(s)) return; }
		Val a = op(f, in.a[1]);
		for(size_t i = 0; i < in.leaves.size(); ++i) {
			const Leaf& l = in.leaves[i];
			Val v = op(f, in.a[0], i);
			if(!v.conc() && v.e->w != l.bytes * 8u) v = Val::of(mk_zext(v.e, l.bytes * 8));
			Val x = l.off == 0 ? a : a.conc() ? Val(a.c + l.off) : Val::of(mk_add(a.e, mk_const(l.off, 64)));
			store_mem(s, x, l.bytes, v);
		}
		if(in.atomic && races) atomic_sync(s, a.c);
		f.pc++; return;
	}
	case I_ALLOCA: {
		Val n = op(f, in.a[0]); uint64_t c = n.conc() ? n.c : concretize(s, n, 64);
		const AllocaInst* AI = cast<AllocaInst>(in.I);
		uint64_t a = alloc(s, in.imm * c, OK_STACK, AI->hasName() ? AI->getName().str() : "stack");
		f.allocas.push_back((a >> SLOT_SHIFT) & ((1u << IDX_BITS) - 1));
		f.r[in.dst] = Val(a); f.pc++; return;
	}
	case I_GEP: {
		Val b = op(f, in.a[0]);
		bool conc = b.conc();
		if(conc) for(auto& g : in.gi) if(!op(f, g.op).conc()) { conc = false; break; }
		if(conc) {
			uint64_t a = b.c + in.imm;
			for(auto& g : in.gi) a += (uint64_t)(sx64(op(f, g.op).c, g.w) * g.scale);
			f.r[in.dst] = Val(a);
		} else {
			E a = b.ex(64);
			for(auto& g : in.gi) {
				const Val& v = op(f, g.op);
				E x = v.ex(g.w); if(g.w < 64) x = mk_sext(x, 64); else if(g.w > 64) x = mk_extract(x, 0, 64);
				a = mk_add(a, mk_mul(x, mk_const((uint64_t)g.scale, 64)));
			}
			f.r[in.dst] = Val::of(mk_add(a, mk_const((uint64_t)in.imm, 64)));
		}
		f.pc++; return;
	}
	case I_SELECT: {
		if(fork_select && !in.imm && !op(f, in.a[0], 0).conc()) {
			State* o; E ce = op(f, in.a[0], 0).e; bool v = branch(s, ce, &o);
			auto apply = [&](State& st, bool b) { Frame& g = st.F(); std::vector<Val> t; for(int i = 0; i < in.n; ++i) t.push_back(op(g, in.a[b ? 1 : 2], i)); for(int i = 0; i < in.n; ++i) g.r[in.dst + i] = t[i]; g.pc++; };
			if(o) apply(*o, !v);
			apply(s, v);
			return;
		}
		std::vector<Val> t;
		for(int i = 0; i < in.n; ++i) {
			const Val& c = op(f, in.a[0], in.imm ? i : 0);
			const Val& x = op(f, in.a[1], i), & y = op(f, in.a[2], i);
			if(c.conc()) t.push_back(c.c ? x : y);
			else if(x == y) t.push_back(x);
			else t.push_back(Val::of(mk_ite(c.e, x.ex(in.rw[i]), y.ex(in.rw[i]))));
		}
		for(int i = 0; i < in.n; ++i) f.r[in.dst + i] = t[i];
		f.pc++; return;
	}
	case I_BR: goto_edge(s, in.edges[0]); return;
	case I_CONDBR: {
		Val c = op(f, in.a[0]);
		if(c.conc()) { goto_edge(s, in.edges[c.c ? 0 : 1]); return; }
		State* o; bool v = branch(s, c.e, &o);
		if(o) goto_edge(*o, in.edges[v ? 1 : 0]);
		goto_edge(s, in.edges[v ? 0 : 1]);
		return;
	}
	case I_SWITCH: {
		Val c = op(f, in.a[0]);
		if(!c.conc()) {
			// fork on each case in turn
			for(auto& p : in.cases) {
				E eq = mk_eq(c.e, mk_const(p.first, in.w2));
				if(eq->is_const() && !eq->val) continue;
				State* o; bool v = branch(s, eq, &o);
				if(v) { /* other re-executes the switch with the case excluded */ goto_edge(s, in.edges[p.second]); return; }
				if(o) goto_edge(*o, in.edges[p.second]);
			}
			goto_edge(s, in.edges[0]); return;
		}
		for(auto& p : in.cases) if(p.first == c.c) { goto_edge(s, in.edges[p.second]); return; }
		goto_edge(s, in.edges[0]); return;
	}
	case I_RET: do_ret(s, in); return;
	case I_CALL: do_call(s, in); return;
	case I_UNREACHABLE: violation(s, "memory", "unreachable code reached (undefined behaviour)"); end(1); return;
	case I_LANDINGPAD: f.r[in.dst] = Val(s.T().cur_exn); f.r[in.dst + 1] = Val((uint64_t)(uint32_t)s.T().cur_sel); f.pc++; return;
	case I_RESUME: unwind(s, op(f, in.a[0], 0).c, true); return;
	case I_CMPXCHG: {
		if(in.atomic) { if(sync_point(s)) return; }
		Val a = op(f, in.a[0]); unsigned b = in.w2 / 8;
		Val cur = load_mem(s, a, b); Val exp = op(f, in.a[1]), nw = op(f, in.a[2]);
		Val eq = icmp(CmpInst::ICMP_EQ, in.w2, cur, exp);
		bool ok = eq.conc() ? eq.c : concretize(s, eq, 1);
		if(ok) store_mem(s, a, b, nw);
		if(races) atomic_sync(s, a.c);
		s.F().r[in.dst] = cur; s.F().r[in.dst + 1] = Val(ok); s.F().pc++; return;
	}
	case I_RMW: {
		if(in.atomic) { if(sync_point(s)) return; }
		Val a = op(f, in.a[0]), v = op(f, in.a[1]); unsigned b = in.w / 8;
		Val old = load_mem(s, a, b), nv;
		switch(in.sub) {
		case AtomicRMWInst::Xchg: nv = v; break;
		case AtomicRMWInst::Add: nv = binop(*this, s, I_ADD, in.w, old, v); break; case AtomicRMWInst::Sub: nv = binop(*this, s, I_SUB, in.w, old, v); break;
		case AtomicRMWInst::And: nv = binop(*this, s, I_AND, in.w, old, v); break; case AtomicRMWInst::Or: nv = binop(*this, s, I_OR, in.w, old, v); break; case AtomicRMWInst::Xor: nv = binop(*this, s, I_XOR, in.w, old, v); break;
		default: unsupported(s, "atomicrmw");
		}
		store_mem(s, a, b, nv);
		if(races) atomic_sync(s, a.c);
		s.F().r[in.dst] = old; s.F().pc++; return;
	}
	case I_FENCE: f.pc++; return;
	case I_BAD: { std::string t; raw_string_ostream os(t); os << *in.I; unsupported(s, "instruction " + t); return; }
	}
}

void Engine::run(State* sp)
{
	State& s = *sp;
	try {
		while(true) {
			step(s);
			n_instr++;
			if(++s.ninstr > max_instr) {
				n_limit++;
				violation(s, "limit", "path exceeds instruction limit");
				end(4);
			}
			if((n_instr & 0xffff) == 0 && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > max_time) { incomplete.insert("time limit"); end(4); }
		}
	} catch(PathEnd& e) {
		n_paths++;
		if(e.why == 0) {
			n_ok++;
			if(sample_traces.size() < 3 || (n_ok % 97 == 0 && sample_traces.size() < 8)) {
				sample_traces.push_back(trace_of(s, *s.wit));
			}
		}
		else if(e.why == 2) n_assume++;
		else if(e.why == 3) n_pruned++;
	}
	delete sp;
}
static uint64_t rss_mb()
{
	unsigned long v = 0, r = 0;
	if(FILE* f = fopen("/proc/self/statm", "r")) { if(fscanf(f, "%lu %lu", &v, &r) != 2) r = 0; fclose(f); }
	return r >> 8;
}
void Engine::explore()
{
	uint64_t nrun = 0;
	const auto t1 = std::chrono::steady_clock::now();
	while(!work.empty()) {
		State* s = work.back(); work.pop_back();
		run(s);
		if((int)viols.size() >= max_viol) { incomplete.insert("stopped after first violations"); break; }
		double dt = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
		if(!new_races.empty() && can_restart && std::chrono::duration<double>(std::chrono::steady_clock::now() - t1).count() > max_time / 12) break;	// is explored again with the new schedule points
		if(dt > max_time && !work.empty()) { incomplete.insert("time limit"); break; }
		if((++nrun & 15) == 0 && !work.empty() && rss_mb() > max_mem) { incomplete.insert("memory limit"); break; }
		if(n_paths >= max_paths && !work.empty()) { incomplete.insert("path limit"); break; }
	}
	for(State* s : work) delete s;
	work.clear();
}
