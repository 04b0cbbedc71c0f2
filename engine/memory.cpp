#include "engine.h"
const Expr UNINIT_ = {};

static inline bool split(uint64_t addr, uint32_t& ar, uint32_t& idx, uint64_t& off) {
	uint64_t sl = addr >> SLOT_SHIFT;
	ar = sl >> IDX_BITS; idx = sl & ((1u << IDX_BITS) - 1);
	off = (addr & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
	return true;
}
Obj* Engine::find(State& s, uint64_t addr) {
	uint32_t ar, ix; uint64_t off; split(addr, ar, ix, off);
	if(ar >= s.ar.size() || ix >= s.ar[ar].n) return nullptr;
	return s.ar[ar].ch[ix / CHUNK]->o[ix % CHUNK].p;
}
Ref<Obj>& Engine::slot(State& s, uint64_t addr, bool wr) {
	uint32_t ar, ix; uint64_t off; split(addr, ar, ix, off);
	Ref<Chunk>& c = s.ar[ar].ch[ix / CHUNK];
	if(wr) {
		c.w();
		Ref<Obj>& o = c->o[ix % CHUNK];
		o.w();
		if(ar == ARENA_GLOBAL) { if(o->serial == 0) { o->serial = 1; s.globals_dirty.push_back(addr); } }
		return o;
	}
	return c->o[ix % CHUNK];
}
static uint64_t put(State& s, uint32_t ar, uint32_t idx, Obj* o) {
	Arena& A = s.ar[ar];
	while(A.ch.size() * CHUNK <= idx) A.ch.push_back(Ref<Chunk>(new Chunk()));
	Ref<Chunk>& c = A.ch[idx / CHUNK];
	c.w();
	c->o[idx % CHUNK] = Ref<Obj>(o);
	if(idx >= A.n) A.n = idx + 1;
	return mkaddr(ar, idx);
}
uint64_t Engine::alloc(State& s, uint64_t size, ObjKind k, const std::string& name, int arena)
{
	if(size > (1ull << 31)) unsupported(s, "allocation of " + std::to_string(size) + " bytes");
	Obj* o = new Obj(); o->size = size; o->kind = k; o->name = name;
	o->pages.resize((size + PS - 1) / PS);
	uint32_t ar, idx;
	if(arena >= 0) { ar = arena; idx = std::max(1u, s.ar[ar].n); }
	else if(k == OK_STACK) { ar = ARENA_THREAD0 + 2 * s.cur + 1; idx = ++s.T().stack_n; }
	else {
		ar = ARENA_THREAD0 + 2 * s.cur; idx = 0;
		if(heap_reuse) {
			// lowest freed slot: allocation becomes independent of how often a thread looped
			Arena& A = s.ar[ar];
			for(uint32_t i = 1; i < A.n; ++i) { Obj* p = A.ch[i / CHUNK]->o[i % CHUNK].p; if(p && p->freed) { idx = i; break; } }
		}
		if(!idx) idx = ++s.T().heap_n;
	}
	if(idx >> IDX_BITS) unsupported(s, "too many allocations");
	return put(s, ar, idx, o);
}
void Engine::free_obj(State& s, uint64_t addr, const char* what)
{
	if(!addr) return;
	Obj* o = find(s, addr);
	uint64_t off = (addr & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
	if(!o || o->kind != OK_HEAP || off != 0) { violation(s, "memory", std::string("invalid ") + what); end(1); }
	if(o->freed) { violation(s, "memory", std::string("double ") + what); end(1); }
	if(races && s.th.size() > 1) for(uint64_t i = 0; i < o->size && i < 4096; i += 8) s.shadow.erase((addr + i) >> 3);
	Ref<Obj>& r = slot(s, addr, true);
	r->freed = true; r->hashed = false; r->pages.clear();
}

void Engine::check_range(State& s, uint64_t addr, uint64_t n, bool wr)
{
	Obj* o = find(s, addr);
	uint64_t off = (addr & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
	const char* rw = wr ? "write" : "read";
	if(!o) {
		if(fbyaddr.count(addr)) violation(s, "memory", std::string(rw) + " of code");
		else violation(s, "memory", (addr >> SLOT_SHIFT) == 0 ? std::string("null or wild pointer ") + rw : std::string("wild pointer ") + rw);
		end(1);
	}
	if(o->freed && o->kind == OK_GLOBAL) unsupported(s, "external object " + o->name);
	if(o->freed) { violation(s, "memory", std::string("use after free (") + rw + ")"); end(1); }
	if((int64_t)off < 0 || off + n > o->size || off > o->size) { violation(s, "memory", std::string("out of bounds ") + rw + " of " + std::to_string(n) + " bytes at offset " + std::to_string((int64_t)off) + " in object '" + o->name + "' of size " + std::to_string(o->size)); end(1); }
	if(wr && o->ro) { violation(s, "memory", "write to constant '" + o->name + "'"); end(1); }
}

// read a range known to be inside the object
Val Engine::readv(State& s, Obj* o, uint64_t addr, unsigned n)
{
	uint64_t off = (addr & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
	if(n <= 8 && off / PS == (off + n - 1) / PS) {
		Page* p = o->rd(off);
		if(!p) { if(o->zero) return Val(0); }
		else {
			unsigned k = off % PS;
			bool conc = true;
			if(p->s) for(unsigned i = 0; i < n; ++i) if(p->s[k + i]) { conc = false; break; }
			if(conc) { uint64_t v = 0; memcpy(&v, p->c + k, n); return Val(v); }
		}
	}
	E r = nullptr;
	uint64_t acc = 0; unsigned accn = 0;	// batch concrete bytes
	auto flush = [&]() {
		if(!accn) return;
		E c = mk_const(acc, accn * 8);
		r = r ? mk_concat(c, r) : c; acc = 0; accn = 0;
	};
	for(unsigned i = 0; i < n; ++i) {
		uint64_t q = off + i;
		Page* p = o->rd(q);
		uint8_t c = 0; E e = nullptr;
		if(!p) { if(!o->zero) e = UNINIT; }
		else { c = p->c[q % PS]; if(p->s) e = p->s[q % PS]; }
		if(e == UNINIT) {
			e = fresh(s, 8, "uninit");
			Obj* ow = slot(s, addr, true).p;
			Page* pw = ow->wr(q); pw->mksym(); pw->s[q % PS] = e;
			o = ow;
		}
		if(!e) { acc |= (uint64_t)c << (8 * accn); if(++accn == 8) flush(); }
		else { flush(); r = r ? mk_concat(e, r) : e; }
	}
	flush();
	return Val::of(r);
}
void Engine::writev(State& s, uint64_t addr, unsigned n, Val v)
{
	uint64_t off = (addr & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
	Obj* o = slot(s, addr, true).p;
	if(v.conc() && n <= 8) {
		for(unsigned i = 0; i < n;) {
			Page* p = o->wr(off + i);
			unsigned k = (off + i) % PS, m = std::min<unsigned>(n - i, PS - k);
			uint64_t x = i ? v.c >> (8 * i) : v.c;
			memcpy(p->c + k, &x, m);
			if(p->s) for(unsigned j = 0; j < m; ++j) p->s[k + j] = nullptr;
			i += m;
		}
		return;
	}
	E e = v.ex(n * 8);
	if(e->w != n * 8) e = mk_zext(e, n * 8);
	for(unsigned i = 0; i < n; ++i) {
		E b = mk_extract(e, i * 8, 8);
		Page* p = o->wr(off + i);
		unsigned k = (off + i) % PS;
		if(b->is_const()) { p->c[k] = (uint8_t)b->val; if(p->s) p->s[k] = nullptr; }
		else { p->mksym(); p->s[k] = b; p->c[k] = 0; }
	}
}

// Resolve a symbolic address to one object (forking when several are possible).
// Returns the object's base; *off_out is the offset term, or nullptr when the address became concrete.
uint64_t Engine::resolve_addr(State& s, Val addr, unsigned bytes, bool wr, E* off_out)
{
	*off_out = nullptr;
	if(addr.conc()) { check_range(s, addr.c, bytes, wr); return addr.c; }
	E a = addr.e;
	uint64_t v = (uint64_t)wval(s, a);
	Obj* o = find(s, v);
	uint64_t base = (v >> SLOT_SHIFT << SLOT_SHIFT) + OBJ_BASE;
	if(o && !o->freed && o->size >= bytes) {
		E off = mk_sub(a, mk_const(base, 64));
		E in = mk_ule(off, mk_const(o->size - bytes, 64));
		if(!(off->hi <= o->size - bytes)) {
			std::shared_ptr<Witness> w;
			if(feasible(s, mk_not(in), &w)) {
				State* f = fork(s);		// re-executes the access outside this object
				f->wit = w; f->cons.push_back(mk_not(in));
				// does the current witness lie inside?
				if(!wval(s, in)) {
					std::shared_ptr<Witness> w2;
					if(!feasible(s, in, &w2)) { end(3); }
					s.wit = w2;
				}
				s.cons.push_back(in);
			}
		}
		if(wr && o->ro) check_range(s, v, bytes, true);
		if(off->is_const()) return base + (uint64_t)off->val;
		*off_out = off;
		return base;
	}
	// current witness points nowhere: genuine memory error for these values
	check_range(s, v, bytes, wr);
	return v;
}

static void candidates(E off, uint64_t size, unsigned bytes, uint64_t& lo, uint64_t& stride, uint64_t& cnt)
{
	unsigned t = 0; while(t < 20 && ((off->kz >> t) & 1)) t++;
	stride = 1ull << t;
	lo = (uint64_t)off->lo; lo = (lo + stride - 1) / stride * stride;
	uint64_t low_ones = 0; (void)low_ones;
	uint64_t hi = std::min<uint64_t>((uint64_t)std::min<u128>(off->hi, size), size - bytes);
	cnt = hi < lo ? 0 : (hi - lo) / stride + 1;
}

static E tree(Engine& en, State& s, uint64_t base, E off, uint64_t lo, uint64_t stride, uint64_t i, uint64_t j, unsigned bytes)
{
	if(j - i == 1) { Val v = en.readv(s, en.find(s, base), base + lo + i * stride, bytes); return v.ex(bytes * 8); }
	uint64_t m = (i + j) / 2;
	E a = tree(en, s, base, off, lo, stride, i, m, bytes), b = tree(en, s, base, off, lo, stride, m, j, bytes);
	if(a == b) return a;
	return mk_ite(mk_ult(off, mk_const(lo + m * stride, 64)), a, b);
}

Val Engine::load_mem(State& s, Val addr, unsigned bytes)
{
	if(addr.conc()) {
		uint64_t a = addr.c;
		Obj* o = find(s, a);
		uint64_t off = (a & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
		if(!o || o->freed || off + bytes > o->size || off > o->size) check_range(s, a, bytes, false);
		if(races) access(s, a, bytes, false);
		return readv(s, o, a, bytes);
	}
	E off; uint64_t base = resolve_addr(s, addr, bytes, false, &off);
	if(!off) { if(races) access(s, base, bytes, false); return readv(s, find(s, base), base, bytes); }
	uint64_t lo, stride, cnt; candidates(off, find(s, base)->size, bytes, lo, stride, cnt);
	if(races) access(s, base, find(s, base)->size > 4096 ? bytes : find(s, base)->size, false);
	if(index_fork && cnt > index_fork) { uint64_t v = concretize(s, Val::of(off), 64); return readv(s, find(s, base), base + v, bytes); }
	if(cnt > 2048) {
		// few feasible values?
		std::vector<uint64_t> vals; E ex = mk_bool(true); bool few = true;
		while(true) {
			std::shared_ptr<Witness> w;
			uint64_t v;
			if(vals.empty()) v = (uint64_t)wval(s, off);
			else { if(!feasible(s, ex, &w)) break; if(vals.size() >= 12) { few = false; break; } v = (uint64_t)eval_expr(off, w->m); }
			vals.push_back(v);
			ex = mk_and(ex, mk_not(mk_eq(off, mk_const(v, 64))));
		}
		if(few) {
			E r = nullptr;
			for(uint64_t v : vals) { E x = readv(s, find(s, base), base + v, bytes).ex(bytes * 8); r = r ? mk_ite(mk_eq(off, mk_const(v, 64)), x, r) : x; }
			return Val::of(r);
		}
		if(cnt > 70000) { uint64_t v = concretize(s, Val::of(off), 64); return readv(s, find(s, base), base + v, bytes); }
	}
	return Val::of(tree(*this, s, base, off, lo, stride, 0, cnt, bytes));
}
void Engine::store_mem(State& s, Val addr, unsigned bytes, Val v)
{
	if(addr.conc()) {
		uint64_t a = addr.c;
		Obj* o = find(s, a);
		uint64_t off = (a & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
		if(!o || o->freed || o->ro || off + bytes > o->size || off > o->size) check_range(s, a, bytes, true);
		if(races) access(s, a, bytes, true);
		writev(s, a, bytes, v);
		return;
	}
	E off; uint64_t base = resolve_addr(s, addr, bytes, true, &off);
	if(!off) { if(races) access(s, base, bytes, true); writev(s, base, bytes, v); return; }
	uint64_t lo, stride, cnt; candidates(off, find(s, base)->size, bytes, lo, stride, cnt);
	if(races) access(s, base, find(s, base)->size > 4096 ? bytes : find(s, base)->size, true);
	if(cnt > 1024 || stride < bytes) {
		uint64_t o = concretize(s, Val::of(off), 64);
		writev(s, base + o, bytes, v); return;
	}
	E ve = v.ex(bytes * 8);
	for(uint64_t i = 0; i < cnt; ++i) {
		uint64_t a = base + lo + i * stride;
		E old = readv(s, find(s, base), a, bytes).ex(bytes * 8);
		writev(s, a, bytes, Val::of(mk_ite(mk_eq(off, mk_const(lo + i * stride, 64)), ve, old)));
	}
}
void Engine::copy_mem(State& s, uint64_t d, uint64_t src, uint64_t n)
{
	if(!n) return;
	check_range(s, src, n, false); check_range(s, d, n, true);
	if(races) { access(s, src, n, false); access(s, d, n, true); }
	uint64_t so = (src & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE, dof = (d & ((1ull << SLOT_SHIFT) - 1)) - OBJ_BASE;
	// snapshot the source
	std::vector<uint8_t> c(n); std::vector<E> e; bool sym = false;
	Obj* so_ = find(s, src);
	for(uint64_t i = 0; i < n;) {
		Page* p = so_->rd(so + i);
		unsigned k = (so + i) % PS; uint64_t m = std::min<uint64_t>(n - i, PS - k);
		if(!p) { memset(&c[i], 0, m); if(!so_->zero) { if(!sym) { e.assign(n, nullptr); sym = true; } for(uint64_t j = 0; j < m; ++j) e[i + j] = UNINIT; } }
		else {
			memcpy(&c[i], p->c + k, m);
			if(p->s) for(uint64_t j = 0; j < m; ++j) if(p->s[k + j]) { if(!sym) { e.assign(n, nullptr); sym = true; } e[i + j] = p->s[k + j]; }
		}
		i += m;
	}
	Obj* o = slot(s, d, true).p;
	for(uint64_t i = 0; i < n;) {
		Page* p = o->wr(dof + i);
		unsigned k = (dof + i) % PS; uint64_t m = std::min<uint64_t>(n - i, PS - k);
		memcpy(p->c + k, &c[i], m);
		if(sym) { bool any = p->s; if(!any) for(uint64_t j = 0; j < m; ++j) if(e[i + j]) { any = true; break; } if(any) { p->mksym(); for(uint64_t j = 0; j < m; ++j) p->s[k + j] = e[i + j]; } }
		else if(p->s) for(uint64_t j = 0; j < m; ++j) p->s[k + j] = nullptr;
		i += m;
	}
}
uint8_t Engine::rd_u8(State& s, uint64_t a) {
	Val v = load_mem(s, Val(a), 1);
	if(v.conc()) return v.c;
	return concretize(s, v, 8);
}
std::string Engine::cstr(State& s, uint64_t a) {
	std::string r;
	if(!a) return r;
	bool sv = races; races = false;
	while(uint8_t c = rd_u8(s, a + r.size())) { r.push_back(c); if(r.size() > 100000) break; }
	races = sv;
	return r;
}

// happens-before race detection (accesses become schedule points in a later pass)
void Engine::access(State& s, uint64_t addr, unsigned n, bool wr)
{
	if(s.th.size() < 2) return;
	Thread& T = s.T();
	// attribute accesses made inside atomic model functions to their caller
	int fr = (int)T.st.size() - 1;
	int at = -1;
	for(int i = 0; i <= fr; ++i) if(T.st[i].f->atomic_fn) { at = i; break; }
	if(at == 0) return;
	if(at > 0 && !T.st[fr].f->touch_fn) return;
	Frame& F = at > 0 ? T.st[at - 1] : T.st[fr];
	if(F.pc < 0 || F.pc >= (int)F.f->code.size()) return;
	const Ins* in = &F.f->code[F.pc];
	if(in->atomic) return;
	int t = s.cur;
	auto report = [&](const Ins* a, const Ins* b) {
		for(const Ins* x : {a, b}) {
			std::pair<std::string, uint32_t> k{x->I->getFunction()->getName().str(), x->ord};
			if(!race_points.count(k)) new_races.insert(k);
		}
		std::string la = loc_of(a->I), lb = loc_of(b->I); if(lb < la) std::swap(la, lb);
		race_desc.insert(la + " <-> " + lb);
	};
	for(uint64_t g = addr >> 3; g <= (addr + (n ? n - 1 : 0)) >> 3; ++g) {
		Shadow& sh = s.shadow[g];
		if(sh.wt >= 0 && sh.wt != t && sh.wc > T.vc.get(sh.wt)) report(sh.wi, in);
		if(wr) {
			for(auto& r : sh.rd) if(r.t != t && r.c > T.vc.get(r.t)) report(r.i, in);
			sh.rd.clear();
			sh.wt = t; sh.wc = T.vc.get(t); sh.wi = in;
		} else { bool f = false; for(auto& r : sh.rd) if(r.t == t) { r.c = T.vc.get(t); r.i = in; f = true; } if(!f) sh.rd.push_back({t, T.vc.get(t), in}); }
	}
}
