#pragma once
#include "expr.h"
#include "solver.h"
#include <map>
#include <set>
#include <cstring>
#include <cassert>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>

// ---------- intrusive refs -------------------------------------------------
template<class T> struct Ref {
	T* p = nullptr;
	Ref() {}
	explicit Ref(T* x) : p(x) { if(p) p->rc++; }
	Ref(const Ref& o) : p(o.p) { if(p) p->rc++; }
	Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
	Ref& operator=(const Ref& o) { if(o.p) o.p->rc++; drop(); p = o.p; return *this; }
	Ref& operator=(Ref&& o) noexcept { if(this != &o) { drop(); p = o.p; o.p = nullptr; } return *this; }
	~Ref() { drop(); }
	void drop() { if(p && --p->rc == 0) delete p; p = nullptr; }
	T* operator->() const { return p; }
	T& operator*() const { return *p; }
	explicit operator bool() const { return p; }
	// copy on write
	T* w() { if(p->rc > 1) { T* n = new T(*p); n->rc = 1; --p->rc; p = n; } return p; }
};

// ---------- values ---------------------------------------------------------
struct Val {
	E e = nullptr;
	uint64_t c = 0;
	Val() {}
	Val(uint64_t x) : e(nullptr), c(x) {}
	static Val of(E x) { Val v; if(x->is_const() && x->w <= 64) v.c = (uint64_t)x->val; else v.e = x; return v; }
	bool conc() const { return !e; }
	E ex(unsigned w) const { return e ? e : mk_const(c, w); }
	bool operator==(const Val& o) const { return e == o.e && c == o.c; }
};

// ---------- memory ---------------------------------------------------------
extern const Expr UNINIT_;
#define UNINIT (&UNINIT_)
enum { PS = 256 };
struct Page {
	uint32_t rc = 0;
	uint64_t hash = 0; bool hashed = false;
	uint8_t c[PS];
	E* s = nullptr;			// per byte: nullptr concrete, UNINIT, or 8 bit term
	Page() {}
	Page(const Page& o) : hash(o.hash), hashed(o.hashed) { memcpy(c, o.c, PS); if(o.s) { s = new E[PS]; memcpy(s, o.s, sizeof(E) * PS); } }
	~Page() { delete[] s; }
	void mksym() { if(!s) { s = new E[PS]; memset(s, 0, sizeof(E) * PS); } }
	uint64_t get_hash() {
		if(!hashed) {
			uint64_t h = 0x12345;
			for(int i = 0; i < PS; i += 8) { uint64_t v; memcpy(&v, c + i, 8); h = (h ^ v) * 0x9E3779B97F4A7C15ull; h ^= h >> 31; }
			if(s) for(int i = 0; i < PS; ++i) { h = (h ^ (s[i] ? s[i] == UNINIT ? 7777 : s[i]->id + 10000 : 0)) * 0x9E3779B97F4A7C15ull; h ^= h >> 29; }
			hash = h; hashed = true;
		}
		return hash;
	}
};
enum ObjKind : uint8_t { OK_GLOBAL, OK_HEAP, OK_STACK };
struct Obj {
	uint32_t rc = 0;
	uint64_t size = 0;
	ObjKind kind = OK_HEAP;
	bool freed = false, ro = false, zero = false;	// zero: untouched pages are zero (else uninitialised)
	uint32_t serial = 0;
	uint64_t hash = 0; bool hashed = false;
	std::string name;
	std::vector<Ref<Page>> pages;
	Page* rd(uint64_t off) { return pages[off / PS].p; }
	Page* wr(uint64_t off) {
		Ref<Page>& r = pages[off / PS];
		hashed = false;
		if(!r) {
			r = Ref<Page>(new Page());
			memset(r->c, 0, PS);
			if(!zero) { r->mksym(); for(int i = 0; i < PS; ++i) r->s[i] = UNINIT; }
		} else r.w();
		r->hashed = false;
		return r.p;
	}
	uint64_t get_hash() {
		if(!hashed) {
			uint64_t h = size * 31 + freed;
			for(size_t i = 0; i < pages.size(); ++i) if(pages[i]) { h = (h ^ pages[i]->get_hash() ^ i) * 0xff51afd7ed558ccdull; h ^= h >> 33; }
			hash = h; hashed = true;
		}
		return hash;
	}
};
enum { CHUNK = 64 };
struct Chunk { uint32_t rc = 0; Ref<Obj> o[CHUNK]; };
struct Arena { std::vector<Ref<Chunk>> ch; uint32_t n = 0; };

enum { SLOT_SHIFT = 32, IDX_BITS = 20 };
static const uint64_t OBJ_BASE = 65536;
inline uint64_t mkaddr(uint32_t arena, uint32_t idx) { return ((((uint64_t)arena << IDX_BITS) | idx) << SLOT_SHIFT) + OBJ_BASE; }
enum { ARENA_GLOBAL = 1, ARENA_THREAD0 = 2, ARENA_FUNC = 2047 };

// ---------- code -----------------------------------------------------------
struct FuncInfo;
struct Engine;
struct State;
struct Ins;
typedef void (*Builtin)(Engine&, State&, const Ins&);

struct Move { int dst, src, n; };
struct Edge { int pc; std::vector<Move> moves; };
struct Leaf { uint32_t off; uint16_t w; uint16_t bytes; uint8_t fp; };
struct GepIdx { int op; uint16_t w; int64_t scale; };

enum IOp : uint8_t {
	I_ADD, I_SUB, I_MUL, I_UDIV, I_SDIV, I_UREM, I_SREM, I_SHL, I_LSHR, I_ASHR, I_AND, I_OR, I_XOR,
	I_FADD, I_FSUB, I_FMUL, I_FDIV, I_FREM, I_FNEG, I_ICMP, I_FCMP, I_ZEXT, I_SEXT, I_TRUNC, I_MOV, I_FPTOUI, I_FPTOSI, I_UITOFP, I_SITOFP, I_FPEXT, I_FPTRUNC,
	I_LOAD, I_STORE, I_ALLOCA, I_GEP, I_SELECT, I_BR, I_CONDBR, I_SWITCH, I_RET, I_CALL, I_UNREACHABLE, I_LANDINGPAD, I_RESUME,
	I_EXTRACT, I_INSERT, I_EXTELEM, I_INSELEM, I_SHUFFLE, I_CMPXCHG, I_RMW, I_FREEZE, I_FENCE, I_BAD
};
struct Ins {
	IOp op = I_BAD;
	uint8_t sub = 0;
	uint8_t fp = 0;			// 0 int, 1 float, 2 double, 3 fp80
	bool invoke = false;
	bool atomic = false;
	uint16_t w = 0, w2 = 0;	// result/operand widths
	int dst = -1, n = 1;	// result slots, number of lanes
	std::vector<int> a;		// operand bases
	std::vector<int> an;	// operand lane counts (calls)
	std::vector<uint16_t> aw;	// operand scalar widths (calls)
	std::vector<Leaf> leaves;
	std::vector<GepIdx> gi;
	int64_t imm = 0;
	std::vector<int> edges;
	std::vector<std::pair<u128, int>> cases;
	std::vector<uint16_t> rw;	// result widths per lane
	FuncInfo* callee = nullptr;
	bool swi = false;
	const llvm::Instruction* I = nullptr;
	uint32_t ord = 0;
};
struct FuncInfo {
	const llvm::Function* F = nullptr;
	std::string name;
	uint64_t addr = 0;
	bool decoded = false, executed = false, atomic_fn = false, touch_fn = false;
	Builtin bi = nullptr;
	int nslots = 0;
	std::vector<Val> consts;
	std::vector<Ins> code;
	std::vector<Edge> edges;
	std::vector<uint16_t> retw;
};

struct Frame {
	FuncInfo* f = nullptr;
	int pc = 0;
	std::vector<Val> r;
	std::vector<uint32_t> allocas;
	std::vector<Val> va; std::vector<uint16_t> vaw;
	bool hook = false;		// path ends when this frame returns
};

enum TStat : uint8_t { T_RUN, T_MUTEX, T_CV, T_JOIN, T_DONE };
struct VC { std::vector<uint32_t> v; uint32_t get(size_t i) const { return i < v.size() ? v[i] : 0; } uint32_t& at(size_t i) { if(i >= v.size()) v.resize(i + 1); return v[i]; } void join(const VC& o) { if(o.v.size() > v.size()) v.resize(o.v.size()); for(size_t i = 0; i < o.v.size(); ++i) if(o.v[i] > v[i]) v[i] = o.v[i]; } };
struct Thread {
	std::vector<Frame> st;
	TStat stat = T_RUN;
	uint64_t waddr = 0;		// mutex / cv / join tid
	uint64_t wmutex = 0;	// mutex of a condition wait
	uint8_t phase = 0;		// cv wait: 1 = notified, re-acquiring
	bool sched_ok = false;
	bool timed = false;		// wait with a time limit, or sleeping
	uint32_t stack_n = 0;	// live stack objects
	std::vector<uint64_t> caught;
	uint64_t cur_exn = 0; int cur_sel = 0;
	VC vc;
	uint32_t heap_n = 0;
};
struct ExnInfo { uint64_t ti, dtor; int handlers; };
struct MutexSt { int owner = -1; int depth = 0; };
struct Shadow { int wt = -1; uint32_t wc = 0; const Ins* wi = nullptr; struct R { int t; uint32_t c; const Ins* i; }; std::vector<R> rd; };

struct TraceItem { char kind; std::string name; unsigned w; E e; uint64_t c; };
struct TraceNode { uint32_t rc = 0; Ref<TraceNode> prev; TraceItem it; uint32_t n; };

struct Witness { Model m; std::unordered_map<E, u128> memo; };

struct State {
	std::vector<Arena> ar;
	std::vector<Thread> th;
	int cur = 0;
	std::vector<E> cons;
	std::shared_ptr<Witness> wit = std::make_shared<Witness>();
	std::map<uint64_t, ExnInfo> exns;
	std::map<uint64_t, MutexSt> mtx;
	std::map<uint64_t, VC> mvc;
	std::unordered_map<uint64_t, Shadow> shadow;
	Ref<TraceNode> trace;
	uint32_t nsym = 0, nchoice = 0, nuninit = 0;
	int preempt = 0, spurious = 0, delay = 0; int timeouts = 0; uint64_t slow = 0; int starved = 0;
	uint64_t ninstr = 0;
	int allow_abort = 0;
	uint64_t abort_hook = 0;
	bool in_hook = false;
	int depth = 0;
	std::vector<uint64_t> globals_dirty;	// indices of modified global objects
	void tr(char k, const std::string& n, unsigned w, E e, uint64_t c) {
		TraceNode* t = new TraceNode(); t->prev = trace; t->it = {k, n, w, e, c}; t->n = trace ? trace->n + 1 : 1; trace = Ref<TraceNode>(t);
	}
	Thread& T() { return th[cur]; }
	Frame& F() { return th[cur].st.back(); }
};

struct PathEnd { int why; };	// 0 normal, 1 violation, 2 infeasible/assume, 3 pruned, 4 incomplete
