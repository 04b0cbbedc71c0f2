#pragma once
#include "state.h"
#include <deque>
#include <chrono>
#include <unordered_set>

struct Violation { std::string kind, msg, loc; std::vector<std::string> trace; };

struct Engine {
	llvm::Module* M = nullptr;
	const llvm::DataLayout* DL = nullptr;
	std::unordered_map<const llvm::Function*, FuncInfo*> fi;
	std::deque<FuncInfo> fstore;
	std::unordered_map<uint64_t, FuncInfo*> fbyaddr;
	std::unordered_map<const llvm::GlobalVariable*, uint64_t> gaddr;
	std::unordered_map<std::string, Builtin> builtins;
	std::vector<State*> work;
	State* root = nullptr;
	uint32_t root_globals = 0;

	// options
	uint64_t max_instr = 50000000; double max_time = 600; int max_preempt = -1, max_spurious = 0, max_delay = -1; bool fork_select = false; uint64_t index_fork = 0; bool one_sched = false; bool races = false; bool dedup = false;
	uint64_t max_paths = 10000000; int max_viol = 4; int max_conc = 4096; bool heap_reuse = false; uint64_t max_states = 20000000;
	bool verbose = false;
	int rnd = -1;	// concrete random mode seed
	bool trace_replay = false;

	// results
	uint64_t n_paths = 0, n_ok = 0, n_assume = 0, n_pruned = 0, n_instr = 0, n_forks = 0, n_asserts = 0, n_assert_q = 0, n_sched = 0, n_limit = 0, n_aborts = 0;
	std::vector<Violation> viols; std::set<std::string> vkeys;
	std::set<std::string> incomplete;
	std::map<std::string, uint64_t> covers;
	std::vector<std::string> observes;
	std::vector<std::string> sample;			// one solver-chosen concrete trace per run, for validation
	std::vector<std::vector<std::string>> sample_traces; std::vector<std::vector<std::string>> sample_obs;
	std::unordered_set<uint64_t> visited;
	std::set<std::pair<std::string, uint32_t>> race_points, new_races; std::set<std::string> race_desc;
	std::unordered_map<uint64_t, int> ti_ids;
	std::chrono::steady_clock::time_point t0;
	bool can_restart = false;
	int max_slow = 0;	// so many threads may be slower than all others
	uint64_t max_mem = 5000;	// MB

	// decode
	FuncInfo* func(const llvm::Function* F);
	void decode(FuncInfo* f);
	void flatten_const(const llvm::Constant* C, std::vector<Val>& out);
	uint64_t const_addr(const llvm::Constant* C);
	void load(llvm::Module* m);

	// memory
	Ref<Obj>& slot(State& s, uint64_t addr, bool wr);
	Obj* find(State& s, uint64_t addr);
	uint64_t alloc(State& s, uint64_t size, ObjKind k, const std::string& name, int arena = -1);
	void free_obj(State& s, uint64_t addr, const char* what);
	Val readv(State& s, Obj* o, uint64_t addr, unsigned bytes);
	void writev(State& s, uint64_t addr, unsigned bytes, Val v);
	Val load_mem(State& s, Val addr, unsigned bytes);
	void store_mem(State& s, Val addr, unsigned bytes, Val v);
	void copy_mem(State& s, uint64_t d, uint64_t src, uint64_t n);
	void check_range(State& s, uint64_t addr, uint64_t n, bool wr);
	uint64_t resolve_addr(State& s, Val addr, unsigned bytes, bool wr, E* off_out);
	uint8_t rd_u8(State& s, uint64_t a);
	std::string cstr(State& s, uint64_t a);
	void access(State& s, uint64_t addr, unsigned n, bool wr);

	// solver helpers
	u128 wval(State& s, E e);
	bool feasible(State& s, E c, std::shared_ptr<Witness>* w);	// may c hold?
	void add_cons(State& s, E c);			// c must be satisfied by current witness
	State* fork(State& s);
	bool branch(State& s, E c, State** other);	// returns side taken; other = forked state (or null)
	uint64_t concretize(State& s, Val v, unsigned w);
	E fresh(State& s, unsigned w, const char* what);
	bool assume(State& s, E c);

	// control
	void violation(State& s, const std::string& kind, const std::string& msg, std::shared_ptr<Witness> w = nullptr);
	void end(int why) { throw PathEnd{why}; }
	void unsupported(State& s, const std::string& what);
	void abort_path(State& s, const std::string& why);
	std::string where(State& s, bool stack = true);
	void run(State* s);
	void step(State& s);
	void explore();
	void advance(State& s) { s.F().pc++; }
	void finish_call(State& s, const Ins& in);
	void setres(State& s, const Ins& in, Val v) { if(in.dst >= 0) s.F().r[in.dst] = v; }
	void goto_edge(State& s, int e);
	void push_call(State& s, FuncInfo* f, const std::vector<Val>& args);
	void do_call(State& s, const Ins& in);
	void do_ret(State& s, const Ins& in);
	void throw_exn(State& s, uint64_t exn);
	void unwind(State& s, uint64_t exn, bool from_current);
	bool ti_match(State& s, uint64_t thrown, uint64_t caught);
	int ti_id(uint64_t ti) { auto it = ti_ids.find(ti); if(it != ti_ids.end()) return it->second; int n = ti_ids.size() + 1; ti_ids[ti] = n; return n; }
	const Val& op(Frame& f, int o, int i = 0) { return o >= 0 ? f.r[o + i] : f.f->consts[-o - 1 + i]; }
	Val arg(State& s, const Ins& in, int i) { return op(s.F(), in.a[i]); }
	uint64_t carg(State& s, const Ins& in, int i) { Val v = arg(s, in, i); if(v.conc()) return v.c; uint64_t c = concretize(s, v, in.aw[i]); if(in.a[i] >= 0) s.F().r[in.a[i]] = Val(c); return c; }

	// threads
	void sched(State& s, bool forced);
	bool sync_point(State& s);	// true if caller must return without executing
	bool enabled(State& s, int t);
	uint64_t hash_state(State& s);

	std::vector<std::string> trace_of(State& s, Witness& w);
	void write_json(const char* fn);
};
void register_builtins(Engine& e);
std::string loc_of(const llvm::Instruction* I);
