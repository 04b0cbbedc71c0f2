// C10-C12: Thread<T> and ThreadPool<T,S,L> under every schedule within the preemption bound.
#include <vp.h>
#include <chia/ThreadPool.h>
#include <stdexcept>
#include <cstring>
extern "C" { int knob_case = 0; int knob_jobs = 3; int knob_threads = 2; int knob_named = 0; int knob_out = 0; }
struct Item { int id = -1; uint64_t val = 0; std::vector<int>* own = nullptr; };
static int g_n, g_log[32]; static uint64_t g_val[32]; static int g_in_exec, g_done[32];
static int g_failed, g_reported; static bool g_main_done;
static void log_item(const Item& it) { g_log[g_n & 31] = it.id; g_val[g_n & 31] = it.val; g_n++; }
static void run_one(Item& it)
{
	g_in_exec++; vp_assert(g_in_exec == 1, "a Thread never runs two jobs at once");
	vp_sched_point();
	log_item(it);
	g_in_exec--;
}
static int sym_below(int n, const char* name) { const uint64_t v = vp_sym(name, 8); vp_assume(v < (uint64_t)n); return (int)v; }
struct Fail : std::runtime_error { Fail() : std::runtime_error("job failed") {} };
static bool has(const char* s, const char* t) { for(; *s; ++s) { int i = 0; while(t[i] && s[i] == t[i]) i++; if(!t[i]) return true; } return false; }
static void after_abort() { vp_assert(g_failed > 0, "the process is only terminated after a job failed"); vp_cover("terminated"); }

static void single()
{
	uint64_t v[16]; for(int i = 0; i < knob_jobs; ++i) v[i] = vp_sym("val", 64);
	{
		Thread<Item> th(run_one, knob_named ? "a/rather/long/thread/name" : "");
		for(int i = 0; i < knob_jobs; ++i) {
			Item it; it.id = i; it.val = v[i];
			if(i % 2) th.take_copy(it); else th.take(it);
			if(knob_out && i == 0) { th.wait(); vp_assert(g_n == 1, "wait() returns only when the accepted jobs are done"); }
		}
		if(knob_out != 2) { th.wait(); vp_assert(g_n == knob_jobs, "wait() returns only when every accepted job is done"); }
		th.close();
		vp_assert(g_n == knob_jobs, "close() returns only when every accepted job is done");
		if(knob_out == 1) th.close();
	}
	for(int i = 0; i < knob_jobs; ++i) vp_assert(g_log[i] == i && g_val[i] == v[i], "jobs run exactly once, in order, with the data handed over");
	vp_cover("single");
}
static void producers()
{
	Thread<Item> th(run_one);
	std::thread a([&th]() { for(int i = 0; i < 2; ++i) { Item it; it.id = i; it.val = i; th.take(it); } });
	for(int i = 0; i < knob_jobs; ++i) { Item it; it.id = 10 + i; it.val = 10 + i; th.take(it); }
	a.join();
	th.close();
	vp_assert(g_n == 2 + knob_jobs, "every job of every producer runs exactly once");
	int na = 0, nb = 10; for(int i = 0; i < g_n; ++i) { if(g_log[i] < 10) vp_assert(g_log[i] == na++, "order of one producer is kept"); else vp_assert(g_log[i] == nb++, "order of one producer is kept"); }
	vp_cover("producers");
}
static void single_fail()
{
	const int bad = sym_below(knob_jobs, "bad");
	vp_abort_hook(after_abort); vp_allow_abort(1);
	bool caught = false; const bool stop = vp_choice(2, "no unwinding");
	try {
		Thread<Item> th([bad](Item& it) { run_one(it); if(it.id == bad) { g_failed++; throw Fail(); } });
		try {
			for(int i = 0; i < knob_jobs; ++i) { Item it; it.id = i; th.take(it); }
			if(vp_choice(2, "explicit wait")) th.wait();
			th.close();
		} catch(const std::exception& ex) {
			caught = true;
			vp_assert(has(ex.what(), "job failed"), "the reported error names the cause");
			vp_cover("caught");
			if(stop) vp_end();
			throw;
		}
	} catch(...) { caught = true; }
	vp_assert(caught, "a failed job is reported, not swallowed");
}
struct Out : Processor<Item> { int busy = 0; void take(Item& it) override { vp_assert(busy++ == 0, "only one job at a time is handed to the output"); vp_sched_point(); log_item(it); busy--; } };
struct Local { int users = 0, jobs = 0; };
static void pool(bool fail)
{
	int bad = -1;
	if(fail) { bad = sym_below(knob_jobs, "bad"); vp_abort_hook(after_abort); vp_allow_abort(1); }
	uint64_t v[16]; for(int i = 0; i < knob_jobs; ++i) v[i] = fail ? i : vp_sym("val", 32);
	Out out; int total = 0; bool caught = false; const bool stop = fail && vp_choice(2, "no unwinding");
	std::unique_ptr<Thread<Item>> oth; Processor<Item>* dst = &out;
	if(knob_out == 1) { oth.reset(new Thread<Item>([&](Item& it) { out.take(it); })); dst = oth.get(); }
	if(knob_out == 2) dst = nullptr;
	struct BadOut : Processor<Item> { Out* o; int bad; void take(Item& it) override { if(it.id == bad) { g_failed++; throw Fail(); } o->take(it); } } bo; bo.o = &out; bo.bad = bad;
	if(knob_out == 3) dst = &bo;
	try {
		ThreadPool<Item, Item, Local> p([&](Item& in, Item& o, Local& l) {
			vp_assert(l.users++ == 0, "thread local data is used by one job at a time");
			vp_sched_point();
			g_done[in.id]++; l.jobs++;
			if(knob_out != 3 && in.id == bad) { g_failed++; throw Fail(); }
			o.id = in.id; o.val = in.val + 1;
			l.users--;
		}, dst, knob_threads, knob_named ? "pool" : "");
		try {
			vp_assert(p.num_threads() == (size_t)knob_threads, "thread count");
			for(int i = 0; i < knob_jobs; ++i) { Item it; it.id = i; it.val = v[i]; if(i % 2) p.take_copy(it); else p.take(it); }
			if(knob_named) { p.wait(); if(!fail) { for(int i = 0; i < knob_jobs; ++i) vp_assert(g_done[i] == 1, "wait() returns only after every job"); if(knob_out == 0) vp_assert(g_n == knob_jobs, "wait() returns only after every output"); } }
			if(!fail) for(int i = 0; i < knob_threads; ++i) total += p.get_local(i).jobs;
			p.close();
		} catch(const std::exception& ex) { caught = true; vp_cover("caught"); if(stop) vp_end(); throw; }
	} catch(...) { caught = true; }
	if(fail) { vp_assert(caught, "a failed job is reported, not swallowed"); return; }
	if(oth) { oth->close(); }
	for(int i = 0; i < knob_jobs; ++i) vp_assert(g_done[i] == 1, "every job runs exactly once");
	vp_assert(total == knob_jobs, "thread local data sees every job");
	if(dst) { vp_assert(g_n == knob_jobs, "every result is delivered exactly once"); for(int i = 0; i < knob_jobs; ++i) vp_assert(g_log[i] == i && g_val[i] == v[i] + 1, "results are delivered in job order"); }
	vp_cover("pool");
}
static void chain() // pool -> thread -> pool, as the sorter does
{
	const bool fail = knob_named; const int bad = fail ? sym_below(knob_jobs * 2, "bad") : -1; const bool in2 = fail && vp_choice(2, "second");
	if(fail) { vp_abort_hook(after_abort); vp_allow_abort(1); }
	Out out; bool caught = false; const bool stop = fail && vp_choice(2, "no unwinding");
	try {
		ThreadPool<Item, Item> second([bad, in2](Item& in, Item& o, size_t&) { if(in2 && in.id == bad) { g_failed++; throw Fail(); } o.id = in.id; o.val = in.val; }, &out, knob_threads);
		Thread<std::vector<Item>> mid([&](std::vector<Item>& in) { for(auto& x : in) second.take(x); });
		ThreadPool<Item, std::vector<Item>> first([bad, in2](Item& in, std::vector<Item>& o, size_t&) { for(int j = 0; j < 2; ++j) { Item x; x.id = in.id * 2 + j; if(!in2 && x.id == bad) { g_failed++; throw Fail(); } x.val = in.val; o.push_back(x); } }, &mid, knob_threads);
		try {
			for(int i = 0; i < knob_jobs; ++i) { Item it; it.id = i; it.val = i; first.take_copy(it); }
			first.close(); mid.close(); second.close();
		} catch(const std::exception&) { caught = true; vp_cover("caught"); if(stop) vp_end(); throw; }
	} catch(...) { caught = true; }
	if(fail) { vp_assert(caught, "a failed job is reported, not swallowed"); return; }
	vp_assert(g_n == knob_jobs * 2, "every result arrives exactly once");
	for(int i = 0; i < g_n; ++i) vp_assert(g_log[i] == i && g_val[i] == (uint64_t)(i / 2), "results arrive in order");
	vp_cover("chain");
}
extern "C" void vp_main()
{
	switch(knob_case) {
	case 0: single(); break;
	case 1: producers(); break;
	case 2: single_fail(); break;
	case 3: pool(false); break;
	case 4: pool(true); break;
	case 5: chain(); break;
	}
}
