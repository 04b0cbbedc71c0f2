// Native implementation of the harness primitives: replays a recorded trace.
// usage: replay TRACE ; exit 77 assertion failed, 78 unexpected termination, 79 deadlock, 80 trace mismatch, 0 ok
#include <pthread.h>
#include <signal.h>
#include <unistd.h>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <string>
#include <vector>
#include <map>
#include <dlfcn.h>
extern "C" void vp_main();
namespace {
struct Item { char k; std::string name; unsigned w; uint64_t v; };
std::vector<Item> items; size_t pos_ = 0;
int allow_abort = 0; void (*hook)() = nullptr; bool in_hook = false; bool ended = false;
FILE* outf;
const Item* next(char k) {
	while(pos_ < items.size() && items[pos_].k == 'O') ++pos_;
	if(pos_ >= items.size()) { ended = true; return nullptr; }
	if(items[pos_].k != k) { fprintf(outf, "VP-MISMATCH want %c have %c %s at %zu\n", k, items[pos_].k, items[pos_].name.c_str(), pos_); fflush(outf); _exit(80); }
	return &items[pos_++];
}
[[noreturn]] void fin(int c) { fflush(outf); _exit(c); }
[[noreturn]] void died(const char* why) {
	fprintf(outf, "VP-ABORT %s\n", why);
	if(in_hook || !allow_abort) fin(78);
	if(hook) { in_hook = true; hook(); }
	fprintf(outf, "VP-OK\n");
	fin(0);
}
}
extern "C" {
uint64_t vp_sym(const char* name, unsigned w) { auto* i = next('S'); return i ? i->v : 0; }
uint64_t vp_choice(uint64_t n, const char* name) { if(!n) fin(0); auto* i = next('C'); return i ? i->v : 0; }
void vp_assume(bool c) { if(!c) { fprintf(outf, "VP-ASSUME-FAILED\n"); fin(ended ? 81 : 82); } }
void vp_assert(bool c, const char* m) { if(!c) { fprintf(outf, "VP-ASSERT-FAIL %s\n", m); fin(77); } }
void vp_cover(const char*) {}
void vp_observe(uint64_t v, const char* n) { std::string s = n; for(auto& c : s) if(c == ' ') c = '_'; fprintf(outf, "OBS %s %llu\n", s.c_str(), (unsigned long long)v); }
uint64_t vp_concretize(uint64_t v) { return v; }
void vp_end() { fprintf(outf, "VP-OK\n"); fin(0); }
void vp_allow_abort(int y) { allow_abort = y; }
void vp_abort_hook(void (*f)()) { hook = f; }
void vp_crash() { allow_abort = 1; died("crash"); }
int vp_is_engine() { return 0; }
void vp_uninit(void* p, size_t n) { const char* f = getenv("VP_FILL"); memset(p, f ? atoi(f) : 0xA5, n); }
void vp_print(const char*, uint64_t) {}
int vp_is_sym(uint64_t) { return 0; }
void vp_exit(int c) { died("exit"); }
void vp_abort() { died("abort"); }
void vp_assert_fail(const char* e, const char* f, unsigned l, const char*) { std::string s = std::string("assertion failed: ") + e; died(s.c_str()); }
}
// ---- threads: baton passing, same rules as the engine -----------------------
namespace {
enum { RUN, MUTEX, CV, JOIN, DONE };
struct T { int stat = RUN; uint64_t waddr = 0, wmutex = 0; int phase = 0; bool ok = false, timed = false; pthread_t th; void* (*fn)(void*); void* arg; pthread_cond_t c = PTHREAD_COND_INITIALIZER; };
std::vector<T*> th; int cur = 0; pthread_mutex_t L = PTHREAD_MUTEX_INITIALIZER;
std::map<uint64_t, int> owner, depth; int timeouts = 0, preempt = 0, spurious = 0, max_preempt = -1, max_spurious = 0;
__thread int me = 0;
bool en(int t) { switch(th[t]->stat) { case RUN: return true; case MUTEX: return !owner.count(th[t]->waddr); case JOIN: return th[th[t]->waddr]->stat == DONE; } return false; }
void sched(bool forced) {
	bool reg = false; std::vector<int> cand; bool ce = !forced && th[cur]->stat == RUN;
	if(ce) cand.push_back(cur);
	if(!(ce && max_preempt >= 0 && preempt >= max_preempt)) {
		for(int t = 0; t < (int)th.size(); ++t) if(!(t == cur && ce) && en(t)) cand.push_back(t);
		if(spurious < max_spurious) for(int t = 0; t < (int)th.size(); ++t) if(th[t]->stat == CV && th[t]->waddr) cand.push_back(-t - 1);
		for(int x : cand) reg |= x >= 0;
		if(!reg || timeouts < 2) for(int t = 0; t < (int)th.size(); ++t) if(th[t]->stat == CV && th[t]->timed) cand.push_back(-100000 - t);
	}
	bool any = false; for(int c : cand) if(c >= 0 || c <= -100000) any = true;
	if(!any) { fprintf(outf, "VP-DEADLOCK\n"); fin(79); }
	int c = cand[0];
	if(cand.size() > 1) { auto* i = next('T'); if(i) { c = (int)(int64_t)i->v; bool f = false; for(int x : cand) f |= x == c; if(!f) { fprintf(outf, "VP-MISMATCH schedule at %zu: recorded %d, me %d cur %d forced %d cand", pos_, c, me, cur, forced); for(int x : cand) fprintf(outf, " %d", x); fprintf(outf, "\n"); fin(80); } } }
	if(c <= -100000) { if(reg) timeouts++; c = -100000 - c; th[c]->phase = 2; if(ce) preempt++; }
	else if(c < 0) { c = -c - 1; spurious++; th[c]->phase = 1; if(ce) preempt++; }
	else if(ce && c != cur) preempt++;
	th[c]->stat = RUN; th[c]->ok = true;
	if(c != cur || th[me]->stat == DONE) { cur = c; pthread_cond_signal(&th[c]->c); }
	if(th[me]->stat == DONE) return;
	while(cur != me) pthread_cond_wait(&th[me]->c, &L);
}
void sync_point() { if(th.size() > 1 && !th[me]->ok) sched(false); th[me]->ok = false; }
void* tmain(void* p) {
	me = (int)(intptr_t)p;
	pthread_mutex_lock(&L);
	while(cur != me) pthread_cond_wait(&th[me]->c, &L);
	th[me]->fn(th[me]->arg);
	th[me]->stat = DONE;
	sched(true);
	pthread_mutex_unlock(&L);
	return nullptr;
}
}
extern "C" {
void vp_sched_point() { sync_point(); }
int vp_mutex_lock(void* m) { sync_point(); while(owner.count((uint64_t)m)) { if(owner[(uint64_t)m] == me && ((int*)m)[4] == 1) { depth[(uint64_t)m]++; return 0; } if(owner[(uint64_t)m] == me) { fprintf(outf, "VP-DEADLOCK self\n"); fin(79); } th[me]->stat = MUTEX; th[me]->waddr = (uint64_t)m; sched(true); th[me]->ok = false; } owner[(uint64_t)m] = me; return 0; }
int vp_mutex_trylock(void* m) { sync_point(); if(owner.count((uint64_t)m) && owner[(uint64_t)m] == me && ((int*)m)[4] == 1) { depth[(uint64_t)m]++; return 0; } if(owner.count((uint64_t)m)) return 16; owner[(uint64_t)m] = me; return 0; }
int vp_mutex_unlock(void* m) { if(!owner.count((uint64_t)m) || owner[(uint64_t)m] != me) { fprintf(outf, "VP-BAD-UNLOCK\n"); fin(78); } if(depth[(uint64_t)m] > 0) depth[(uint64_t)m]--; else owner.erase((uint64_t)m); return 0; }
void vp_cv_wait(void* cv, void* m) {
	T& t = *th[me];
	if(!owner.count((uint64_t)m) || owner[(uint64_t)m] != me) { fprintf(outf, "VP-BAD-WAIT\n"); fin(78); }
	owner.erase((uint64_t)m);
	t.stat = CV; t.waddr = (uint64_t)cv; t.wmutex = (uint64_t)m; t.ok = false;
	sched(true);
	while(owner.count((uint64_t)m)) { t.stat = MUTEX; t.waddr = (uint64_t)m; sched(true); }
	owner[(uint64_t)m] = me; t.phase = 0; t.ok = false;
}
void vp_unsupported(const char* what) { fprintf(stderr, "unsupported: %s\n", what); _exit(77); }
int vp_timed_wait(void* cv, void* m) {
	T& t = *th[me];
	if(!m && th.size() == 1) return 1;
	if(m) { if(!owner.count((uint64_t)m) || owner[(uint64_t)m] != me) { fprintf(outf, "VP-BAD-WAIT\n"); fin(78); } owner.erase((uint64_t)m); }
	t.stat = CV; t.waddr = (uint64_t)cv; t.wmutex = (uint64_t)m; t.ok = false; t.timed = true;
	sched(true); t.timed = false;
	if(m) { while(owner.count((uint64_t)m)) { t.stat = MUTEX; t.waddr = (uint64_t)m; sched(true); } owner[(uint64_t)m] = me; }
	const int late = t.phase == 2; t.phase = 0; t.ok = false; return late;
}
void vp_cv_notify_all(void* cv) { sync_point(); for(T* t : th) if(t->stat == CV && t->waddr == (uint64_t)cv) { t->stat = MUTEX; t->waddr = t->wmutex; t->phase = 1; } }
void vp_cv_notify_one(void* cv) {
	sync_point();
	std::vector<int> w; for(size_t i = 0; i < th.size(); ++i) if(th[i]->stat == CV && th[i]->waddr == (uint64_t)cv) w.push_back(i);
	if(w.empty()) return;
	int k = w[0]; if(w.size() > 1) { auto* i = next('N'); if(i) k = (int)i->v; }
	th[k]->stat = MUTEX; th[k]->waddr = th[k]->wmutex; th[k]->phase = 1;
}
uint64_t vp_thread_create(void* (*fn)(void*), void* arg) {
	int id = th.size(); T* t = new T(); t->fn = fn; t->arg = arg; th.push_back(t);
	pthread_attr_t a; pthread_attr_init(&a); pthread_attr_setstacksize(&a, 16 << 20);
	if(pthread_create(&t->th, &a, tmain, (void*)(intptr_t)id)) { perror("pthread_create"); fin(90); }
	return id;
}
int vp_thread_join(uint64_t t) { sync_point(); while(th[t]->stat != DONE) { th[me]->stat = JOIN; th[me]->waddr = t; sched(true); th[me]->ok = false; } return 0; }
uint64_t vp_thread_self() { return me; }
}
static void on_term() { died("std::terminate"); }
static void on_abrt(int) { died("SIGABRT"); }
int main(int argc, char** argv) {
	outf = stdout;
	if(argc > 1) {
		FILE* f = fopen(argv[1], "r"); if(!f) { perror(argv[1]); return 90; }
		char k, n[4096]; unsigned w; unsigned long long v;
		while(fscanf(f, " %c %4095s %u %llu", &k, n, &w, &v) == 4) { if(k == 'K') { int* p = (int*)dlsym(RTLD_DEFAULT, n); if(!p) { fprintf(stderr, "no knob %s\n", n); return 90; } *p = (int)v; } else items.push_back({k, n, w, v}); }
		fclose(f);
	}
	if(getenv("VP_PREEMPT")) max_preempt = atoi(getenv("VP_PREEMPT"));
	if(getenv("VP_SPURIOUS")) max_spurious = atoi(getenv("VP_SPURIOUS"));
	std::set_terminate(on_term); signal(SIGABRT, on_abrt);
	th.push_back(new T());
	pthread_mutex_lock(&L);
	vp_main();
	fprintf(outf, "VP-OK\n");
	fin(0);
}
