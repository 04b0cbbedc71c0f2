// Harness API. The same harness runs inside the symbolic engine and natively (replay).
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
extern "C" {
uint64_t vp_sym(const char* name, unsigned bits);			// any value of that many bits
uint64_t vp_choice(uint64_t n, const char* name);			// any of 0..n-1, forked
void vp_assume(bool c);
void vp_assert(bool c, const char* msg);
void vp_cover(const char* what);							// reachability witness
void vp_observe(uint64_t v, const char* name);				// compared between engine and native run
uint64_t vp_concretize(uint64_t v);							// fork over all feasible values
[[noreturn]] void vp_end();
void vp_allow_abort(int yes);								// abnormal termination is an acceptable outcome
void vp_abort_hook(void (*fn)());							// inspects what a terminated process left behind
[[noreturn]] void vp_crash();								// power loss / kill here
int vp_is_engine();
void vp_uninit(void* p, size_t n);							// contents become arbitrary
void vp_print(const char* name, uint64_t v);
int vp_is_sym(uint64_t v);
void vp_sched_point();
int vp_mutex_lock(void*); int vp_mutex_trylock(void*); int vp_mutex_unlock(void*);
void vp_unsupported(const char* what);
void vp_cv_wait(void* cv, void* m); int vp_timed_wait(void* cv, void* m); void vp_cv_notify_all(void*); void vp_cv_notify_one(void*);
uint64_t vp_thread_create(void* (*fn)(void*), void* arg); int vp_thread_join(uint64_t); uint64_t vp_thread_self();

// file model
enum { VPF_OPEN = 1, VPF_WRITE = 2, VPF_READ = 4, VPF_FLUSH = 8, VPF_CLOSE = 16, VPF_SEEK = 32, VPF_RENAME = 64, VPF_REMOVE = 128, VPF_ALL = 255 };
extern int vpfs_fault_budget, vpfs_fault_mask, vpfs_faults_hit, vpfs_crash_budget, vpfs_open_count, vpfs_fault_ops;
int vpfs_exists(const char* name);
int64_t vpfs_size(const char* name);
int vpfs_byte(const char* name, uint64_t off);				// -1 beyond the end
void vpfs_create(const char* name, const void* data, size_t n);
int vpfs_nfiles();
const char* vpfs_name(int i);
const char* vpfs_ever(int i);									// every file there ever was, nullptr at the end
FILE* vpfs_fopen(const char* name, const char* mode); int vpfs_fclose(FILE* f); size_t vpfs_fread(void* p, size_t sz, size_t n, FILE* f); size_t vpfs_fwrite(const void* p, size_t sz, size_t n, FILE* f); int vpfs_fseek(FILE* f, long off, int wh);
}
#define vp_range(name, bits, lo, hi) vp_range_(name, bits, lo, hi)
static inline uint64_t vp_range_(const char* n, unsigned bits, uint64_t lo, uint64_t hi) { uint64_t v = vp_sym(n, bits); vp_assume(v >= lo && v <= hi); return v; }
