#include <sys/stat.h>
// Environment model, executed both symbolically and natively: an in-memory file system with
// stdio buffering semantics, fault injection and crash points; std::thread glue; clocks.
#include "vp.h"
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <ctime>
#include <cstdio>
#include <cstdarg>

extern "C" {
int vpfs_fault_budget = 0, vpfs_fault_mask = VPF_ALL, vpfs_faults_hit = 0, vpfs_crash_budget = 0, vpfs_open_count = 0, vpfs_fault_ops = 0;
}
// the only accesses of the file model that count as shared accesses of the calling thread
extern "C" __attribute__((noinline)) void vpfs_touch(void* f) { *(volatile uint64_t*)f = *(volatile uint64_t*)f; }
extern "C" __attribute__((noinline)) void vpfs_touch_r(void* f) { (void)*(volatile uint64_t*)f; }
namespace {
const size_t CH = 512;
struct Chunk { uint64_t idx; uint8_t* data; };
struct Node {
	uint64_t touch;
	uint64_t hash;
	char* name;
	uint64_t size;
	Chunk* ch; int nch, cap;
	int linked, opens;
};
struct VF {
	uint64_t touch;
	Node* n;
	uint64_t pos;
	int rd, wr, err, eof, append;
	uint8_t* pend; uint64_t pend_off, pend_n, pend_cap;
};
Node** g_nodes = nullptr; int g_nn = 0, g_ncap = 0;
uint64_t name_hash(const char* s) { uint64_t h = 1469598103934665603ull; while(*s) h = (h ^ (uint8_t)*s++) * 1099511628211ull; return h; }

Node* lookup(const char* name) { const uint64_t h = name_hash(name); for(int i = 0; i < g_nn; ++i) if(g_nodes[i]->hash == h && g_nodes[i]->linked && !strcmp(g_nodes[i]->name, name)) return g_nodes[i]; return nullptr; }
Node* create(const char* name) {
	if(g_nn == g_ncap) {
		const int c = g_ncap ? g_ncap * 2 : 64; Node** x = (Node**)malloc(sizeof(Node*) * c);
		for(int i = 0; i < g_nn; ++i) x[i] = g_nodes[i];
		free(g_nodes); g_nodes = x; g_ncap = c;
	}
	Node* n = (Node*)calloc(1, sizeof(Node));
	n->name = (char*)malloc(strlen(name) + 1); strcpy(n->name, name);
	n->hash = name_hash(name);
	n->linked = 1;
	g_nodes[g_nn++] = n;
	return n;
}
uint8_t* chunk(Node* n, uint64_t idx, bool mk) {
	for(int i = 0; i < n->nch; ++i) if(n->ch[i].idx == idx) return n->ch[i].data;
	if(!mk) return nullptr;
	if(n->nch == n->cap) {
		int c = n->cap ? n->cap * 2 : 8; Chunk* x = (Chunk*)malloc(sizeof(Chunk) * c);
		for(int i = 0; i < n->nch; ++i) x[i] = n->ch[i];
		free(n->ch); n->ch = x; n->cap = c;
	}
	uint8_t* d = (uint8_t*)calloc(1, CH);
	n->ch[n->nch].idx = idx; n->ch[n->nch].data = d; n->nch++;
	return d;
}
void node_write(Node* n, uint64_t off, const uint8_t* p, uint64_t len) {
	for(uint64_t i = 0; i < len;) {
		uint64_t c = (off + i) / CH, k = (off + i) % CH, m = len - i < CH - k ? len - i : CH - k;
		memcpy(chunk(n, c, true) + k, p + i, m);
		i += m;
	}
	if(len && off + len > n->size) n->size = off + len;
}
void node_read(Node* n, uint64_t off, uint8_t* p, uint64_t len) {
	for(uint64_t i = 0; i < len;) {
		uint64_t c = (off + i) / CH, k = (off + i) % CH, m = len - i < CH - k ? len - i : CH - k;
		uint8_t* d = chunk(n, c, false);
		if(!d && len - i > m && n->nch <= 16) { // a hole: up to the next chunk that exists
			uint64_t e = (off + len + CH - 1) / CH; for(int j = 0; j < n->nch; ++j) if(n->ch[j].idx > c && n->ch[j].idx < e) e = n->ch[j].idx;
			const uint64_t g = e * CH - (off + i); m = g < len - i ? g : len - i;
		}
		if(d) memcpy(p + i, d + k, m); else memset(p + i, 0, m);
		i += m;
	}
}
void node_trunc(Node* n) { for(int i = 0; i < n->nch; ++i) free(n->ch[i].data); n->nch = 0; n->size = 0; }
void commit(VF* f, uint64_t len) { if(f->pend_n) { node_write(f->n, f->append ? f->n->size : f->pend_off, f->pend, len); f->pend_n = 0; } }

// The position of the next failing call is one symbolic number: the n-th call that may fail does if n equals it.
uint64_t g_fault_n = 0, g_fault_at = 0, g_crash_n = 0, g_crash_at = 0; int g_fault_set = 0, g_crash_set = 0;
bool fault(int op, const char* nm) {
	if(vpfs_fault_budget > 0 && (vpfs_fault_mask & op)) {
		if(!g_fault_set) { g_fault_set = 1; g_fault_at = vp_sym(nm, 20); vp_assume(g_fault_at >= g_fault_n); }
		if(g_fault_n++ == g_fault_at) { vpfs_fault_budget--; vpfs_faults_hit++; vpfs_fault_ops |= op; g_fault_set = 0; return true; }
	}
	return false;
}
void crash_point() {
	if(vpfs_crash_budget > 0) {
		if(!g_crash_set) { g_crash_set = 1; g_crash_at = vp_sym("crash_at", 20); }
		if(g_crash_n++ == g_crash_at) { vpfs_crash_budget = 0; vp_crash(); }
	}
}
bool half() { return vp_sym("short", 1) != 0; }
int g_errno;
}
#define FS extern "C" __attribute__((noinline))

static VF g_con[3];
extern "C" { FILE* vpr_stdin = (FILE*)&g_con[0]; FILE* vpr_stdout = (FILE*)&g_con[1]; FILE* vpr_stderr = (FILE*)&g_con[2]; }
static bool console(const void* f) { return f == &g_con[0] || f == &g_con[1] || f == &g_con[2]; }
FS int vpfs_flush_(VF* f, int op, const char* nm) {
	if(f->pend_n) {
		vpfs_touch(f->n);
		if(fault(op, nm)) { // nothing or a prefix of the buffered data reaches the file
			uint64_t part = half() ? f->pend_n / 2 : 0;
			commit(f, part); f->pend_n = 0; f->err = 1; g_errno = ENOSPC; return -1;
		}
		commit(f, f->pend_n);
	}
	return 0;
}
FS FILE* vpfs_fopen(const char* name, const char* mode) {
	crash_point();
	bool plus = strchr(mode, '+') != nullptr; char m = mode[0];
	Node* n = lookup(name);
	if(m == 'r' && !n) { g_errno = ENOENT; return nullptr; }
	if(fault(VPF_OPEN, "fault_fopen")) { g_errno = EIO; return nullptr; }
	if(!n) n = create(name);
	else if(m == 'w') node_trunc(n);
	if(m == 'r' && !plus) vpfs_touch_r(n); else vpfs_touch(n);
	VF* f = (VF*)calloc(1, sizeof(VF));
	f->n = n; f->rd = m == 'r' || plus; f->wr = m != 'r' || plus; f->append = m == 'a';
	if(f->append) f->pos = n->size;
	n->opens++; vpfs_open_count++;
	return (FILE*)f;
}
FS int vpfs_fclose(FILE* fp) {
	VF* f = (VF*)fp; vpfs_touch(f);
	crash_point();
	int r = vpfs_flush_(f, VPF_CLOSE, "fault_fclose");
	if(!r && fault(VPF_CLOSE, "fault_fclose")) { r = -1; g_errno = EIO; }
	f->n->opens--; vpfs_open_count--;
	free(f->pend); free(f);		// the stream is gone whether or not fclose succeeded
	return r;
}
FS int vpfs_fflush(FILE* fp) {
	if(!fp || console(fp)) return 0;
	VF* f = (VF*)fp; vpfs_touch(f);
	crash_point();
	return vpfs_flush_(f, VPF_FLUSH, "fault_fflush");
}
FS size_t vpfs_fwrite(const void* p, size_t sz, size_t n, FILE* fp) {
	if(console(fp)) return n;
	VF* f = (VF*)fp; vpfs_touch(f);
	uint64_t len = sz * n;
	if(!f->wr) { f->err = 1; g_errno = EBADF; return 0; }
	if(!len) return 0;
	crash_point();
	size_t done = n; vpfs_touch(f->n);
	if(fault(VPF_WRITE, "fault_fwrite")) { done = half() ? n / 2 : 0; len = done * sz; f->err = 1; g_errno = ENOSPC; }
	if(f->pend_n && f->pend_off + f->pend_n != f->pos) commit(f, f->pend_n);
	if(!f->pend_n) f->pend_off = f->pos;
	if(f->pend_n + len > f->pend_cap) {
		uint64_t c = (f->pend_n + len) * 2; uint8_t* x = (uint8_t*)malloc(c);
		if(f->pend_n) memcpy(x, f->pend, f->pend_n);
		free(f->pend); f->pend = x; f->pend_cap = c;
	}
	if(len) memcpy(f->pend + f->pend_n, p, len);
	f->pend_n += len; f->pos += len;
	return done;
}
FS size_t vpfs_fread(void* p, size_t sz, size_t n, FILE* fp) {
	VF* f = (VF*)fp; vpfs_touch(f);
	if(!f->rd) { f->err = 1; g_errno = EBADF; return 0; }
	vpfs_touch_r(f->n);
	if(f->pend_n) commit(f, f->pend_n);
	if(sz == 0 || n == 0) return 0;
	uint64_t avail = f->pos < f->n->size ? f->n->size - f->pos : 0;
	uint64_t cnt = n;
	if(avail < sz * n) { cnt = avail / sz; }
	uint64_t got = avail < sz * n ? avail : sz * n;
	if(fault(VPF_READ, "fault_fread")) { cnt = half() ? cnt / 2 : 0; got = cnt * sz; f->err = 1; g_errno = EIO; }
	else if(avail < sz * n) f->eof = 1;
	node_read(f->n, f->pos, (uint8_t*)p, got);
	f->pos += got;
	return cnt;
}
FS int vpfs_fseek(FILE* fp, long off, int wh) {
	VF* f = (VF*)fp; vpfs_touch(f);
	if(vpfs_flush_(f, VPF_SEEK, "fault_fseek")) return -1;
	if(fault(VPF_SEEK, "fault_fseek")) { g_errno = EIO; return -1; }
	int64_t base = wh == SEEK_SET ? 0 : wh == SEEK_CUR ? (int64_t)f->pos : (int64_t)f->n->size;
	if(base + off < 0) { g_errno = EINVAL; return -1; }
	f->pos = base + off; f->eof = 0;
	return 0;
}
FS long vpfs_ftell(FILE* fp) { return ((VF*)fp)->pos; }
FS void vpfs_rewind(FILE* fp) { vpfs_fseek(fp, 0, SEEK_SET); ((VF*)fp)->err = 0; }
FS int vpfs_ferror(FILE* fp) { return ((VF*)fp)->err; }
FS int vpfs_feof(FILE* fp) { return ((VF*)fp)->eof; }
FS void vpfs_clearerr(FILE* fp) { ((VF*)fp)->err = ((VF*)fp)->eof = 0; }
FS int vpfs_setvbuf(FILE*, char*, int, size_t) { return 0; }
static FILE* g_fds[32];
FS int vpfs_fileno(FILE* fp) { for(int i = 0; i < 32; ++i) { if(g_fds[i] == fp) return 3 + i; if(!g_fds[i]) { g_fds[i] = fp; return 3 + i; } } return 99; }
FS int vpfs_fsync(int) { return 0; }
FS int vpfs_fgetc(FILE* fp) { unsigned char c; return vpfs_fread(&c, 1, 1, fp) == 1 ? c : -1; }
FS int vpfs_stat(const char* name, struct stat* st) { Node* n = lookup(name); if(!n) { g_errno = ENOENT; return -1; } memset(st, 0, sizeof *st); st->st_mode = S_IFREG | 0644; st->st_nlink = 1; st->st_size = (off_t)n->size; st->st_blksize = 4096; st->st_blocks = (blkcnt_t)((n->size + 511) / 512); return 0; }
FS int vpfs_access(const char* name, int) { return lookup(name) ? 0 : -1; }
FS FILE* vpfs_freopen(const char* name, const char* mode, FILE* fp) { vpfs_fclose(fp); return vpfs_fopen(name, mode); }
FS char* vpfs_fgets(char* b, int n, FILE* fp) { int i = 0; while(i + 1 < n) { const int c = vpfs_fgetc(fp); if(c < 0) break; b[i++] = (char)c; if(c == '\n') break; } if(!i) return nullptr; b[i] = 0; return b; }
FS int vpfs_ftruncate_(FILE* fp, uint64_t len) { VF* f = (VF*)fp; vpfs_flush_(f, VPF_FLUSH, "fault_fflush"); Node* n = f->n; if(len < n->size) { const uint64_t old = n->size; for(uint64_t i = len; i < old; ++i) { const uint8_t z = 0; node_write(n, i, &z, 1); } } n->size = len; return 0; }
FS int vpfs_ftruncate(int fd, uint64_t len) { if(fd < 3 || fd >= 35 || !g_fds[fd - 3]) { g_errno = EBADF; return -1; } return vpfs_ftruncate_(g_fds[fd - 3], len); }
extern "C" int vpr_vfprintf(FILE* fp, const char* fmt, va_list ap) { if(console(fp)) return 1; char b[1024]; const int n = vsnprintf(b, sizeof b, fmt, ap); if(n < 0 || n >= (int)sizeof b) vp_unsupported("long text in fprintf"); return (int)vpfs_fwrite(b, 1, n, fp) == n ? n : -1; }
extern "C" int vpr_fprintf(FILE* fp, const char* fmt, ...) { va_list ap; va_start(ap, fmt); const int r = vpr_vfprintf(fp, fmt, ap); va_end(ap); return r; }
extern "C" int vpr_printf(const char* fmt, ...) { return 1; }
extern "C" int vpr_puti(int c) { return c; }
extern "C" int vpr_fputs(const char* s, FILE* fp) { if(console(fp)) return 1; const size_t n = strlen(s); return vpfs_fwrite(s, 1, n, fp) == n ? 1 : -1; }
extern "C" int vpr_fputc(int c, FILE* fp) { if(console(fp)) return c; const uint8_t b = (uint8_t)c; return vpfs_fwrite(&b, 1, 1, fp) == 1 ? b : -1; }
FS int vpfs_rename(const char* a, const char* b) {
	crash_point();
	Node* n = lookup(a);
	if(!n) { g_errno = ENOENT; return -1; }
	if(fault(VPF_RENAME, "fault_rename")) { g_errno = EIO; return -1; }
	vpfs_touch(n);
	Node* o = lookup(b);
	if(o == n) return 0;
	if(o) { vpfs_touch(o); o->linked = 0; }
	char* x = (char*)malloc(strlen(b) + 1); strcpy(x, b); n->name = x; n->hash = name_hash(b);
	return 0;
}
FS int vpfs_remove(const char* a) {
	crash_point();
	Node* n = lookup(a);
	if(!n) { g_errno = ENOENT; return -1; }
	if(fault(VPF_REMOVE, "fault_remove")) { g_errno = EIO; return -1; }
	vpfs_touch(n);
	n->linked = 0;
	return 0;
}
FS int vpfs_exists(const char* name) { return lookup(name) != nullptr; }
FS int64_t vpfs_size(const char* name) { Node* n = lookup(name); return n ? (int64_t)n->size : -1; }
FS int vpfs_byte(const char* name, uint64_t off) {
	Node* n = lookup(name);
	if(!n || off >= n->size) return -1;
	uint8_t c; node_read(n, off, &c, 1); return c;
}
FS void vpfs_create(const char* name, const void* data, size_t len) {
	Node* n = lookup(name);
	if(!n) n = create(name); else node_trunc(n);
	node_write(n, 0, (const uint8_t*)data, len);
}
FS int vpfs_nfiles() { int c = 0; for(int i = 0; i < g_nn; ++i) c += g_nodes[i]->linked; return c; }
FS const char* vpfs_name(int k) { for(int i = 0; i < g_nn; ++i) if(g_nodes[i]->linked && k-- == 0) return g_nodes[i]->name; return nullptr; }

FS const char* vpfs_ever(int i) { return i < g_nn ? g_nodes[i]->name : nullptr; }

// ---- std::thread ------------------------------------------------------------
struct StateBase { virtual ~StateBase() {} virtual void run() = 0; };
static void* tramp(void* p) { StateBase* s = (StateBase*)p; s->run(); delete s; return nullptr; }
extern "C" void vpr_thread_start(uint64_t* self, StateBase** up, void*) { StateBase* p = *up; *up = nullptr; *self = vp_thread_create(tramp, p) + 1; }
extern "C" void vpr_thread_join(uint64_t* self) { if(!*self) abort(); uint64_t t = *self - 1; vp_thread_join(t); *self = 0; }
extern "C" void vpr_thread_detach(uint64_t* self) { if(!*self) abort(); *self = 0; }
extern "C" unsigned vpr_hwc() { return 4; }
extern "C" void vpr_cv_ctor(void*) {}
extern "C" void vpr_cv_dtor(void*) {}
extern "C" void vpr_cv_wait(void* cv, void** ul) { vp_cv_wait(cv, *ul); }
extern "C" int vpr_zero1(void*) { return 0; }
extern "C" int vpr_zero2(void*, void*) { return 0; }
static long g_now = 1600000000L;
extern "C" int vpr_yield() { vp_timed_wait(nullptr, nullptr); return 0; }
extern "C" int vpr_nanosleep(const long* t, long*) { vp_timed_wait(nullptr, nullptr); g_now += t[0] * 1000000000L + t[1]; return 0; }
extern "C" int vpr_clock_nanosleep(int, int abs, const long* t, long*) { vp_timed_wait(nullptr, nullptr); const long v = t[0] * 1000000000L + t[1]; if(!abs) g_now += v; else if(v > g_now) g_now = v; return 0; }
extern "C" int vpr_usleep(unsigned us) { vp_timed_wait(nullptr, nullptr); g_now += us * 1000L; return 0; }
extern "C" unsigned vpr_sleep(unsigned s) { vp_timed_wait(nullptr, nullptr); g_now += s * 1000000000L; return 0; }
extern "C" int vpr_cond_timedwait(void* cv, void* m, const long* t) { if(!vp_timed_wait(cv, m)) return 0; const long v = t[0] * 1000000000L + t[1]; if(v > g_now) g_now = v; return ETIMEDOUT; }
extern "C" int vpr_cond_clockwait(void* cv, void* m, int, const long* t) { return vpr_cond_timedwait(cv, m, t); }
extern "C" int vpr_cond_wait(void* cv, void* m) { vp_cv_wait(cv, m); return 0; }
extern "C" int vpr_once(int* c, void (*f)()) { while(*c == 1) vpr_yield(); if(*c == 0) { *c = 1; f(); *c = 2; } return 0; }
namespace std { extern __thread void* __once_callable; extern __thread void (*__once_call)(); __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { std::__once_call(); }
extern "C" int vpr_rw_lock(void* l) { return vp_mutex_lock(l); }
extern "C" int vpr_rw_trylock(void* l) { return vp_mutex_trylock(l); }
extern "C" int vpr_rw_unlock(void* l) { return vp_mutex_unlock(l); }
extern "C" long vpr_now() { return g_now; }
extern "C" long vpr_time(long* p) { if(p) *p = g_now; return g_now; }
extern "C" int vpr_gettimeofday(long* tv, void*) { tv[0] = g_now; tv[1] = 0; return 0; }
static struct tm g_tm;
extern "C" struct tm* vpr_localtime(const long*) { g_tm.tm_year = 121; g_tm.tm_mon = 5; g_tm.tm_mday = 13; g_tm.tm_hour = 20; g_tm.tm_min = 27; g_tm.tm_sec = 44; return &g_tm; }
extern "C" struct tm* vpr_localtime_r(const long* t, struct tm* o) { *o = *vpr_localtime(t); return o; }
extern "C" size_t vpr_strftime(char* s, size_t max, const char* f, const struct tm* t) {
	size_t n = 0;
	for(; *f; ++f) {
		int v = -1, w = 2;
		if(*f == '%') { ++f; switch(*f) { case 'Y': v = t->tm_year + 1900; w = 4; break; case 'm': v = t->tm_mon + 1; break; case 'd': v = t->tm_mday; break; case 'H': v = t->tm_hour; break; case 'M': v = t->tm_min; break; case 'S': v = t->tm_sec; break; case 'y': v = t->tm_year % 100; break; default: break; } }
		if(v < 0) { if(n + 1 >= max) return 0; s[n++] = *f; continue; }
		if(n + w >= max) return 0;
		for(int i = w - 1; i >= 0; --i) { s[n + i] = '0' + v % 10; v /= 10; }
		n += w;
	}
	s[n] = 0; return n;
}
extern "C" long vpr_strtol(const char* s, char** end, int base) {
	const char* p = s; bool neg = false; while(*p == ' ' || (*p >= 9 && *p <= 13)) ++p;
	if(*p == '-' || *p == '+') neg = *p++ == '-';
	if((base == 0 || base == 16) && *p) { const bool x = (p[0] == '0') & ((p[1] | 32) == 'x'); if(x) { p += 2; base = 16; } }
	if(base == 0) base = *p == '0' ? 8 : 10;
	unsigned long v = 0; bool any = false, over = false;
	while(true) {
		const unsigned c = (unsigned char)*p, l = c | 32; // the value of a digit without branches
		const unsigned d = (c - '0') & 255, h = (l - 'a' + 10) & 255; const bool isd = d < 10, isl = h >= 10 && h < 36; const unsigned m = 0u - (unsigned)isd; const unsigned val = (d & m) | (h & ~m);
		if(!((isd | isl) & (val < (unsigned)base))) break;
		if(v > (0x7fffffffffffffffUL - 35) / base) over = true;
		v = v * base + val; any = true; ++p;
	}
	if(end) *end = (char*)(any ? p : s);
	if(over) return neg ? (long)0x8000000000000000UL : 0x7fffffffffffffffL;
	return neg ? -(long)v : (long)v;
}
extern "C" int* vpr_errno() { return &g_errno; }
extern "C" char* vpr_strerror(int) { return (char*)"error"; }
extern "C" int vpr_getrlimit(int, uint64_t* r) { r[0] = r[1] = 1 << 20; return 0; }
extern "C" int vpr_getpid() { return 4242; }
extern "C" { void (*vpr_sig_handler[65])(int); }
extern "C" void* vpr_signal(int s, void (*h)(int)) { void* o = (void*)vpr_sig_handler[s & 63]; vpr_sig_handler[s & 63] = h; return o; }
