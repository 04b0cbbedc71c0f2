// libstdc++ / libc pieces that only exist as binary code; used inside the engine only.
#include <string>
template class std::__cxx11::basic_string<char>;
#include <cstdint>
#include <cstddef>
#include <stdexcept>
#include <new>
#include <functional>
#include <system_error>
extern "C" {
void* malloc(size_t); void free(void*);
void abort();
size_t strlen(const char*); void* memcpy(void*, const void*, size_t);

struct Ex { void** vptr; char* msg; };
struct Str { char* p; size_t n; };
static char* dup(const char* s, size_t n) { char* r = (char*)malloc(n + 1); memcpy(r, s, n); r[n] = 0; return r; }
void _ZNSt9exceptionD2Ev(Ex*) {} void _ZNSt9exceptionD1Ev(Ex*) {} void _ZNSt9exceptionD0Ev(Ex* e) { free(e); }
const char* _ZNKSt9exception4whatEv(const Ex*) { return "std::exception"; }
static void ex_del0(Ex* e) { free(e->msg); free(e); }
static void ex_del(Ex* e) { free(e->msg); e->msg = nullptr; }
static const char* ex_what(const Ex* e) { return e->msg; }
void* _ZTVSt9exception[5] = {0, 0, (void*)_ZNSt9exceptionD1Ev, (void*)_ZNSt9exceptionD0Ev, (void*)_ZNKSt9exception4whatEv};
#define EXC(N) \
	void _ZNSt##N##D2Ev(Ex* e) { ex_del(e); } void _ZNSt##N##D1Ev(Ex* e) { ex_del(e); } void _ZNSt##N##D0Ev(Ex* e) { ex_del0(e); } \
	const char* _ZNKSt##N##4whatEv(const Ex* e) { return e->msg; } \
	void* _ZTVSt##N[5] = {0, 0, (void*)_ZNSt##N##D1Ev, (void*)_ZNSt##N##D0Ev, (void*)ex_what}; \
	void _ZNSt##N##C1EPKc(Ex* e, const char* s) { e->vptr = _ZTVSt##N + 2; e->msg = dup(s, strlen(s)); } \
	void _ZNSt##N##C2EPKc(Ex* e, const char* s) { _ZNSt##N##C1EPKc(e, s); } \
	void _ZNSt##N##C1ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(Ex* e, const Str* s) { e->vptr = _ZTVSt##N + 2; e->msg = dup(s->p, s->n); } \
	void _ZNSt##N##C2ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(Ex* e, const Str* s) { e->vptr = _ZTVSt##N + 2; e->msg = dup(s->p, s->n); } \
	void _ZNSt##N##C1ERKS_(Ex* e, const Ex* o) { e->vptr = _ZTVSt##N + 2; e->msg = dup(o->msg, strlen(o->msg)); } \
	void _ZNSt##N##C2ERKS_(Ex* e, const Ex* o) { e->vptr = _ZTVSt##N + 2; e->msg = dup(o->msg, strlen(o->msg)); }
EXC(13runtime_error) EXC(11logic_error) EXC(12out_of_range) EXC(16invalid_argument) EXC(12length_error) EXC(12domain_error) EXC(11range_error) EXC(14overflow_error) EXC(15underflow_error) EXC(12system_error)

struct Ln { Ln* next; Ln* prev; };
void _ZNSt8__detail15_List_node_base4swapERS0_S1_(Ln& x, Ln& y) {
	if(x.next != &x) {
		if(y.next != &y) { Ln* t = x.next; x.next = y.next; y.next = t; t = x.prev; x.prev = y.prev; y.prev = t; x.next->prev = x.prev->next = &x; y.next->prev = y.prev->next = &y; }
		else { y.next = x.next; y.prev = x.prev; y.next->prev = y.prev->next = &y; x.next = x.prev = &x; }
	} else if(y.next != &y) { x.next = y.next; x.prev = y.prev; x.next->prev = x.prev->next = &x; y.next = y.prev = &y; }
}
void _ZNSt8__detail15_List_node_base10_M_reverseEv(Ln* h) { Ln* t = h; do { Ln* n = t->next; t->next = t->prev; t->prev = n; t = t->prev; } while(t != h); }
// red-black tree interface, kept as a plain search tree (same order, same interface)
struct Rb { int color; Rb* parent; Rb* left; Rb* right; };
Rb* _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(Rb* x) {
	if(x->right) { x = x->right; while(x->left) x = x->left; return x; }
	Rb* y = x->parent; while(x == y->right) { x = y; y = y->parent; }
	if(x->right != y) x = y; return x;
}
Rb* _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(Rb* x) {
	if(x->color == 0 && x->parent && x->parent->parent == x) return x->right;
	if(x->left) { x = x->left; while(x->right) x = x->right; return x; }
	Rb* y = x->parent; while(x == y->left) { x = y; y = y->parent; } return y;
}
Rb* _ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base(Rb* x) { return _ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base(x); }
Rb* _ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base(Rb* x) { return _ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base(x); }
void _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_(bool left, Rb* x, Rb* p, Rb* h) {
	x->parent = p; x->left = x->right = nullptr; x->color = 1;
	if(left) { p->left = x; if(p == h) { h->parent = x; h->right = x; } else if(p == h->left) h->left = x; }
	else { p->right = x; if(p == h->right) h->right = x; }
	h->color = 0;
}
Rb* _ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_(Rb* z, Rb* h) {
	// fix extremes first
	if(h->left == z) { if(!z->right) h->left = z->parent; else { Rb* m = z->right; while(m->left) m = m->left; h->left = m; } }
	if(h->right == z) { if(!z->left) h->right = z->parent; else { Rb* m = z->left; while(m->right) m = m->right; h->right = m; } }
	auto repl = [h](Rb* a, Rb* b) { if(h->parent == a) h->parent = b; else if(a->parent->left == a) a->parent->left = b; else a->parent->right = b; if(b) b->parent = a->parent; };
	if(!z->left) repl(z, z->right);
	else if(!z->right) repl(z, z->left);
	else {
		Rb* y = z->right; while(y->left) y = y->left;
		if(y->parent != z) { repl(y, y->right); y->right = z->right; y->right->parent = y; }
		repl(z, y); y->left = z->left; y->left->parent = y;
	}
	return z;
}
void _ZNSt8__detail15_List_node_base7_M_hookEPS0_(Ln* s, Ln* p) { s->next = p; s->prev = p->prev; p->prev->next = s; p->prev = s; }
void _ZNSt8__detail15_List_node_base9_M_unhookEv(Ln* s) { s->prev->next = s->next; s->next->prev = s->prev; }
void _ZNSt8__detail15_List_node_base11_M_transferEPS0_S1_(Ln* s, Ln* f, Ln* l) {
	if(s != l) { l->prev->next = s; f->prev->next = l; s->prev->next = f; Ln* t = s->prev; s->prev = l->prev; l->prev = f->prev; f->prev = t; }
}
struct Prp { float mlf; size_t next; };
size_t _ZNKSt8__detail20_Prime_rehash_policy11_M_next_bktEm(Prp* p, size_t n) { size_t r = n < 13 ? 13 : n * 2 + 1; p->next = r; return r; }
struct NR { bool b; size_t n; };
NR _ZNKSt8__detail20_Prime_rehash_policy14_M_need_rehashEmmm(Prp* p, size_t nb, size_t ne, size_t ni) {
	if(ne + ni > nb || nb < 13) { size_t r = (ne + ni) * 2 + 13; p->next = r; return {true, r}; }
	return {false, 0};
}
size_t _ZSt11_Hash_bytesPKvmm(const void* p, size_t n, size_t seed) { const unsigned char* c = (const unsigned char*)p; size_t h = seed; for(size_t i = 0; i < n; ++i) h = h * 1099511628211ull + c[i]; return h; }

int strcmp(const char* a, const char* b) { while(*a && *a == *b) { ++a; ++b; } return (unsigned char)*a - (unsigned char)*b; }
int strncmp(const char* a, const char* b, size_t n) { for(size_t i = 0; i < n; ++i) { if(a[i] != b[i]) return (unsigned char)a[i] - (unsigned char)b[i]; if(!a[i]) break; } return 0; }
char* strcpy(char* d, const char* s) { size_t i = 0; while((d[i] = s[i])) ++i; return d; }
char* strncpy(char* d, const char* s, size_t n) { size_t i = 0; for(; i < n && s[i]; ++i) d[i] = s[i]; for(; i < n; ++i) d[i] = 0; return d; }
char* strchr(const char* s, int c) { for(;; ++s) { if(*s == (char)c) return (char*)s; if(!*s) return nullptr; } }
char* strrchr(const char* s, int c) { char* r = nullptr; for(;; ++s) { if(*s == (char)c) r = (char*)s; if(!*s) return r; } }
char* strstr(const char* s, const char* t) { for(;; ++s) { const char* a = s; const char* b = t; while(*b && *a == *b) { ++a; ++b; } if(!*b) return (char*)s; if(!*s) return nullptr; } }
void* memchr(const void* s, int c, size_t n) { const unsigned char* p = (const unsigned char*)s; for(size_t i = 0; i < n; ++i) if(p[i] == (unsigned char)c) return (void*)(p + i); return nullptr; }
int tolower(int c) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
int toupper(int c) { return c >= 'a' && c <= 'z' ? c - 32 : c; }
int isxdigit(int c) { return (c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
int isdigit(int c) { return c >= '0' && c <= '9'; }
static int dig(int c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'z' ? c - 'a' + 10 : c >= 'A' && c <= 'Z' ? c - 'A' + 10 : 99; }
unsigned long strtoul(const char* s, char** e, int base) { const char* p = s; while(*p == ' ') ++p; bool neg = false; if(*p == '-') { neg = true; ++p; } else if(*p == '+') ++p; if((base == 16 || base == 0) && p[0] == '0' && (p[1] == 'x' || p[1] == 'X') && dig(p[2]) < 16) { p += 2; base = 16; } else if(base == 0) base = *p == '0' ? 8 : 10; unsigned long v = 0; const char* q = p; while(dig(*p) < base) { v = v * base + dig(*p); ++p; } if(e) *e = (char*)(p == q ? s : p); return neg ? -v : v; }
long strtol(const char* s, char** e, int b) { return (long)strtoul(s, e, b); }
unsigned long long strtoull(const char* s, char** e, int b) { return strtoul(s, e, b); }
long long strtoll(const char* s, char** e, int b) { return (long)strtoul(s, e, b); }
void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
int __cxa_guard_acquire(char* g) { return !*g; } void __cxa_guard_release(char* g) { *g = 1; } void __cxa_guard_abort(char*) {}
int posix_memalign(void** p, size_t, size_t n) { *p = malloc(n); return 0; }
void _ZNSt6thread6_StateD2Ev(void*) {} void _ZNSt6thread6_StateD1Ev(void*) {}
int __gxx_personality_v0();
// std::filesystem / ios error paths are not modelled
}
namespace std {
void __throw_length_error(const char* s) { throw length_error(s); }
void __throw_logic_error(const char* s) { throw logic_error(s); }
void __throw_out_of_range(const char* s) { throw out_of_range(s); }
void __throw_invalid_argument(const char* s) { throw invalid_argument(s); }
void __throw_runtime_error(const char* s) { throw runtime_error(s); }
void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); }
void __throw_bad_alloc() { throw bad_alloc(); }
void __throw_bad_array_new_length() { throw bad_array_new_length(); }
void __throw_bad_function_call() { throw runtime_error("bad_function_call"); }
void __throw_bad_cast() { throw runtime_error("bad_cast"); }
void __throw_system_error(int) { throw runtime_error("system_error"); }
}
extern "C" {
void* _ZTVSt9bad_alloc[5] = {0, 0, (void*)_ZNSt9exceptionD1Ev, (void*)_ZNSt9exceptionD0Ev, (void*)_ZNKSt9exception4whatEv};
void _ZNSt9bad_allocD1Ev(Ex*) {}
void* _ZTVSt20bad_array_new_length[5] = {0, 0, (void*)_ZNSt9exceptionD1Ev, (void*)_ZNSt9exceptionD0Ev, (void*)_ZNKSt9exception4whatEv};
void _ZNSt20bad_array_new_lengthD1Ev(Ex*) {}
}
