// C08 / C20: DiskSort: every entry comes back exactly once, in key order, with running offsets; faults are never silent.
#include <vp.h>
#include <chia/chia.h>
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/phase3.h>
#include <chia/DiskSort.hpp>
extern "C" { int knob_n = 3; int knob_logb = 1; int knob_keybits = 4; int knob_threads = 1; int knob_rthreads = 1; int knob_mode = 0; int knob_fixed = 0; int knob_chunk = 2; int knob_keep = 0; int knob_fault = 0; int knob_type = 0; int knob_mask = 255; }
size_t g_read_chunk_size = 2, g_write_chunk_size = 2;
struct rec { uint64_t key = 0; uint8_t tag = 0; static constexpr size_t disk_size = 9; size_t write(uint8_t* b) const { memcpy(b, &key, 8); b[8] = tag; return 9; } size_t read(const uint8_t* b) { memcpy(&key, b, 8); tag = b[8]; return 9; } };
struct rec_key { uint64_t operator()(const rec& r) const { return r.key; } };
static uint64_t g_key[64];
template<typename T> struct A; // per type access: make entry with key and tag
template<> struct A<rec> { typedef rec_key K; static rec mk(uint64_t k, int t) { rec r; r.key = k; r.tag = t; return r; } static uint64_t key(const rec& r) { return r.key; } static int tag(const rec& r) { return r.tag; } };
template<> struct A<phase1::entry_4> { typedef phase1::get_y<phase1::entry_4> K; typedef phase1::entry_4 E; static E mk(uint64_t k, int t) { E e; e.y = k; e.pos = 1000 + t; e.off = 3; for(size_t i = 0; i < e.meta.size(); ++i) e.meta[i] = t; return e; } static uint64_t key(const E& e) { return e.y; } static int tag(const E& e) { bool ok = e.off == 3; for(size_t i = 0; i < e.meta.size(); ++i) ok &= e.meta[i] == (uint8_t)(e.pos - 1000); return ok ? (int)(e.pos - 1000) : -1; } };
template<> struct A<phase2::entry_x> { typedef phase2::get_pos<phase2::entry_x> K; typedef phase2::entry_x E; static E mk(uint64_t k, int t) { E e; memset(&e, 0, sizeof e); e.pos = k; e.key = 500 + t; e.off = 7; return e; } static uint64_t key(const E& e) { return e.pos; } static int tag(const E& e) { return e.off == 7 ? (int)e.key - 500 : -1; } };
template<> struct A<phase3::entry_lp> { typedef phase3::get_line_point<phase3::entry_lp> K; typedef phase3::entry_lp E; static E mk(uint64_t k, int t) { E e; e.point = k; e.key = 70000 + t; return e; } static uint64_t key(const E& e) { return e.point; } static int tag(const E& e) { return (int)(e.key - 70000); } };
template<> struct A<phase3::entry_np> { typedef phase3::get_sort_key<phase3::entry_np> K; typedef phase3::entry_np E; static E mk(uint64_t k, int t) { E e; e.key = k; e.pos = 90000 + t; return e; } static uint64_t key(const E& e) { return e.key; } static int tag(const E& e) { return (int)(e.pos - 90000); } };
template<typename T> struct Collect : Processor<std::pair<std::vector<T>, size_t>> {
	size_t n = 0; uint64_t key[64]; int tag[64]; bool off_ok = true; int busy = 0;
	void take(std::pair<std::vector<T>, size_t>& in) override {
		vp_assert(busy++ == 0, "blocks are delivered one at a time");
		vp_sched_point();
		off_ok &= in.second == n;
		for(auto& e : in.first) { if(n < 64) { key[n] = A<T>::key(e); tag[n] = A<T>::tag(e); } n++; }
		busy--;
	}
};
template<typename T> static void check(Collect<T>& c)
{
	vp_assert(c.n == (size_t)knob_n, "as many entries come back as were added");
	vp_assert(c.off_ok, "each block carries the number of entries before it");
	bool once = true, intact = true, sorted = true; int seen[64] = {};
	for(size_t i = 0; i < c.n; ++i) { int t = c.tag[i]; if(t < 0 || t >= knob_n) { once = false; continue; } seen[t]++; intact &= c.key[i] == g_key[t]; if(i) sorted &= c.key[i - 1] <= c.key[i]; }
	for(int i = 0; i < knob_n; ++i) once &= seen[i] == 1;
	vp_assert(once, "every added entry comes back exactly once");
	vp_assert(intact, "entries come back unchanged");
	vp_assert(sorted, "entries come back in ascending key order");
}
static int n_tmp() { int c = 0; for(int i = 0; i < vpfs_nfiles(); ++i) { const char* n = vpfs_name(i); if(n[0] == 't' && n[1] == '/') c++; } return c; }
static void aborted() { vp_assert(vpfs_faults_hit > 0, "no failure without an I/O error"); vp_cover("reported"); }
template<typename T> static void go()
{
	g_read_chunk_size = knob_chunk; g_write_chunk_size = knob_chunk;
	static const uint64_t pat[4][8] = {{3, 9, 3, 14, 0, 7, 12, 5}, {15, 11, 8, 4, 2, 0, 1, 6}, {0, 0, 0, 0, 0, 0, 0, 0}, {1, 2, 1, 2, 1, 2, 9, 9}};
	for(int i = 0; i < knob_n; ++i) {
		if(knob_fixed == 8) g_key[i] = i == knob_n / 3 ? ((uint64_t)vp_choice(4, "one block") << (knob_keybits - 2) | vp_sym("one key", knob_keybits - 2)) : (uint64_t)(i * 5 % knob_n / 2) * 3;
		else if(knob_fixed) g_key[i] = (uint64_t)(knob_fixed == 5 ? 9 : knob_fixed == 6 ? (i * 7 + i * i / 5) % 16 : knob_fixed == 7 ? 15 - i % 16 : pat[knob_fixed - 1][i % 8]) << (knob_keybits - 4);
		else { const int lo = std::max(knob_keybits - 2 * knob_logb, 0); g_key[i] = (uint64_t)vp_choice((uint64_t)1 << (knob_keybits - lo), "block") << lo; if(lo > 0) g_key[i] |= vp_sym("key", lo); }
	}
	vpfs_create("t/other.tmp", "x", 1); vpfs_create("other", "yy", 2);
	const int files0 = n_tmp();
	if(knob_fault) { vpfs_fault_budget = knob_fault; vpfs_fault_mask = knob_mask; vp_allow_abort(1); vp_abort_hook(aborted); }
	bool failed = false; Collect<T> c, c2;
	{
		DiskSort<T, typename A<T>::K> ds(knob_keybits, knob_logb, "t/x");
		vp_assert(ds.num_buckets() == (size_t)1 << knob_logb, "bucket count");
		if(knob_keep) ds.set_keep_files(true);
		try {
			if(knob_mode == 0) for(int i = 0; i < knob_n; ++i) ds.add(A<T>::mk(g_key[i], i));
			if(knob_mode == 1) { auto a = ds.add_cache(), b = ds.add_cache(); for(int i = 0; i < knob_n; ++i) (i % 2 ? a : b)->add(A<T>::mk(g_key[i], i)); a->flush(); b->flush(); }
			if(knob_mode == 2) { // two writers, each with its own cache
				std::thread th([&]() { auto a = ds.add_cache(); for(int i = 0; i < knob_n; i += 2) a->add(A<T>::mk(g_key[i], i)); });
				{ auto b = ds.add_cache(); for(int i = 1; i < knob_n; i += 2) b->add(A<T>::mk(g_key[i], i)); }
				th.join();
			}
			if(knob_mode == 3) { auto a = ds.add_cache(); for(int i = 0; i < knob_n; ++i) { if(i % 2) a->add(A<T>::mk(g_key[i], i)); else ds.add(A<T>::mk(g_key[i], i)); } }
			ds.finish();
			Thread<std::pair<std::vector<T>, size_t>> th([&c](std::pair<std::vector<T>, size_t>& in) { c.take(in); });
			Processor<std::pair<std::vector<T>, size_t>>* dst = &c;
			if(knob_mode == 1) dst = &th;
			ds.read(dst, knob_threads, knob_rthreads ? knob_rthreads : -1);
			th.close();
			if(knob_keep) { ds.read(&c2, knob_threads, knob_rthreads ? knob_rthreads : -1); }
		} catch(const std::exception& ex) { failed = true; vp_assert(knob_fault && vpfs_faults_hit > 0, "no failure without an I/O error"); vp_cover("reported"); }
		if(!failed) { check<T>(c); if(knob_keep) check<T>(c2); }
		if(!knob_keep && !failed && !knob_fault) vp_assert(n_tmp() == files0, "bucket files are deleted once they are read");
	}
	if(!failed && !knob_fault) { vp_assert(n_tmp() == files0 + (knob_keep ? (1 << knob_logb) : 0), "bucket files are deleted at the end unless they are to be kept"); vp_assert(vpfs_exists("t/other.tmp") && vpfs_exists("other"), "no other file is touched"); }
	if(knob_keep == 2 && !failed) { // what was kept can be read again by another one
		Collect<T> c3; { DiskSort<T, typename A<T>::K> again(knob_keybits, knob_logb, "t/x", true); again.read(&c3, knob_threads, knob_rthreads ? knob_rthreads : -1); }
		check<T>(c3); vp_assert(n_tmp() == files0 + (1 << knob_logb), "reading what was kept does not remove it"); vp_cover("again");
	}
	vp_assert(failed || vpfs_open_count == 0 || knob_fault, "no file is left open");
	if(!failed) vp_cover("sorted");
	for(size_t i = 0; i < c.n && i < 16; ++i) vp_observe(c.tag[i], "tag");
}
extern "C" void vp_main()
{
	switch(knob_type) {
	case 0: go<rec>(); break;
	case 1: go<phase1::entry_4>(); break;
	case 2: go<phase2::entry_x>(); break;
	case 3: go<phase3::entry_lp>(); break;
	case 4: go<phase3::entry_np>(); break;
	}
}
