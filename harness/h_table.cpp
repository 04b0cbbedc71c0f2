// C09 / C20: DiskTable: what was written is read back, in order, in blocks with their offsets; faults are never silent.
#include <vp.h>
#include <chia/chia.h>
#include <chia/phase1.h>
#include <chia/phase2.h>
#include <chia/DiskTable.h>
extern "C" { int knob_n = 3; int knob_type = 0; int knob_chunk = 2; int knob_rchunk = 2; int knob_threads = 1; int knob_mode = 0; int knob_fault = 0; int knob_mask = 255; int knob_fixed = 0; }
size_t g_read_chunk_size = 2, g_write_chunk_size = 2;
struct rec { uint64_t v = 0; static constexpr size_t disk_size = 7; size_t write(uint8_t* b) const { memcpy(b, &v, 7); return 7; } size_t read(const uint8_t* b) { v = 0; memcpy(&v, b, 7); return 7; } };
template<typename T> struct A;
static uint64_t S(const char* n, int bits, int i) { return knob_fixed ? (uint64_t)(i * 77 + bits) & ((bits < 64 ? 1ull << bits : 0) - 1) : vp_sym(n, bits); }
template<> struct A<rec> { static rec mk(int i) { rec r; r.v = S("v", 56, i); return r; } static bool eq(const rec& a, const rec& b) { return a.v == b.v; } };
template<> struct A<phase1::tmp_entry_1> { typedef phase1::tmp_entry_1 E; static E mk(int i) { E r; r.x = S("x", 32, i); return r; } static bool eq(const E& a, const E& b) { return a.x == b.x; } };
template<> struct A<phase1::tmp_entry_x> { typedef phase1::tmp_entry_x E; static E mk(int i) { E r; r.pos = S("pos", 32, i); r.off = S("off", 10, i); return r; } static bool eq(const E& a, const E& b) { return a.pos == b.pos && a.off == b.off; } };
template<> struct A<phase1::entry_7> { typedef phase1::entry_7 E; static E mk(int i) { E r; r.y = S("y", 32, i); r.pos = S("pos", 32, i); r.off = S("off", 10, i); return r; } static bool eq(const E& a, const E& b) { return a.y == b.y && a.pos == b.pos && a.off == b.off; } };
template<typename T> struct Collect : Processor<std::pair<std::vector<T>, size_t>> {
	size_t n = 0; T e[16]; bool off_ok = true, full = true; int busy = 0;
	void take(std::pair<std::vector<T>, size_t>& in) override {
		vp_assert(busy++ == 0, "blocks are delivered one at a time");
		vp_sched_point();
		off_ok &= in.second == n;
		for(auto& x : in.first) { if(n < 16) e[n] = x; n++; }
		busy--;
	}
};
static void aborted() { vp_assert(vpfs_faults_hit > 0, "no failure without an I/O error"); vp_cover("reported"); }
template<typename T> static void go()
{
	g_read_chunk_size = knob_rchunk; g_write_chunk_size = knob_chunk;
	T in[16]; for(int i = 0; i < knob_n; ++i) in[i] = A<T>::mk(i);
	vpfs_create("t/tab.tmp", "stale contents of an earlier run, longer than the table", 50); vpfs_create("t/other", "yy", 2);
	if(knob_fault) { vpfs_fault_budget = knob_fault; vpfs_fault_mask = knob_mask; vp_allow_abort(1); vp_abort_hook(aborted); }
	bool failed = false; Collect<T> c, c2;
	try {
		table_t info;
		if(knob_mode == 0) {
			DiskTable<T> w("t/tab.tmp");
			for(int i = 0; i < knob_n; ++i) w.write(in[i]);
			w.close();
			info = w.get_info();
			vp_assert(info.num_entries == (size_t)knob_n && info.file_name == "t/tab.tmp", "the table knows its name and number of entries");
			w.read(&c, knob_threads);
		} else {
			{
				DiskTable<T> w("t/tab.tmp");
				for(int i = 0; i < knob_n; ++i) { w.write(in[i]); if(knob_mode == 2 && i == 0) w.flush(); }
				w.close();
				info = w.get_info();
			}
			vp_assert(info.num_entries == (size_t)knob_n && info.file_name == "t/tab.tmp", "the table knows its name and number of entries");
			vp_assert(knob_fault || vpfs_size("t/tab.tmp") == (int64_t)(knob_n * T::disk_size), "the file holds exactly the entries");
			if(knob_n) {
				DiskTable<T> r(info);
				Thread<std::pair<std::vector<T>, size_t>> th([&c](std::pair<std::vector<T>, size_t>& x) { c.take(x); });
				r.read(&th, knob_threads, knob_rchunk);
				th.close();
				if(knob_mode == 2) { r.read(&c2, knob_threads, knob_rchunk + 1); vp_assert(c2.n == c.n && c2.off_ok, "a second pass sees the same table"); }
			}
		}
	} catch(const std::exception& ex) { failed = true; vp_assert(knob_fault && vpfs_faults_hit > 0, "no failure without an I/O error"); vp_cover("reported"); }
	if(!failed) {
		vp_assert(c.n == (size_t)knob_n, "as many entries come back as were written");
		vp_assert(c.off_ok, "each block carries its position in the table");
		bool ok = true; for(int i = 0; i < knob_n && i < (int)c.n; ++i) { ok &= A<T>::eq(c.e[i], in[i]); if(knob_mode == 2 && i < (int)c2.n) ok &= A<T>::eq(c2.e[i], in[i]); }
		vp_assert(ok, "entries come back unchanged, in the order they were written");
		vp_assert(vpfs_exists("t/other") && vpfs_nfiles() == 2, "no other file is touched");
		vp_assert(knob_fault || vpfs_open_count == 0, "no file is left open");
		vp_cover("read");
	}
}
// A table of more than 4 GiB: few, very large entries, most of them a hole in the file.
struct huge { uint64_t v = 0; static constexpr size_t disk_size = (24 << 20) + 11; size_t write(uint8_t* b) const { memcpy(b, &v, 8); return disk_size; } size_t read(const uint8_t* b) { memcpy(&v, b, 8); return disk_size; } };
static void far()
{
	g_read_chunk_size = g_write_chunk_size = 1;
	const size_t n = knob_n; uint64_t want[3]; size_t at[3] = {1, n / 2, n - 1};
	vpfs_create("t/tab.tmp", "", 0);
	{ FILE* f = vpfs_fopen("t/tab.tmp", "rb+"); for(int i = 0; i < 3; ++i) { want[i] = vp_sym("v", 64); vpfs_fseek(f, at[i] * huge::disk_size, SEEK_SET); vpfs_fwrite(&want[i], 8, 1, f); } const char z = 0; vpfs_fseek(f, n * huge::disk_size - 1, SEEK_SET); vpfs_fwrite(&z, 1, 1, f); vpfs_fclose(f); }
	table_t info; info.file_name = "t/tab.tmp"; info.num_entries = n;
	struct C : Processor<std::pair<std::vector<huge>, size_t>> { std::vector<uint64_t> v; bool off = true; void take(std::pair<std::vector<huge>, size_t>& in) override { off &= in.second == v.size(); for(auto& x : in.first) v.push_back(x.v); } } c;
	DiskTable<huge> r(info); r.read(&c, knob_threads, 1);
	vp_assert(c.v.size() == n && c.off, "as many entries come back as were written");
	bool ok = true; for(size_t i = 0; i < n; ++i) { uint64_t w = 0; for(int j = 0; j < 3; ++j) if(at[j] == i) w = want[j]; ok &= c.v[i] == w; }
	vp_assert(ok, "entries come back unchanged, in the order they were written, also beyond 4 GiB"); vp_cover("read");
}
extern "C" void vp_main()
{
	if(knob_type == 9) { far(); return; }
	switch(knob_type) { case 0: go<rec>(); break; case 1: go<phase1::tmp_entry_1>(); break; case 2: go<phase1::tmp_entry_x>(); break; case 3: go<phase1::entry_7>(); break; }
}
