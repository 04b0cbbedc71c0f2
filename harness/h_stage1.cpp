// C15: phase 3 stage 1 joins each right entry with the two left entries it refers to.
#include <vp.h>
#include <chia/chia.h>
#include <chia/DiskSort.hpp>
#include <chia/phase3.hpp>
#include <map>
using namespace phase3;
size_t g_read_chunk_size = 64, g_write_chunk_size = 64;
extern "C" { int knob_nl = 4; int knob_nr = 3; int knob_threads = 1; int knob_kind = 0; int knob_fixed = 0; int knob_lsplit = -1; int knob_rsplit = -1; int knob_sym = 0; }
static const uint64_t NP[8] = {7, 31, 2, 2, 19, 0x80000001, 5, 11}; // new positions (x values) of the left entries
static uint64_t g_pos[8], g_off[8], g_key[8]; static int g_ls, g_rs; static bool g_used[12]; static int g_nall;
static int left_pos(int i) { for(int j = 0; j < g_nall; ++j) if(g_used[j] && i-- == 0) return j; return -1; }
template<typename T> struct Blocks {
	std::vector<T> v; int split; size_t every = 0;
	template<typename P> void read(P* out, int threads, int = 1) {
		if(threads < 1) throw std::logic_error("num_threads < 1"); // as the real one
		std::pair<std::vector<T>, size_t> b; b.second = 0;
		for(size_t i = 0; i < v.size(); ++i) { b.first.push_back(v[i]); if(i + 1 == v.size() || (every ? (i + 1) % every == 0 : ((split >> i) & 1) != 0)) { out->take(b); b.first = std::vector<T>(); b.second = i + 1; } }
	}
};
static uint64_t lp(uint64_t a, uint64_t b) { if(a < b) std::swap(a, b); return (uint64_t)(((uint128_t)a * (a - 1)) / 2) + b; }
struct C : Processor<std::pair<std::vector<entry_lp>, size_t>> { int n = 0; entry_lp e[16]; void take(std::pair<std::vector<entry_lp>, size_t>& in) override { for(auto& x : in.first) { if(n < 16) e[n] = x; n++; } } };
static void big() // many entries, distances over the whole 10-bit range
{
	const uint64_t nl = knob_nl, nr = knob_nr; uint32_t g = 7; auto rnd = [&g]() { g = g * 1664525 + 1013904223; return g >> 8; };
	Blocks<entry_np> L; L.split = 0; Blocks<phase2::entry_x> R; R.split = 0; std::vector<uint64_t> np(nl); std::map<uint64_t, uint64_t> want;
	for(uint64_t i = 0; i < nl; ++i) { np[i] = (i * 2654435761u) & 0xffffffff; entry_np e; e.key = i; e.pos = np[i]; L.v.push_back(e); }
	for(uint64_t i = 0; i < nr; ++i) { uint64_t p = i * (nl - 1030) / nr, o = 1 + rnd() % 1023; if(i == nr / 2) { const uint64_t v = vp_sym("off", 10); vp_assume(v == 127 || v == 128 || v == 255 || v == 256 || v == 511 || v == 512 || v == 1023); o = vp_concretize(v); }
		phase2::entry_x e; e.pos = p; e.off = o; e.key = (i * 7919 + 13) % 100003 + 0x80000000u; R.v.push_back(e); want[e.key] = lp(np[p], np[p + o]); }
	L.every = 100; R.every = 64; DiskSortLP out(63, 3, "t/out", false); g_read_chunk_size = g_write_chunk_size = 2048;
	compute_stage1<entry_np, phase2::entry_x, Blocks<entry_np>, Blocks<phase2::entry_x>>(3, knob_threads, &L, &R, &out);
	struct V : Processor<std::pair<std::vector<entry_lp>, size_t>> { std::vector<entry_lp> e; void take(std::pair<std::vector<entry_lp>, size_t>& in) override { for(auto& x : in.first) e.push_back(x); } } c; out.read(&c, 1, 1);
	vp_assert(c.e.size() == nr, "one line point per right entry"); bool ok = true;
	for(auto& e : c.e) { auto it = want.find(e.key); if(it == want.end() || e.point != it->second) ok = false; else want.erase(it); }
	vp_assert(ok, "each right entry gives the line point of its two left entries, with its own key"); vp_observe(c.e.size(), "n"); vp_cover("joined");
}
extern "C" void vp_main()
{
	if(knob_kind == 9) { big(); return; }
	const int nl = knob_nl, nr = knob_nr; uint64_t p = 0;
	static const uint8_t FIX[3][6][2] = {{{0, 3}, {0, 1}, {2, 1}, {3, 0}}, {{1, 2}, {1, 2}, {2, 0}, {2, 1}}, {{0, 3}, {3, 0}, {3, 0}, {3, 0}}};
	for(int i = 0; i < nr; ++i) {
		if(knob_fixed) { g_pos[i] = FIX[knob_fixed - 1][i][0]; g_off[i] = FIX[knob_fixed - 1][i][1]; }
		else { const uint64_t a = vp_sym("pos", 3), b = vp_sym("off", 3); vp_assume(a >= p && a < (uint64_t)nl && b < (uint64_t)nl - a); p = g_pos[i] = vp_concretize(a); g_off[i] = vp_concretize(b); }
		g_key[i] = knob_sym ? vp_sym("key", 32) : 900 + i;
	}
	g_ls = knob_lsplit >= 0 ? knob_lsplit : (int)vp_choice(1 << (nl - 1), "lsplit"); g_rs = knob_rsplit >= 0 ? knob_rsplit : (int)vp_choice(1 << (nr - 1), "rsplit");
	DiskSortLP out(63, 1, "t/out", false);
	if(knob_kind == 1) { // table 1: all x values plus a bitmap of the used ones
		g_nall = nl + 2; const int h1 = knob_fixed ? 1 : (int)vp_choice(g_nall, "hole"), h2 = knob_fixed ? 4 : (int)vp_choice(g_nall, "hole2"); if(h1 >= h2) vp_end();
		for(int j = 0; j < g_nall; ++j) g_used[j] = j != h1 && j != h2;
		bitfield used(g_nall + 5); for(int j = 0; j < g_nall; ++j) if(g_used[j]) used.set(j);
		table_t t; t.file_name = "t/t1"; t.num_entries = g_nall;
		{ DiskTable<phase2::entry_1> w("t/t1"); int q = 0; for(int j = 0; j < g_nall; ++j) { phase2::entry_1 e; e.x = g_used[j] ? NP[q++] : 4711; w.write(e); } w.close(); }
		g_read_chunk_size = phase2::entry_1::disk_size * 2;
		DiskTable<phase2::entry_1> L(t); Blocks<phase2::entry_x> R; R.split = g_rs;
		for(int i = 0; i < nr; ++i) { phase2::entry_x e; e.pos = g_pos[i]; e.off = g_off[i]; e.key = g_key[i]; R.v.push_back(e); }
		compute_stage1<phase2::entry_1, phase2::entry_x, DiskSortNP, Blocks<phase2::entry_x>>(1, knob_threads, nullptr, &R, &out, &L, &used);
	} else {
		Blocks<entry_np> L; L.split = g_ls; for(int i = 0; i < nl; ++i) { entry_np e; e.key = i; e.pos = NP[i]; L.v.push_back(e); }
		if(knob_kind == 0) {
			Blocks<phase2::entry_x> R; R.split = g_rs;
			for(int i = 0; i < nr; ++i) { phase2::entry_x e; e.pos = g_pos[i]; e.off = g_off[i]; e.key = g_key[i]; R.v.push_back(e); }
			compute_stage1<entry_np, phase2::entry_x, Blocks<entry_np>, Blocks<phase2::entry_x>>(3, knob_threads, &L, &R, &out);
		} else { // table 7
			table_t t; t.file_name = "t/t7"; t.num_entries = nr;
			{ DiskTable<phase2::entry_7> w("t/t7"); for(int i = 0; i < nr; ++i) { phase2::entry_7 e; e.y = g_key[i]; e.pos = g_pos[i]; e.off = g_off[i]; w.write(e); } w.close(); }
			g_read_chunk_size = phase2::entry_7::disk_size * 2;
			DiskTable<phase2::entry_7> R(t);
			compute_stage1<entry_np, phase2::entry_7, Blocks<entry_np>, phase2::DiskSort7>(6, knob_threads, &L, nullptr, &out, nullptr, nullptr, &R);
		}
	}
	g_read_chunk_size = 64;
	C c; out.read(&c, 1, 1);
	vp_assert(c.n == nr, "one line point per right entry");
	bool ok = true;
	for(int i = 0; i < nr; ++i) { int m = 0, w = 0; for(int j = 0; j < c.n && j < 16; ++j) m += ((c.e[j].point == lp(NP[g_pos[i]], NP[g_pos[i] + g_off[i]])) & (c.e[j].key == (uintkx_t)g_key[i])) ? 1 : 0; for(int j = 0; j < nr; ++j) w += ((lp(NP[g_pos[i]], NP[g_pos[i] + g_off[i]]) == lp(NP[g_pos[j]], NP[g_pos[j] + g_off[j]])) & (g_key[i] == g_key[j])) ? 1 : 0; ok &= m == w; }
	vp_assert(ok, "each right entry gives the line point of its two left entries, with its own key");
	vp_observe(c.n, "n"); vp_cover("joined");
}
