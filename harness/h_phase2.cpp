// C14: phase 2 keeps exactly the entries that are still referenced and rewrites references to their new positions.
#include <vp.h>
#include <chia/chia.h>
#include <chia/DiskSort.hpp>
#include <chia/phase2.hpp>
extern "C" { int knob_case = 0; int knob_n = 3; int knob_l = 8; int knob_threads = 1; int knob_fixed = 0; int knob_used = 1; int knob_t7 = 0; int knob_sym = 0; int knob_big = 0; }
size_t g_read_chunk_size = 2, g_write_chunk_size = 2;
namespace phase2 { int g_thread_multi = 1; }
typedef phase1::tmp_entry_x TX; typedef phase2::entry_x EX; typedef phase1::entry_7 E7;
static uint64_t g_pos[16], g_off[16], g_y[16]; static bool g_used[16];
static int g_nout; static EX g_out[16]; static bool g_finished;
struct Sink {
	struct WriteCache { Sink* s; std::vector<EX> v; void add(const EX& e) { v.push_back(e); } void flush() { std::lock_guard<std::mutex> l(s->m); for(auto& e : v) { if(g_nout < 16) g_out[g_nout] = e; g_nout++; } v.clear(); } ~WriteCache() { flush(); } };
	std::mutex m;
	std::shared_ptr<WriteCache> add_cache() { auto c = std::make_shared<WriteCache>(); c->s = this; return c; }
	void finish() { g_finished = true; }
};
static const uint64_t PAT[3][8][2] = {{{1, 2}, {0, 7}, {4, 0}, {4, 3}, {2, 5}, {6, 1}, {0, 1}, {3, 3}}, {{5, 1}, {5, 1}, {0, 6}, {7, 0}, {2, 2}, {1, 1}, {3, 0}, {0, 0}}, {{0, 0}, {7, 0}, {3, 4}, {6, 1}, {1, 5}, {2, 0}, {4, 1}, {5, 2}}};
static bool lused(uint64_t p) { bool u = false; for(int i = 0; i < knob_n; ++i) u |= g_used[i] & ((g_pos[i] == p) | (g_pos[i] + g_off[i] == p)); return u; }
static uint64_t rank(uint64_t p) { uint64_t c = 0; for(int q = 0; q < knob_l; ++q) c += (lused(q) & ((uint64_t)q < p)) ? 1 : 0; return c; }
static void one_table()
{
	for(int i = 0; i < knob_n; ++i) {
		if(knob_fixed) { g_pos[i] = PAT[knob_fixed - 1][i][0] % knob_l; g_off[i] = PAT[knob_fixed - 1][i][1]; if(g_pos[i] + g_off[i] >= (uint64_t)knob_l) g_off[i] = 0; }
		else { g_pos[i] = vp_sym("pos", 4); g_off[i] = vp_sym("off", 4); vp_assume(g_pos[i] < (uint64_t)knob_l); vp_assume(g_pos[i] + g_off[i] < (uint64_t)knob_l); }
		g_y[i] = 1000 + 7 * i; g_used[i] = !knob_used || vp_choice(2, "used");
	}
	bitfield R(knob_n + 3), L(knob_l); for(int i = 0; i < knob_n; ++i) if(g_used[i]) R.set(i);
	L.set(knob_l - 1); // stale contents
	table_t info; info.file_name = "t/in.tmp"; info.num_entries = knob_n;
	int nkept = 0; for(int i = 0; i < knob_n; ++i) nkept += g_used[i];
	if(knob_t7) {
		{ DiskTable<E7> w("t/in.tmp"); for(int i = 0; i < knob_n; ++i) { E7 e; e.y = g_y[i]; e.pos = g_pos[i]; e.off = g_off[i]; w.write(e); } w.close(); }
		DiskTable<E7> out("t/out.tmp");
		phase2::compute_table<E7, E7, phase2::DiskSort7>(7, knob_threads, nullptr, &out, info, &L, knob_used ? &R : nullptr);
		out.close();
		struct C : Processor<std::pair<std::vector<E7>, size_t>> { void take(std::pair<std::vector<E7>, size_t>& in) override { for(auto& e : in.first) { if(g_nout < 16) { g_out[g_nout].key = g_nout; g_out[g_nout].pos = e.pos; g_out[g_nout].off = e.off; g_y[g_nout] = e.y == g_y[g_nout] ? e.y : 0; } g_nout++; } } } c;
		vp_assert(out.get_info().num_entries == (size_t)nkept, "table 7 counts its entries");
		if(nkept) out.read(&c, 1);
		bool oy = true; for(int i = 0; i < g_nout && i < knob_n; ++i) oy &= g_y[i] == (uint64_t)(1000 + 7 * i); if(!knob_used) vp_assert(oy, "table 7 keeps its y values in order");
	} else {
		{ DiskTable<TX> w("t/in.tmp"); for(int i = 0; i < knob_n; ++i) { TX e; e.pos = g_pos[i]; e.off = g_off[i]; w.write(e); } w.close(); }
		Sink s;
		phase2::compute_table<TX, EX, Sink>(3, knob_threads, &s, nullptr, info, &L, knob_used ? &R : nullptr);
		vp_assert(g_finished, "the output is handed over completely");
	}
	vp_assert(g_nout == nkept, "exactly the entries that are still used are kept");
	bool okb = true; for(int q = 0; q < knob_l; ++q) okb &= L.get(q) == lused(q);
	vp_assert(okb, "an entry of the lower table is marked if and only if a kept entry refers to it");
	int j = 0; bool okp = true, okk = true, oko = true;
	for(int i = 0; i < knob_n; ++i) if(g_used[i]) {
		int f = -1; for(int m = 0; m < g_nout; ++m) if((int)g_out[m].key == j) { okk &= f < 0; f = m; }
		if(f < 0) { okk = false; break; }
		okp &= g_out[f].pos == rank(g_pos[i]); oko &= g_out[f].off == rank(g_pos[i] + g_off[i]) - rank(g_pos[i]); j++;
	}
	vp_assert(okk, "each kept entry carries its running number, each number once");
	vp_assert(okp, "the reference becomes the new position of the left entry");
	vp_assert(oko, "the distance becomes the new distance to the right entry");
	vp_observe(g_nout, "n"); vp_cover("table");
}
struct CX : Processor<std::pair<std::vector<EX>, size_t>> { int n = 0; std::vector<EX> e; bool off = true; void take(std::pair<std::vector<EX>, size_t>& in) override { off &= in.second == (size_t)n; for(auto& x : in.first) { e.push_back(x); n++; } } };
static void whole()
{
	int N[8] = {0, 5, 4, 4, 3, 4, 3, 3}; // entries per table
	if(knob_big) { for(int t = 1; t <= 7; ++t) N[t] = 50 + 2 * t; N[knob_big] = 150; } // one table is larger than all others
	const int X = 150; static uint64_t P[8][X], O[8][X]; phase1::output_t in; in.params.k = 32;
	for(int t = 1; t <= 7; ++t) {
		table_t& ti = in.table[t - 1]; ti.file_name = "t/p1.table" + std::to_string(t) + ".tmp"; ti.num_entries = N[t];
		if(t == 1) { DiskTable<phase1::tmp_entry_1> w(ti.file_name); for(int i = 0; i < N[t]; ++i) { phase1::tmp_entry_1 e; e.x = i; w.write(e); } w.close(); continue; }
		for(int i = 0; i < N[t]; ++i) {
			P[t][i] = (knob_big ? (uint64_t)i * N[t - 1] / N[t] : PAT[t % 3][i][0]) % N[t - 1]; O[t][i] = knob_big ? (i % 5 ? 0 : i % 11) : PAT[t % 3][i][1]; if(P[t][i] + O[t][i] >= (uint64_t)N[t - 1]) O[t][i] = 0;
			if(knob_sym == t) { P[t][i] = vp_sym("pos", 3); O[t][i] = vp_sym("off", 3); vp_assume(P[t][i] < (uint64_t)N[t - 1]); vp_assume(P[t][i] + O[t][i] < (uint64_t)N[t - 1]); }
		}
		if(t == 7) { DiskTable<E7> w(ti.file_name); for(int i = 0; i < N[t]; ++i) { E7 e; e.y = 100 + i; e.pos = P[t][i]; e.off = O[t][i]; w.write(e); } w.close(); }
		else { DiskTable<TX> w(ti.file_name); for(int i = 0; i < N[t]; ++i) { TX e; e.pos = P[t][i]; e.off = O[t][i]; w.write(e); } w.close(); }
	}
	vpfs_create("t/unrelated", "z", 1);
	if(knob_big) g_read_chunk_size = g_write_chunk_size = 40;
	phase2::output_t out;
	phase2::compute(in, out, knob_threads, 1, "plot", "t/", "u/");
	static bool used[8][X]; for(int i = 0; i < N[7]; ++i) used[7][i] = true;
	for(int t = 7; t >= 2; --t) for(int i = 0; i < N[t]; ++i) for(int q = 0; q < N[t - 1]; ++q) used[t - 1][q] |= used[t][i] & ((P[t][i] == (uint64_t)q) | (P[t][i] + O[t][i] == (uint64_t)q));
	std::vector<uint64_t> pre[8]; if(knob_big) for(int t = 1; t <= 7; ++t) { pre[t].push_back(0); for(int q = 0; q < N[t]; ++q) pre[t].push_back(pre[t].back() + used[t][q]); }
	auto rk = [&](int t, uint64_t p) { if(knob_big) return pre[t][p]; uint64_t c = 0; for(int q = 0; q < N[t]; ++q) c += (used[t][q] & ((uint64_t)q < p)) ? 1 : 0; return c; };
	bool ok = true; for(int q = 0; q < N[1]; ++q) ok &= out.bitfield_1->get(q) == used[1][q];
	vp_assert(ok, "the final bitfield marks exactly the table 1 entries that are reachable from table 7");
	vp_assert(out.table_1.file_name == in.table[0].file_name && out.table_1.num_entries == (size_t)N[1] && vpfs_exists(in.table[0].file_name.c_str()), "table 1 is passed on");
	for(int t = 2; t <= 7; ++t) vp_assert(!vpfs_exists(in.table[t - 1].file_name.c_str()), "the phase 1 tables that are no longer needed are deleted");
	vp_assert(vpfs_exists("t/unrelated"), "nothing else is deleted");
	{ DiskTable<E7> r(out.table_7); struct C : Processor<std::pair<std::vector<E7>, size_t>> { int n = 0; std::vector<E7> e; void take(std::pair<std::vector<E7>, size_t>& in) override { for(auto& x : in.first) { e.push_back(x); n++; } } } c; r.read(&c, 1);
		bool o = c.n == N[7]; for(int i = 0; i < N[7] && i < c.n; ++i) o &= (c.e[i].y == (uintkx_t)(100 + i)) & (c.e[i].pos == rk(6, P[7][i])) & (c.e[i].off == rk(6, P[7][i] + O[7][i]) - rk(6, P[7][i]));
		vp_assert(o, "table 7 keeps every entry, with references to the rewritten table 6"); }
	for(int t = 6; t >= 2; --t) {
		CX c; vp_assert(out.sort[t - 1] != nullptr, "every table is handed over"); out.sort[t - 1]->read(&c, 1, 1);
		int kept = 0; for(int i = 0; i < N[t]; ++i) kept += used[t][i] ? 1 : 0;
		vp_assert(c.n == kept, "exactly the reachable entries are kept");
		bool o = true, srt = true;
		for(int j = 0; j < c.n; ++j) { bool hit = false; for(int i = 0; i < N[t]; ++i) hit |= used[t][i] & (c.e[j].key == rk(t, i)) & (c.e[j].pos == rk(t - 1, P[t][i])) & (c.e[j].off == rk(t - 1, P[t][i] + O[t][i]) - rk(t - 1, P[t][i])); o &= hit; for(int m = 0; m < j; ++m) o &= c.e[m].key != c.e[j].key; if(j) srt &= c.e[j - 1].pos <= c.e[j].pos; }
		vp_assert(o, "kept entries are numbered in order and refer to the rewritten lower table");
		vp_assert(srt, "the tables are handed over in order of position");
	}
	vp_cover("whole");
}
// many entries, distances over the whole 10-bit range; one entry's distance is arbitrary among the borders
static void big()
{
	const uint64_t n = knob_n, l = knob_l; uint32_t g = 99; auto rnd = [&g]() { g = g * 1664525 + 1013904223; return g >> 8; };
	std::vector<uint64_t> P(n), O(n); std::vector<bool> u(n), lu(l); std::vector<uint64_t> rk(l + 1);
	g_read_chunk_size = 64 * TX::disk_size; g_write_chunk_size = 4096;
	for(uint64_t i = 0; i < n; ++i) { P[i] = i * (l - 1100) / n; O[i] = 1 + rnd() % 1000; u[i] = rnd() % 4 != 0; if(i == n / 2) { const uint64_t v = vp_sym("off", 10); vp_assume(v == 127 || v == 128 || v == 255 || v == 256 || v == 511 || v == 512 || v == 1023); O[i] = vp_concretize(v); u[i] = true; } }
	bitfield R(n), L(l); for(uint64_t i = 0; i < n; ++i) if(u[i]) { R.set(i); lu[P[i]] = true; lu[P[i] + O[i]] = true; }
	for(uint64_t i = 0; i < l; ++i) rk[i + 1] = rk[i] + lu[i];
	table_t info; info.file_name = "t/in.tmp"; info.num_entries = n;
	{ DiskTable<TX> w("t/in.tmp"); for(uint64_t i = 0; i < n; ++i) { TX e; e.pos = P[i]; e.off = O[i]; w.write(e); } w.close(); }
	struct BigSink { struct WriteCache { BigSink* s; void add(const EX& e) { s->v.push_back(e); } void flush() {} }; std::vector<EX> v; bool fin = false; std::shared_ptr<WriteCache> add_cache() { auto c = std::make_shared<WriteCache>(); c->s = this; return c; } void finish() { fin = true; } } s;
	phase2::compute_table<TX, EX, BigSink>(3, knob_threads, &s, nullptr, info, &L, &R);
	bool okb = true; for(uint64_t q = 0; q < l; ++q) okb &= L.get(q) == lu[q]; vp_assert(okb, "an entry of the lower table is marked if and only if a kept entry refers to it");
	uint64_t kept = 0; std::vector<uint64_t> id; for(uint64_t i = 0; i < n; ++i) if(u[i]) { kept++; id.push_back(i); }
	vp_assert(s.v.size() == kept && s.fin, "exactly the entries that are still used are kept");
	std::vector<bool> once(kept); bool ok = true;
	for(auto& e : s.v) { if(e.key >= kept || once[e.key]) { ok = false; continue; } once[e.key] = true; const uint64_t i = id[e.key]; ok &= e.pos == rk[P[i]] && e.off == rk[P[i] + O[i]] - rk[P[i]]; }
	vp_assert(ok, "references become the new positions, each kept entry once");
	vp_observe(kept, "kept"); vp_cover("table");
}
extern "C" void vp_main() { if(knob_case == 2) big(); else if(knob_case == 0) one_table(); else whole(); }
