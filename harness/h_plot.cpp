// C19, C22, C26, C27: phases 2, 3 and 4 from given phase 1 tables to the finished plot file.
#include <vp.h>
#include <chia/chia.h>
#ifndef REAL
#define kEntriesPerPark 4
#define kMaxAverageDeltaTable1 32.0
#define kMaxAverageDelta 24.0
#define kCheckpoint1Interval 5
#define kCheckpoint2Interval 2
#define kC3BitsPerEntry 64.0
#endif
#include <chia/DiskSort.hpp>
#include <chia/phase2.hpp>
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#include "ref_plot.h"
size_t g_read_chunk_size = 24, g_write_chunk_size = 24;
namespace phase2 { int g_thread_multi = 1; }
extern "C" { int knob_case = 0; int knob_k = 32; int knob_threads = 1; int knob_sym = 0; int knob_memo = 5; int knob_fault = 0; int knob_mask = 255; int knob_dirs = 0; int knob_size = 0; int knob_crash = 0; int knob_pat = 0; int knob_logb = 1; }
typedef phase1::tmp_entry_x TX; typedef phase1::entry_7 E7;
static const int NS[6][8] = {{0, 5, 4, 4, 3, 4, 4, 6}, {0, 9, 8, 7, 8, 9, 7, 13}, {0, 2, 2, 2, 2, 2, 2, 1}, {0, 8, 8, 8, 8, 8, 8, 10}, {0, 6, 5, 4, 5, 6, 6, 5}, {0, 12, 12, 12, 12, 12, 12, 15}};
static int N[8]; static uint64_t X[16], P[8][16], O[8][16], Y[16]; static uint8_t g_id[32]; static std::vector<uint8_t> g_memo;
static std::string D1, D2, DP; static const char* NAME = "plot-k32-x"; static bool g_data_sym = false;
static uint32_t g_rng;
static uint32_t rnd() { g_rng = g_rng * 1664525 + 1013904223; return g_rng >> 10; }
static void make()
{
	g_rng = 4242 + knob_pat * 977;
	for(int t = 1; t <= 7; ++t) N[t] = NS[knob_size][t];
	for(int i = 0; i < N[1]; ++i) X[i] = (knob_k >= 30 ? 100000 : 900) + (rnd() % 50) * 20 + i;
	for(int t = 2; t <= 7; ++t) { uint64_t q = 0; for(int i = 0; i < N[t]; ++i) {
		P[t][i] = rnd() % N[t - 1]; if(P[t][i] + 1 == (uint64_t)N[t - 1] && N[t - 1] > 1) P[t][i]--; O[t][i] = N[t - 1] > 1 ? 1 + rnd() % (N[t - 1] - 1 - P[t][i]) : 0;
		if(knob_sym == t && i < 2) { const uint64_t a = vp_sym("pos", 4), b = vp_sym("off", 4); vp_assume(a < (uint64_t)N[t - 1] && b > 0 && b < (uint64_t)N[t - 1] - a); P[t][i] = vp_concretize(a); O[t][i] = vp_concretize(b); }
		if(t == 7) { Y[i] = 1000 + (i ? Y[i - 1] - 1000 : 0) + rnd() % 3; if(knob_sym == 8 && i == 2) { const uint64_t g = vp_sym("gap", 7); vp_assume(g < 112); Y[i] += vp_concretize(g); } }
		(void)q; } }
	// table 7 arrives in order of position, not of y
	for(int i = 0; i < N[7] / 2; ++i) std::swap(Y[i], Y[N[7] - 1 - i]);
}
static void write_tables(phase1::output_t& in)
{
	for(int t = 1; t <= 7; ++t) {
		table_t& ti = in.table[t - 1]; ti.file_name = (t == 7 ? D2 : D1) + NAME + ".p1.table" + std::to_string(t) + ".tmp"; ti.num_entries = N[t];
		if(t == 1) { DiskTable<phase1::tmp_entry_1> w(ti.file_name); for(int i = 0; i < N[t]; ++i) { phase1::tmp_entry_1 e; e.x = X[i]; w.write(e); } w.close(); }
		else if(t == 7) { DiskTable<E7> w(ti.file_name); for(int i = 0; i < N[t]; ++i) { E7 e; e.y = Y[i]; e.pos = P[t][i]; e.off = O[t][i]; w.write(e); } w.close(); }
		else { DiskTable<TX> w(ti.file_name); for(int i = 0; i < N[t]; ++i) { TX e; e.pos = P[t][i]; e.off = O[t][i]; w.write(e); } w.close(); }
	}
}
static void xs_of(int t, uint64_t i, std::vector<uint64_t>& xs) { if(t == 1) { xs.push_back(X[i]); return; } xs_of(t - 1, P[t][i], xs); xs_of(t - 1, P[t][i] + O[t][i], xs); }
static void counts(int* n)
{
	bool used[8][16] = {}; for(int i = 0; i < N[7]; ++i) used[7][i] = true;
	for(int t = 7; t >= 2; --t) for(int i = 0; i < N[t]; ++i) if(used[t][i]) { used[t - 1][P[t][i]] = true; used[t - 1][P[t][i] + O[t][i]] = true; }
	for(int t = 2; t <= 7; ++t) { n[t - 1] = 0; for(int i = 0; i < N[t]; ++i) n[t - 1] += used[t][i]; } n[7] = N[7];
}
static const char* BYST[] = {"other.p2.t2.sort_bucket_0.tmp", "plot-k32-y.p1.table1.tmp", "plot-k32-xx.plot.tmp", "plot-k32-y.plot", "plot-k32-y.p3s1.t2.sort_bucket_1.tmp"};
static void bystanders(bool create)
{
	const std::string d[3] = {D1, D2, DP};
	for(int i = 0; i < 3; ++i) for(auto b : BYST) {
		const std::string n = d[i] + b; if(create) vpfs_create(n.c_str(), b, 7); else { bool ok = vpfs_size(n.c_str()) == 7; for(int j = 0; ok && j < 7; ++j) ok = vpfs_byte(n.c_str(), j) == b[j]; vp_assert(ok, "files of others are left alone"); }
	}
}
static const char* check_plot(const std::string& fn) // nullptr when complete and right
{
	RefPlot r; int n[8]; counts(n);
	if(!r.open(fn, knob_k, (int)g_memo.size())) return r.why;
	bool idok = true; for(int i = 0; i < 32; ++i) idok &= r.id[i] == g_id[i]; for(size_t i = 0; i < g_memo.size(); ++i) idok &= r.memo[i] == g_memo[i];
	if(knob_case == 1) vp_assert(idok, "the header carries plot id and memo"); else if(!idok) return "id or memo";
	if(!r.tables(n, kEntriesPerPark, kMaxAverageDeltaTable1, kMaxAverageDelta, kCheckpoint1Interval, kCheckpoint2Interval, kC3BitsPerEntry)) return r.why;
	// every table 7 entry is found with its y and its 64 x values, and nothing else
	std::vector<bool> taken(N[7]);
	uint64_t prev = 0;
	for(int i = 0; i < N[7]; ++i) {
		const auto xs = r.proof(i); if(r.bad) return r.why; const uint64_t y = r.y7[i]; if(y != ~0ull) { if(y < prev) return "y order"; prev = y; }
		bool hit = false;
		for(int j = 0; j < N[7] && !hit; ++j) if(!taken[j] && (y == ~0ull || Y[j] == y)) { std::vector<uint64_t> w; xs_of(7, j, w); std::sort(w.begin(), w.end()); if(w == xs) { taken[j] = true; hit = true; } }
		if(!hit) return "proof";
	}
	return nullptr;
}
static bool g_done = false;
static void at_abort() { // the process died: whatever carries the final name is complete
	const std::string fin = DP + NAME + ".plot";
	vpfs_fault_budget = 0; vpfs_crash_budget = 0;
	if(vpfs_exists(fin.c_str())) { const char* w = check_plot(fin); if(w) vp_print(w, 0); vp_assert(!w, "a file with the final name is a complete plot"); }
}
extern "C" void vp_main()
{
	static const char* DIRS[3][3] = {{"a/", "b/", "c/"}, {"a/", "a/", "a/"}, {"", "", ""}};
	D1 = DIRS[knob_dirs][0]; D2 = DIRS[knob_dirs][1]; DP = DIRS[knob_dirs][2];
	for(double R : {4.7, 2.75, 2.7, 2.6, 2.45, 1.0}) { ref_fse(R); std::vector<uint8_t> w(4, 1), o(64); Encoding::ANSEncodeDeltas(w, R, o.data()); }
	make();
	for(int i = 0; i < 32; ++i) g_id[i] = knob_case == 1 ? vp_sym("id", 8) : 3 * i;
	for(int i = 0; i < knob_memo; ++i) g_memo.push_back(knob_case == 1 && (i < 4 || i + 4 > knob_memo) ? vp_sym("memo", 8) : 200 - i);
	phase1::output_t in; in.params.k = knob_k; for(int i = 0; i < 32; ++i) in.params.id[i] = g_id[i]; in.params.memo = g_memo; in.params.plot_name = NAME;
	write_tables(in);
	bystanders(true);
	const std::string fin = DP + NAME + ".plot";
	bool err = false; uint64_t psize = 0; std::string pname;
	{
		phase2::output_t o2; phase3::output_t o3; phase4::output_t o4;
		if(knob_fault || knob_crash) { vp_allow_abort(1); vp_abort_hook(at_abort); }
		if(knob_mask != 1000) { vpfs_fault_budget = knob_fault; vpfs_crash_budget = knob_crash; vpfs_fault_mask = knob_mask; }
		try {
			phase2::compute(in, o2, knob_threads, knob_logb, NAME, D1, D2);
			phase3::compute(o2, o3, knob_threads, knob_logb, NAME, D1, D2, DP);
			vp_assert(!vpfs_exists(fin.c_str()), "no final name before phase 4");
			phase4::compute(o3, o4, knob_threads, knob_logb, NAME, D1, D2, DP);
			psize = o4.plot_size; pname = o4.plot_file_name;
		} catch(const std::exception& ex) { err = true; }
		vpfs_fault_budget = 0; vpfs_crash_budget = 0;
	}
	if(vpfs_faults_hit && err) { vp_assert(!vpfs_exists(fin.c_str()), "a failed plot does not get the final name"); vp_cover("reported"); }
	else {
		vp_assert(!err, "a plot is created");
		vp_assert(pname == fin && vpfs_exists(fin.c_str()), "the plot has its final name");
		const char* w = check_plot(fin); if(w) vp_print(w, 0);
		vp_assert(!w, "the plot decodes to exactly the proofs of the tables");
		vp_assert(psize >= (uint64_t)vpfs_size(fin.c_str()), "reported plot size");
		vp_observe(psize, "size"); vp_cover("complete");
	}
	bystanders(false);
	if(!vpfs_faults_hit) {
		const int nb = knob_dirs == 0 ? 15 : 5; vp_assert(vpfs_nfiles() == nb + 1, "all temporary files are gone");
		for(int i = 0; vpfs_ever(i); ++i) { const std::string n = vpfs_ever(i); vp_assert(n.compare(0, D1.size(), D1) == 0 || n.compare(0, D2.size(), D2) == 0 || n.compare(0, DP.size(), DP) == 0, "temporary files stay in their directories"); if(n != fin && DP != D1 && n.compare(0, DP.size(), DP) == 0) { bool b = false; for(auto x : BYST) b |= n == DP + x; vp_assert(b || n == fin + ".tmp", "nothing but the plot is created in the plot directory"); } }
	}
}
