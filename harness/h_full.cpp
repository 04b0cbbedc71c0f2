// C28 (and C20, C22, C26, C27): phase 1 as a whole, and all four phases from table 1 to the finished plot file.
// Table 1 is supplied by a stand-in with a few entries (C04 decides the real one), groups are scaled to 15 values.
#include <vp.h>
#include <chia/chia.h>
#define kB 3
#define kC 5
#define kBC 15
#define kExtraBitsPow 2
#define kEntriesPerPark 4
#define kMaxAverageDeltaTable1 32.0
#define kMaxAverageDelta 24.0
#define kCheckpoint1Interval 5
#define kCheckpoint2Interval 2
#define kC3BitsPerEntry 64.0
#include <chia/phase1.h>
namespace phase1 { void compute_f1(const uint8_t* id, int k, int num_threads, DiskSort1* out); }	// preferred to the template
#include <chia/DiskSort.hpp>
#include <chia/phase1.hpp>
#include <chia/phase2.hpp>
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#include "ref_plot.h"
#include <map>
#include <set>
size_t g_read_chunk_size = 48, g_write_chunk_size = 48;
namespace phase2 { int g_thread_multi = 1; }
extern "C" { int knob_k = 32; int knob_n = 10; int knob_salt = 1; int knob_threads = 1; int knob_dirs = 0; int knob_logb = 2; int knob_sym = -1; int knob_symx = -1; int knob_fault = 0; int knob_crash = 0; int knob_mask = 255; int knob_all = 0; int knob_memo = 7; }
typedef std::vector<uint8_t> Bits_;	// one bit per element
static int K() { return knob_k; }
static uint32_t mix(const uint8_t* p, size_t n) { uint32_t h = 2166136261u ^ (uint32_t)knob_salt * 2654435761u; for(size_t i = 0; i < n; ++i) { h ^= p[i]; h *= 16777619u; h ^= h >> 13; } return h ^ (h >> 16); }
static uint64_t pick_y(uint32_t h) { static const uint8_t G[8] = {0, 1, 15, 16, 75, 76, 91, 92}; return G[h & 7]; }
// hash stand-in: the first k + 6 bits are a small y value, the rest depends on every input byte
struct Seen { std::vector<uint8_t> in; uint64_t y; };
static std::vector<Seen>* g_seen; static std::mutex* g_m;
static void hash(const uint8_t* in, size_t n, uint8_t* out)
{
	uint32_t h = mix(in, n); uint64_t y = pick_y(h >> 3);
	if(knob_sym >= 0 && g_seen) { // one input has an arbitrary result
		std::lock_guard<std::mutex> l(*g_m); bool have = false;
		for(size_t i = 0; i < g_seen->size(); ++i) { auto& s = (*g_seen)[i]; if(s.in.size() == n && !memcmp(s.in.data(), in, n)) { y = s.y; have = true; } }
		if(!have) { if((int)g_seen->size() == knob_sym) { const uint64_t v = vp_sym("y", 7); vp_assume(v < 110); y = vp_concretize(v); } Seen s; s.in.assign(in, in + n); s.y = y; g_seen->push_back(s); }
	}
	for(int i = 0; i < 32; ++i) { h = h * 1664525u + 1013904223u; out[i] = h >> 24; }
	uint64_t w = 0; for(int i = 0; i < 8; ++i) w = w << 8 | out[i];
	const int sh = 64 - (K() + 6); w = (w & (((uint64_t)1 << sh) - 1)) | y << sh; for(int i = 0; i < 8; ++i) out[i] = w >> (56 - 8 * i);
}
extern "C" {
void blake3_hasher_init(blake3_hasher* h) { h->len = 0; }
void blake3_hasher_update(blake3_hasher* h, const void* p, size_t n) { for(size_t i = 0; i < n; ++i) { vp_assert(h->len < 128, "hash input length"); h->buf[h->len++] = ((const uint8_t*)p)[i]; } }
void blake3_hasher_finalize(const blake3_hasher* h, uint8_t* o, size_t n) { uint8_t t[32]; hash(h->buf, h->len, t); for(size_t i = 0; i < n; ++i) o[i] = t[i]; }
void chacha8_keysetup(struct chacha8_ctx*, const uint8_t*, uint32_t, const uint8_t*) {} void chacha8_get_keystream(const struct chacha8_ctx*, uint64_t, uint32_t, uint8_t*) {} }
static uint64_t g_x[32], g_y1[32]; static uint8_t g_id[32]; static std::vector<uint8_t> g_memo;
static void make()
{
	for(int i = 0; i < knob_n; ++i) {
		g_x[i] = (knob_k >= 30 ? 100000 : 900) + 13 * i + (mix((const uint8_t*)&i, 4) % 11);
		uint64_t s = g_x[i] * 31 + 5; g_y1[i] = pick_y(mix((const uint8_t*)&s, 8) >> 3);
		if(knob_symx == i) { const uint64_t v = vp_sym("y1", 7); vp_assume(v < 110); g_y1[i] = vp_concretize(v); }
	}
}
#ifndef SEARCH
void phase1::compute_f1(const uint8_t* id, int k, int num_threads, DiskSort1* out)
{
	bool ok = k == knob_k; for(int i = 0; i < 32; ++i) ok &= id[i] == g_id[i]; vp_assert(ok, "table 1 is made for this plot id and k");
	auto c = out->add_cache(); for(int i = 0; i < knob_n; ++i) { entry_1 e; e.x = g_x[i]; e.y = g_y1[i]; c->add(e); } c->flush(); c = nullptr;
	out->finish();
}
#endif
// ---- the definition
struct RE { uint64_t y; Bits_ meta; };
static void put(Bits_& b, uint64_t v, int n) { for(int i = n - 1; i >= 0; --i) b.push_back((v >> i) & 1); }
static RE ref_1(uint64_t x, uint64_t y) { RE r; r.y = y; put(r.meta, x, K()); return r; }
static RE ref_f(const RE& L, const RE& R, int t)
{
	static const int V[8] = {0, 1, 2, 4, 4, 3, 2, 0};
	Bits_ in; put(in, L.y, K() + 6); in.insert(in.end(), L.meta.begin(), L.meta.end()); in.insert(in.end(), R.meta.begin(), R.meta.end());
	uint8_t raw[128] = {}, h[32]; for(size_t i = 0; i < in.size(); ++i) raw[i / 8] |= in[i] << (7 - i % 8);
	hash(raw, (in.size() + 7) / 8, h);
	Bits_ o; for(int i = 0; i < 256; ++i) o.push_back((h[i / 8] >> (7 - i % 8)) & 1);
	RE r; r.y = 0; for(int i = 0; i < K() + (t < 7 ? 6 : 0); ++i) r.y = r.y << 1 | o[i];
	if(t < 4) { r.meta = L.meta; r.meta.insert(r.meta.end(), R.meta.begin(), R.meta.end()); }
	else r.meta.assign(o.begin() + K() + 6, o.begin() + K() + 6 + V[t] * K());
	return r;
}
static bool match(uint64_t yl, uint64_t yr)
{
	if(yl / 15 + 1 != yr / 15) return false;
	const int l = yl % 15, r = yr % 15, p = yl / 15 % 2;
	for(int m = 0; m < 2; ++m) if((3 + r / 5 - l / 5) % 3 == m && (5 + r % 5 - l % 5) % 5 == (2 * m + p) * (2 * m + p) % 5) return true;
	return false;
}
static bool overfull() // some pair of adjacent groups has more matches than the matcher takes
{
	std::vector<RE> T; for(int i = 0; i < knob_n; ++i) T.push_back(ref_1(g_x[i], g_y1[i]));
	for(int t = 2; t <= 7; ++t) { std::vector<RE> U; std::map<uint64_t, int> cnt; for(auto& a : T) for(auto& b : T) if(match(a.y, b.y)) { if(++cnt[a.y / kBC] > kBC) return true; U.push_back(ref_f(a, b, t)); } T = U; }
	return false;
}
#ifdef SEARCH
#include <cstdio>
int main(int c, char** v) { knob_k = atoi(v[1]); for(knob_n = atoi(v[2]); knob_n <= atoi(v[2]); ++knob_n) for(knob_salt = 1; knob_salt < 2000000; ++knob_salt) { make(); std::vector<RE> T; for(int i = 0; i < knob_n; ++i) T.push_back(ref_1(g_x[i], g_y1[i])); int n[8] = {0, knob_n}; bool ok = true;
	for(int t = 2; t <= 7 && ok; ++t) { std::stable_sort(T.begin(), T.end(), [](const RE& a, const RE& b) { return a.y < b.y; }); std::vector<RE> U; for(auto& a : T) for(auto& b : T) if(match(a.y, b.y)) U.push_back(ref_f(a, b, t)); T = U; n[t] = T.size(); ok = !overfull() && n[t] >= atoi(v[3]) && n[t] <= knob_n + 2; }
	if(ok) { printf("n=%d salt=%d:", knob_n, knob_salt); for(int t = 1; t <= 7; ++t) printf(" %d", n[t]); uint64_t z = 0; for(auto& a : T) z |= 1 << a.y; printf(" y7 %lx\n", z); } } }
#else
static std::string D1, D2, DP; static const char* NAME = "plot-k32-x";
static std::vector<RE> g_tab[8]; static std::vector<std::pair<uint64_t, uint64_t>> g_ref[8];
template<typename T> struct Coll : Processor<std::pair<std::vector<T>, size_t>> { std::vector<T> e; void take(std::pair<std::vector<T>, size_t>& in) override { for(auto& x : in.first) e.push_back(x); } };
template<typename T> static std::vector<T> load(const table_t& info) { Coll<T> c; if(info.num_entries) { DiskTable<T> t(info); t.read(&c, 1); } vp_assert(c.e.size() == info.num_entries, "reported number of entries"); vp_assert(vpfs_size(info.file_name.c_str()) == (int64_t)(info.num_entries * T::disk_size), "table file size"); return c.e; }
static void check_phase1(const phase1::output_t& o)
{
	const auto t1 = load<phase1::tmp_entry_1>(o.table[0]); vp_assert((int)t1.size() == knob_n, "table 1 is complete");
	std::vector<bool> used(knob_n);
	for(auto& e : t1) { int j = -1; for(int i = 0; i < knob_n; ++i) if(!used[i] && g_x[i] == e.x) { j = i; break; } vp_assert(j >= 0, "table 1 holds each x once"); used[j] = true; g_tab[1].push_back(ref_1(g_x[j], g_y1[j])); }
	for(int t = 2; t <= 7; ++t) {
		const auto& L = g_tab[t - 1]; std::vector<uint64_t> y7;
		for(size_t i = 1; i < L.size(); ++i) vp_assert(L[i - 1].y <= L[i].y, "each table is in order of y");
		if(t < 7) for(auto& e : load<phase1::tmp_entry_x>(o.table[t - 1])) g_ref[t].push_back({e.pos, (uint64_t)e.pos + e.off});
		else for(auto& e : load<phase1::entry_7>(o.table[6])) { g_ref[t].push_back({e.pos, (uint64_t)e.pos + e.off}); y7.push_back(e.y); }
		size_t want = 0; for(auto& a : L) for(auto& b : L) want += match(a.y, b.y);
		vp_assert(g_ref[t].size() == want, "one entry per matching pair");
		std::set<std::pair<uint64_t, uint64_t>> once;
		for(size_t i = 0; i < g_ref[t].size(); ++i) {
			const auto r = g_ref[t][i]; vp_assert(r.first < r.second && r.second < L.size() && match(L[r.first].y, L[r.second].y), "every entry refers to a matching pair"); vp_assert(once.insert(r).second, "no pair twice");
			g_tab[t].push_back(ref_f(L[r.first], L[r.second], t)); if(t == 7) vp_assert(y7[i] == g_tab[t][i].y, "table 7 carries the right y");
		}
	}
	vp_observe(g_tab[7].size(), "proofs");
}
static const char* BYST[] = {"other.p1.t2.sort_bucket_0.tmp", "plot-k32-y.p1.table1.tmp", "plot-k32-x.p1.table8.tmp"};
static void bystanders(bool create)
{
	const std::string d[3] = {D1, D2, DP};
	for(int i = 0; i < 3; ++i) for(auto b : BYST) { const std::string n = d[i] + b; if(create) vpfs_create(n.c_str(), b, 7); else { bool ok = vpfs_size(n.c_str()) == 7; for(int j = 0; ok && j < 7; ++j) ok = vpfs_byte(n.c_str(), j) == b[j]; vp_assert(ok, "files of others are left alone"); } }
}
// the verifier: recomputes f from 64 x values; pairs may come in either order
static bool verify(const std::vector<uint64_t>& xs, size_t at, int t, RE& out)
{
	if(t == 1) { for(int i = 0; i < knob_n; ++i) if(g_x[i] == xs[at]) { out = ref_1(g_x[i], g_y1[i]); return true; } return false; }
	RE a, b; if(!verify(xs, at, t - 1, a) || !verify(xs, at + ((size_t)1 << (t - 2)), t - 1, b)) return false;
	if(match(a.y, b.y)) { out = ref_f(a, b, t); return true; } if(match(b.y, a.y)) { out = ref_f(b, a, t); return true; } return false;
}
static const char* check_plot(const std::string& fn)
{
	RefPlot r; if(!r.open(fn, knob_k, (int)g_memo.size())) return r.why;
	for(int i = 0; i < 32; ++i) if(r.id[i] != g_id[i]) return "id";
	int n[8]; std::vector<bool> used[8]; for(int t = 1; t <= 7; ++t) used[t].assign(g_tab[t].size(), t == 7);
	for(int t = 7; t >= 2; --t) for(size_t i = 0; i < g_ref[t].size(); ++i) if(used[t][i]) { used[t - 1][g_ref[t][i].first] = true; used[t - 1][g_ref[t][i].second] = true; }
	for(int t = 2; t <= 7; ++t) { n[t - 1] = 0; for(size_t i = 0; i < used[t].size(); ++i) n[t - 1] += used[t][i]; } n[7] = (int)g_tab[7].size();
	if(!r.tables(n, kEntriesPerPark, kMaxAverageDeltaTable1, kMaxAverageDelta, kCheckpoint1Interval, kCheckpoint2Interval, kC3BitsPerEntry)) return r.why;
	std::set<std::vector<uint64_t>> once; std::multiset<uint64_t> have, want; for(auto& e : g_tab[7]) want.insert(e.y);
	for(int i = 0; i < n[7]; ++i) {
		std::vector<uint64_t> xs; r.collect(6, r.p7[i], xs); if(r.bad) return r.why; RE e;
		if(!verify(xs, 0, 7, e)) return "a proof of the plot is not valid";
		if(r.y7[i] != ~0ull && e.y != r.y7[i]) return "a proof is filed under a wrong y";
		have.insert(e.y); if(!once.insert(xs).second) return "a proof appears twice";
	}
	if(have != want) return "proofs are missing";
	return nullptr;
}
static void at_abort() { vpfs_fault_budget = 0; vpfs_crash_budget = 0; const std::string fin = DP + NAME + ".plot"; if(vpfs_exists(fin.c_str())) { const char* w = check_plot(fin); if(w) vp_print(w, 0); vp_assert(!w, "a file with the final name is a complete plot"); } }
extern "C" void vp_main()
{
	static const char* DIRS[3][3] = {{"a/", "b/", "c/"}, {"a/", "a/", "a/"}, {"", "", ""}};
	D1 = DIRS[knob_dirs][0]; D2 = DIRS[knob_dirs][1]; DP = DIRS[knob_dirs][2];
	std::vector<Seen> seen; g_seen = &seen; std::mutex mu; g_m = &mu;
	if(knob_all) for(double R : {4.7, 2.75, 2.7, 2.6, 2.45, 1.0}) { ref_fse(R); std::vector<uint8_t> w(4, 1), o(64); Encoding::ANSEncodeDeltas(w, R, o.data()); }
	make();
	for(int i = 0; i < 32; ++i) g_id[i] = 5 * i + 1; for(int i = 0; i < knob_memo; ++i) g_memo.push_back(200 - i);
	phase1::input_t in; in.k = knob_k; for(int i = 0; i < 32; ++i) in.id[i] = g_id[i]; in.memo = g_memo; in.plot_name = NAME;
	bystanders(true);
	const std::string fin = DP + NAME + ".plot"; bool err = false; const int nb = knob_dirs == 0 ? 9 : 3;
	phase1::output_t o1;
	{
		{ vp_allow_abort(knob_fault || knob_crash || overfull()); vp_abort_hook(at_abort); }
		vpfs_fault_budget = knob_fault; vpfs_crash_budget = knob_crash; vpfs_fault_mask = knob_mask;
		try {
			phase1::compute(in, o1, knob_threads, knob_logb, NAME, D1, D2);
			const int fb = vpfs_fault_budget, cb = vpfs_crash_budget; vpfs_fault_budget = 0; vpfs_crash_budget = 0;
			bool p = o1.params.k == knob_k && o1.params.plot_name == NAME && o1.params.memo == g_memo; for(int i = 0; i < 32; ++i) p &= o1.params.id[i] == g_id[i]; vp_assert(p, "the parameters are handed on");
			check_phase1(o1);
			if(!vpfs_faults_hit) { vp_assert(vpfs_nfiles() == nb + 7, "phase 1 leaves its seven tables and nothing else"); std::set<std::string> names; for(int t = 0; t < 7; ++t) names.insert(o1.table[t].file_name); vp_assert(names.size() == 7, "seven different files"); }
			vpfs_fault_budget = fb; vpfs_crash_budget = cb;
			if(knob_all) {
				phase2::output_t o2; phase3::output_t o3; phase4::output_t o4;
				phase2::compute(o1, o2, knob_threads, knob_logb, NAME, D1, D2);
				phase3::compute(o2, o3, knob_threads, knob_logb, NAME, D1, D2, DP);
				phase4::compute(o3, o4, knob_threads, knob_logb, NAME, D1, D2, DP);
			}
		} catch(const std::exception& ex) { err = true; }
		vpfs_fault_budget = 0; vpfs_crash_budget = 0;
	}
	if(err) { vp_assert(vpfs_faults_hit > 0 || overfull(), "no error without a reason"); vp_assert(!vpfs_exists(fin.c_str()), "a failed plot does not get the final name"); vp_cover("reported"); }
	else if(knob_all) {
		const char* w = check_plot(fin); if(w) vp_print(w, 0); vp_assert(!w, "the plot holds exactly the valid proofs");
		if(!vpfs_faults_hit) vp_assert(vpfs_nfiles() == nb + 1, "all temporary files are gone");
		vp_cover(g_tab[7].empty() ? "no-proofs" : "complete");
	} else vp_cover(g_tab[7].empty() ? "no-proofs" : "tables");
	bystanders(false);
	for(int i = 0; vpfs_ever(i); ++i) { const std::string n = vpfs_ever(i); bool in_ = n.compare(0, D1.size(), D1) == 0 || n.compare(0, D2.size(), D2) == 0 || n == fin || n == fin + ".tmp"; for(auto b : BYST) in_ |= n == DP + b; vp_assert(in_, "temporary files stay in their directories"); }
}
#endif
