// C07: compute_table reads a sorted table in blocks and pairs adjacent groups.
#include <vp.h>
#include <chia/chia.h>
#ifndef REALC
#define kB 3
#define kC 5
#define kBC 15
#define kExtraBitsPow 2
#endif
#include <chia/entries.h>
#ifdef PM
#define PMAX PM
static const int LIMIT = 1 << PM;
#else
static const int LIMIT = 1 << 30;
#endif
#include <chia/DiskSort.hpp>
#include <chia/phase1.hpp>
#include <map>
#include <set>
#include <algorithm>
using namespace phase1;
size_t g_read_chunk_size = 64, g_write_chunk_size = 64;
extern "C" { int knob_n = 4; int knob_res = 3; int knob_threads = 1; int knob_table = 2; int knob_fixed = 0; int knob_split = -1; int knob_gap = 3; int knob_fault = 0; int knob_sym = 0; }
static uint8_t g_in[8][128]; static size_t g_len;
extern "C" { // the hash copies its input: y becomes the left y, the result stays traceable
void blake3_hasher_init(blake3_hasher* h) { h->len = 0; }
void blake3_hasher_update(blake3_hasher* h, const void* p, size_t n) { for(size_t i = 0; i < n; ++i) h->buf[h->len++ & 127] = ((const uint8_t*)p)[i]; }
void blake3_hasher_finalize(const blake3_hasher* h, uint8_t* o, size_t n) { for(size_t i = 0; i < n; ++i) o[i] = i < h->len ? h->buf[i] : 0; }
void chacha8_keysetup(struct chacha8_ctx*, const uint8_t*, uint32_t, const uint8_t*) {} void chacha8_get_keystream(const struct chacha8_ctx*, uint64_t, uint32_t, uint8_t*) {} }
static uint64_t g_y[1200]; static int g_split; static bool g_finished; static int g_reads;
struct Got { uint64_t pos, off, id; }; static Got g_got[2000]; static int g_ngot;
template<typename T> static T make(int i);
template<> entry_1 make<entry_1>(int i) { entry_1 e; e.y = g_y[i]; e.x = 0xA0 + i; return e; }
template<> entry_6 make<entry_6>(int i) { entry_6 e; e.y = g_y[i]; e.pos = 50 + 3 * i; e.off = (7 + i) & 1023; for(auto& m : e.meta) m = 0; e.meta[0] = 0xA0 + i; return e; }
template<typename T> struct Src { // sorted input, delivered in blocks
	template<typename P> void read(P* out, int threads, int = 1) {
		if(threads < 1) throw std::logic_error("num_threads < 1"); // as the real one
		g_reads++; std::pair<std::vector<T>, size_t> blk; blk.second = 0;
		for(int i = 0; i < knob_n; ++i) {
			blk.first.push_back(make<T>(i));
			if(i + 1 == knob_n || (g_split < 0 ? (i + 1) % -g_split == 0 : ((g_split >> i) & 1) != 0)) { out->take(blk); blk.first = std::vector<T>(); blk.second = i + 1; }
		}
	}
};
static std::mutex g_m;
static void got(const entry_2& e) { std::lock_guard<std::mutex> l(g_m); if(g_ngot < 2000) { g_got[g_ngot].pos = e.pos; g_got[g_ngot].off = e.off; g_got[g_ngot].id = e.y * 65536 + e.meta[3] * 256 + e.meta[7]; } g_ngot++; }
static void got(const entry_7& e) { std::lock_guard<std::mutex> l(g_m); if(g_ngot < 2000) { g_got[g_ngot].pos = e.pos; g_got[g_ngot].off = e.off; g_got[g_ngot].id = (uint64_t)e.y * 65536; } g_ngot++; }
struct Dst {
	struct WriteCache { void add(const entry_2& e) { vp_assert(!g_finished, "nothing is added after the end"); got(e); } void flush() {} };
	std::shared_ptr<WriteCache> add_cache() { return std::make_shared<WriteCache>(); }
	void add(const entry_2& e) { got(e); }
	void finish() { g_finished = true; }
};
static bool match(uint64_t yl, uint64_t yr)
{
#ifdef REALC
	if(yl / 15113 + 1 != yr / 15113) return false;
	const int L = yl % 15113, R = yr % 15113, P = yl / 15113 % 2, M = (119 + R / 127 - L / 127) % 119;
	return M < 64 && (127 + R % 127 - L % 127) % 127 == (2 * M + P) * (2 * M + P) % 127;
#endif
	if(yl / 15 + 1 != yr / 15) return false;
	const int l = yl % 15, r = yr % 15, p = yl / 15 % 2;
	for(int m = 0; m < 2; ++m) if((3 + r / 5 - l / 5) % 3 == m && (5 + r % 5 - l % 5) % 5 == (2 * m + p) * (2 * m + p) % 5) return true;
	return false;
}
template<typename R> static void check_tmp(table_t info)
{
	vp_assert(info.num_entries == (size_t)knob_n, "the left table has every entry");
	DiskTable<R> t(info); struct C : Processor<std::pair<std::vector<R>, size_t>> { int n = 0; R e[1200]; void take(std::pair<std::vector<R>, size_t>& in) override { for(auto& x : in.first) { if(n < 1200) e[n] = x; n++; } } } c;
	if(knob_n) t.read(&c, 1);
	bool ok = c.n == knob_n;
	for(int i = 0; i < knob_n && ok; ++i) { if constexpr(std::is_same<R, tmp_entry_1>::value) ok &= c.e[i].x == (uintkx_t)(0xA0 + i); else ok &= c.e[i].pos == (uintkx_t)(50 + 3 * i) && c.e[i].off == ((7 + i) & 1023); }
	vp_assert(ok, "each input entry is written to the left table exactly once, in order");
}
extern "C" void vp_main()
{
	initialize();
	static const uint8_t FIX[2][8][2] = {{{0, 0}, {0, 1}, {1, 0}, {1, 1}, {2, 1}, {2, 2}, {3, 1}, {4, 1}}, {{1, 1}, {2, 1}, {2, 1}, {2, 2}, {3, 2}, {5, 2}, {6, 2}, {6, 2}}};
	uint64_t g = 0, r = 0;
#ifdef REALC
	{ uint32_t q = 11; auto rnd = [&q]() { q = q * 1664525 + 1013904223; return q >> 8; }; // groups of typical size, one y is arbitrary among the borders of its group
		for(int i = 0; i < knob_n; ++i) g_y[i] = (uint64_t)(7 + i / 290 + (i / 290 > 2)) * 15113 + rnd() % 15113;
		const uint64_t v = vp_sym("y", 24); vp_assume(v == 7 * 15113 || v == 8 * 15113 - 1 || v == 8 * 15113 || v == 9 * 15113 - 1); g_y[3] = vp_concretize(v); std::sort(g_y, g_y + knob_n); knob_fixed = 99; }
#endif
	for(int i = 0; i < knob_n; ++i) {
		if(knob_fixed == 99) continue;
		if(knob_fixed) { g = FIX[knob_fixed - 1][i][0]; r = FIX[knob_fixed - 1][i][1]; }
		else if(knob_sym) { g_y[i] = vp_sym("y", 6); vp_assume(g_y[i] < 60 && (!i || g_y[i] >= g_y[i - 1])); if(knob_sym == 2) g_y[i] = vp_concretize(g_y[i]); continue; }
		else { static const int far[5] = {0, 1, 2, 3, 9}; const uint64_t s = i ? far[vp_choice(knob_gap, "step")] : vp_choice(2, "first"); if(s) r = 0; g += s; r += vp_choice(knob_res - r, "res"); }
		g_y[i] = g * 15 + r;
	}
	g_split = knob_split >= 0 || knob_fixed == 99 ? knob_split : knob_n > 1 ? (int)vp_choice(1 << (knob_n - 1), "split") : 0;
	uint64_t num = 0; Dst dst;
	if(knob_fault) { vpfs_fault_budget = knob_fault; vpfs_fault_mask = VPF_ALL; vp_allow_abort(1); }
	try {
	if(knob_table == 2) {
		DiskTable<tmp_entry_1> lt("t1.tmp"); Src<entry_1> src;
		num = compute_table<entry_1, entry_2, tmp_entry_1>(2, 32, knob_threads, &src, &dst, &lt);
		vpfs_fault_budget = 0;
		vp_assert(g_finished, "the output is marked complete");
		check_tmp<tmp_entry_1>(lt.get_info());
	} else {
		DiskTable<tmp_entry_x> lt("t6.tmp"); DiskTable<entry_7> rt("t7.tmp"); Src<entry_6> src;
		num = compute_table<entry_6, entry_7, tmp_entry_x, Src<entry_6>, DiskSort7>(7, 32, knob_threads, &src, nullptr, &lt, &rt);
		vpfs_fault_budget = 0;
		check_tmp<tmp_entry_x>(lt.get_info());
		struct C : Processor<std::pair<std::vector<entry_7>, size_t>> { void take(std::pair<std::vector<entry_7>, size_t>& in) override { for(auto& x : in.first) got(x); } } c;
		DiskTable<entry_7> rd(rt.get_info()); vp_assert(rt.get_info().num_entries == num, "table 7 has every match"); if(num) rd.read(&c, 1);
	}
	} catch(...) { vp_assert(vpfs_faults_hit > 0, "no error without a failing file operation"); vp_cover("reported"); vp_end(); }
	int want = 0; bool ok = true;
#ifdef REALC
	{ std::set<std::pair<uint64_t, uint64_t>> once; std::map<uint64_t, std::vector<int>> grp; for(int i = 0; i < knob_n; ++i) grp[g_y[i] / 15113].push_back(i);
		for(auto& a : grp) { auto b = grp.find(a.first + 1); if(b != grp.end()) for(int l : a.second) for(int q : b->second) want += match(g_y[l], g_y[q]) ? 1 : 0; }
		for(int i = 0; i < g_ngot && i < 2000; ++i) { const uint64_t l = g_got[i].pos, q = l + g_got[i].off; ok &= q < (uint64_t)knob_n && match(g_y[l], g_y[q]) && once.insert({l, q}).second; if(ok && knob_table == 2) ok &= g_got[i].id == g_y[l] * 65536 + ((0xA0 + l) & 255) * 256 + ((0xA0 + q) & 255); }
		vp_assert(ok, "every entry is a matching pair of adjacent groups, once, computed from that pair"); vp_assert(g_ngot == want && num == (uint64_t)want, "every matching pair is there"); vp_observe(want, "matches"); vp_cover("pairs"); return; }
#endif
	for(int l = 0; l < knob_n; ++l) for(int q = l + 1; q < knob_n; ++q) if(l < LIMIT && match(g_y[l], g_y[q])) { // positions that do not fit are left out
		want++; int c = 0;
		for(int i = 0; i < g_ngot && i < 2000; ++i) c += g_got[i].pos == (uint64_t)l && g_got[i].off == (uint64_t)(q - l) && g_got[i].id == (knob_table == 2 ? g_y[l] * 65536 + (0xA0 + l) * 256 + 0xA0 + q : (g_y[l] >> 6) * 65536);
		ok &= c == 1;
	}
	vp_assert(ok, "every matching pair of adjacent groups gives one entry with its position and distance, computed from that pair");
	vp_assert(g_ngot == want, "no other entries appear");
	vp_assert(num == (uint64_t)want, "the number of matches is reported");
	vp_observe(want, "matches"); vp_cover(want ? "pairs" : "none");
}
