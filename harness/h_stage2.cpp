// C16: phase 3 stage 2 - parks decoded by an independent reader.
#include <vp.h>
#include <chia/chia.h>
#include <chia/entries.h>
#ifndef REAL
#ifndef EPP
#define EPP 4
#endif
#ifndef ADELTA
#define ADELTA 24.0
#endif
#define kEntriesPerPark EPP
#define kMaxAverageDeltaTable1 (ADELTA + 8)
#define kMaxAverageDelta ADELTA
#ifdef PM
#define PMAX PM
#endif
#endif
#include <chia/DiskSort.hpp>
#include <chia/phase3.hpp>
#include "ref_fse.h"
#include "ref_park.h"
using namespace phase3;
size_t g_read_chunk_size = 64, g_write_chunk_size = 64;
extern "C" { int knob_case = 0; int knob_n = 5; int knob_table = 1; int knob_k = 32; int knob_threads = 1; int knob_fixed = 0; int knob_rchunk = 3; int knob_win = 0; int knob_base = 0; int knob_logb = 1; }
static const char* FN = "t/plot";
struct CN : Processor<std::pair<std::vector<entry_np>, size_t>> { std::vector<entry_np> e; void take(std::pair<std::vector<entry_np>, size_t>& in) override { for(auto& x : in.first) e.push_back(x); } };
static uint32_t g_rng = 777;
static uint32_t rnd() { g_rng = g_rng * 1664525 + 1013904223; return g_rng >> 8; }
static std::vector<uint128_t> P; static std::vector<uint64_t> KEY;
static const double RV[7] = {0, 4.7, 2.75, 2.75, 2.7, 2.6, 2.45};

static void sizes() // real constants
{
	const uint64_t k = vp_range("k", 8, 17, 34), t = vp_range("table", 8, 1, 6); const int kk = (int)vp_concretize(k), tt = (int)vp_concretize(t);
	vp_assert(kEntriesPerPark == 2048 && kStubMinusBits == 3, "format constants");
	vp_assert(CalculateParkSize(kk, tt) == (uint32_t)((2 * kk + 7) / 8 + (2047 * (kk - 3) + 7) / 8 + (tt == 1 ? (11464 + 7) / 8 : (7165 + 7) / 8)), "park size of the plot format");
	vp_cover("sizes");
}
static bool g_must_fail = false;
extern "C" void vp_main()
{
	const int k = knob_k, n = knob_n; const int sb = k - 3;
#ifdef REAL
	if(knob_case == 9) { sizes(); return; }
#endif
	RefFse ref(RV[knob_table]);
	{ std::vector<uint8_t> w(4, 1), o(64); Encoding::ANSEncodeDeltas(w, RV[knob_table], o.data()); }
	const uint64_t lim = (uint64_t)1 << sb;
	uint128_t hi = 3; int brim = 0, big = 0;
	if(knob_case == 8) { static const int bg[5] = {3, 9, 20, 60, 110}; brim = (int)vp_choice(kEntriesPerPark, "brim"); big = bg[vp_choice(5, "big")]; }
	for(int i = 0; i < n; ++i) {
		uint128_t p = 0;
		if(knob_case == 8) { p = (uint128_t)hi * lim + 5 + i; hi += i % kEntriesPerPark < (unsigned)brim ? big : i % 2; } // parks just below, at and just above the space there is
		if(knob_case == 0) { static const int st[4] = {2, 5, 9, 3}; p = i ? P[i - 1] + ((uint128_t)st[i % 4] << sb | (i >= knob_win && i < knob_win + 3 ? vp_sym("stub", sb) : 77777 * i)) : knob_win == 0 ? (uint128_t)vp_sym("first", sb + 10) : (uint128_t)99; hi += i ? st[i % 4] + 1 : 1025; } // arbitrary first point and low bits, typical distances
		if(knob_case == 7) { p = (uint128_t)hi * lim + vp_sym("low", sb); static const int st[4] = {1, 5, 9, 2}; hi += st[i % 4]; } // arbitrary low bits at any alignment
		if(knob_case == 1) { p = (uint128_t)hi * lim + 12345 + i; if(i == n / 2) { const uint64_t v = vp_sym("delta", 8); vp_assume(v < (uint64_t)ref.N); hi += vp_concretize(v); } else hi += i % 3; } // any distance
		if(knob_case == 2) { const int st[6] = {0, 1, 2, 70, 253, 254}; p = (uint128_t)hi * lim + (i % 2 ? lim - 1 : 0); const int c = (int)vp_choice(6, "step"); if(i % 2 && c == 0) hi += 1; else hi += st[c]; } // classes of distances, extreme low bits
		if(knob_case == 3) { p = (uint128_t)hi * lim + rnd() % lim; uint32_t v = rnd(); int d = 0; while(v % 16 < 10 && d < 20) { d++; v /= 3; v ^= rnd(); } hi += 1 + d; } // typical table
		if(knob_case == 4) { p = (uint128_t)hi * lim + 5; if(i == 1) { const uint64_t v = vp_sym("far", 20); vp_assume(v >= 255); const uint64_t w = vp_concretize(v == 255 ? v : v == 256 ? v : v == 257 ? v : v == 511 ? v : 1000000); hi += (uint128_t)w; g_must_fail = true; } else hi += 2; }
		if(knob_case == 5) { p = (uint128_t)hi * lim + 5; hi += ref.N - 1; g_must_fail = true; } // takes more space than a park offers
		P.push_back(p); KEY.push_back(knob_case == 7 && i == 1 ? vp_sym("key", 32) : 100 + 7 * i);
	}
	
	RefPark rp(k, knob_table, kEntriesPerPark, kMaxAverageDeltaTable1, kMaxAverageDelta);
	if(knob_case == 8) for(int b = 0; b < n; b += kEntriesPerPark) {
		std::vector<uint8_t> d; for(int i = b + 1; i < n && i < b + (int)kEntriesPerPark; ++i) d.push_back((uint8_t)((P[i] - P[i - 1]) >> sb));
		if(d.empty()) continue;
		std::vector<uint8_t> o(d.size() * 8 + 64); size_t sz = Encoding::ANSEncodeDeltas(d, RV[knob_table], o.data()); if(!sz) sz = d.size();
		const int64_t room = (int64_t)rp.room() - (int64_t)sz - 2;
		if(room < 0) g_must_fail = true;
		if(room == -1) vp_cover("one-over"); if(room == 0) vp_cover("exact");
	}
	// points of a few key bits come as many blocks
	int bits = 2 * k - 1; if(knob_logb > 1) { bits = sb + 1; while(hi >> (bits - sb)) bits++; }
	DiskSortLP R(bits, knob_logb, "t/r", false); DiskSortNP L(k, 1, "t/l", false);
	for(int i = 0; i < n; ++i) { const int j = (i + n / 2) % n; entry_lp e; e.point = (uintlp_t)P[j]; e.key = (uintkx_t)KEY[j]; R.add(e); }
	R.finish();
	g_read_chunk_size = entry_lp::disk_size * knob_rchunk;
	const uint64_t begin = 37 + (uint64_t)knob_base * 1234567891; uint64_t end = 0, written = 0;
	{ uint8_t pre[37]; for(int i = 0; i < 37; ++i) pre[i] = 0xa0 + i; vpfs_create(FN, pre, 37); }
	FILE* f = vpfs_fopen(FN, "rb+"); bool err = false;
	if(g_must_fail) vp_allow_abort(1);
	try { written = compute_stage2(knob_table, k, knob_threads, &R, &L, f, begin, &end); } catch(const std::exception&) { err = true; }
	if(g_must_fail) { vp_assert(err, "points that do not fit the format are reported"); vp_cover("refused"); return; }
	vp_assert(!err, "points that fit are accepted");
	vpfs_fclose(f);
	int m = n;
#if !defined(REAL) && defined(PM)
	if(m > (1 << PM)) m = 1 << PM;
#endif
	const uint64_t parks = (m + kEntriesPerPark - 1) / kEntriesPerPark;
	vp_assert(end == begin + parks * rp.size, "the next table begins behind the last park");
	vp_assert(written == (uint64_t)m, "number of entries written");
	vp_assert(vpfs_size(FN) == (int64_t)(m ? end : 37), "the file ends with the last park");
	bool pre = true; for(int i = 0; i < 37; ++i) pre &= vpfs_byte(FN, i) == ((0xa0 + i) & 255); vp_assert(pre, "bytes before the table stay");
	bool ok = true;
	for(uint64_t i = 0; i < parks; ++i) {
		const int cnt = (int)std::min<uint64_t>(kEntriesPerPark, m - i * kEntriesPerPark);
		const std::vector<uint128_t> q = rp.read(FN, begin + i * rp.size, cnt, ref);
		vp_assert(!rp.bad, "park is well formed");
		for(int j = 0; j < cnt; ++j) { const bool eq = q[j] == P[i * kEntriesPerPark + j]; if(m <= 64) vp_assert(eq, "the parks decode to the sorted line points"); else ok &= eq; }
	}
	vp_assert(ok, "the parks decode to the sorted line points");
	g_read_chunk_size = 64; CN c; L.read(&c, 1, 1);
	vp_assert((int)c.e.size() == m, "one new position per entry");
	bool lok = (int)c.e.size() == m; if(lok) for(int i = 0; i < m; ++i) { int hit = 0, want = 0; if(m > 64) { hit = c.e[i].key == (uintkx_t)KEY[i] && c.e[i].pos == (uintkx_t)i; want = 1; } else { for(int j = 0; j < m; ++j) { hit += ((c.e[j].key == (uintkx_t)KEY[i]) & (c.e[j].pos == (uintkx_t)i)) ? 1 : 0; } want = 1; } lok &= hit == want; }
	vp_assert(lok, "each entry's new position is its rank");
	vp_observe(end, "end"); vp_observe(vpfs_byte(FN, end ? end - 1 : 0), "last"); vp_cover("decoded");
}
