// C18 (and the phase 4 part of C19): P7, C1, C2, C3 read back by an independent reader.
#include <vp.h>
#include <chia/chia.h>
#ifndef REAL
#ifndef EPP
#define EPP 4
#endif
#ifndef C1I
#define C1I 5
#endif
#ifndef C2I
#define C2I 2
#endif
#ifndef C3B
#define C3B 64.0
#endif
#define kEntriesPerPark EPP
#define kCheckpoint1Interval C1I
#define kCheckpoint2Interval C2I
#define kC3BitsPerEntry C3B
#endif
#include <chia/DiskSort.hpp>
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#include "ref_fse.h"
#include "ref_park.h"
using namespace phase3;
size_t g_read_chunk_size = 64, g_write_chunk_size = 64;
extern "C" { int knob_case = 0; int knob_n = 5; int knob_k = 32; int knob_threads = 1; int knob_rchunk = 3; int knob_base = 0; int knob_logb = 1; }
static const char* FN = "t/plot";
static uint32_t g_rng = 99;
static uint32_t rnd() { g_rng = g_rng * 1664525 + 1013904223; return g_rng >> 8; }
static uint64_t be(uint64_t at, int n) { uint64_t v = 0; for(int i = 0; i < n; ++i) v = v << 8 | (uint8_t)vpfs_byte(FN, at + i); return v; }
extern "C" void vp_main()
{
	const int k = knob_k, n = knob_n; bool must_fail = false;
	RefFse ref(1.0);
	{ std::vector<uint8_t> w(4, 1), o(64); Encoding::ANSEncodeDeltas(w, kC3R, o.data()); }
	std::vector<uint64_t> Y, P; uint64_t y = knob_logb > 1 ? 3 : 1000;
	if(knob_case == 0) { y = vp_sym("y0", k - 2); vp_assume(y < ((uint64_t)1 << (k - 2)) - 5000); }
	int brim = 0, big = 0;
	if(knob_case == 7) { static const int bg[5] = {1, 3, 6, 20, 110}; brim = (int)vp_choice(kCheckpoint1Interval, "brim"); big = bg[vp_choice(5, "big")]; }
	for(int i = 0; i < n; ++i) {
		Y.push_back(y);
		P.push_back(knob_case == 3 ? rnd() % (1u << (k < 24 ? k : 24)) : knob_case == 0 || i == n / 2 ? vp_sym("pos", k == 32 ? 32 : k + 1) : 500 + 3 * i);
		int d = 0;
		if(knob_case == 0) { static const int st[5] = {0, 1, 0, 2, 1}; d = st[i % 5]; }
		if(knob_case == 1) { d = i % 2; if(i == n / 2 - 1) { const uint64_t v = vp_sym("gap", 8); vp_assume(v < (uint64_t)ref.N); d = (int)vp_concretize(v); } }
		if(knob_case == 2) { static const int st[4] = {0, 1, 60, 115}; d = st[vp_choice(4, "gap")]; }
		if(knob_case == 3) { uint32_t v = rnd(); while(v % 8 < 4 && d < 6) { d++; v /= 8; v ^= rnd(); } }
		if(knob_case == 4) { d = 1; if(i == 1) { const uint64_t v = vp_sym("gap", 12); vp_assume(v >= (uint64_t)ref.N); const bool c = v == (uint64_t)ref.N || v == 255 || v == 256 || v == 257 || v == 512; vp_assume(c); d = (int)vp_concretize(v); must_fail = true; } }
		if(knob_case == 5) { d = ref.N - 1; must_fail = true; }
		if(knob_case == 6) { d = i % 2; if((i + 1) % kCheckpoint1Interval == 0) d = 300 + (int)vp_choice(2, "large") * 5000; } // gaps at a checkpoint are not limited
		if(knob_case == 7) d = i % kCheckpoint1Interval < brim ? big : i % 2; // parks just below, at and just above the space there is
		y += d;
	}
	if(knob_case == 7) for(int b = 0; b < n; b += kCheckpoint1Interval) {
		std::vector<uint8_t> d; for(int i = b + 1; i < n && i < b + kCheckpoint1Interval; ++i) d.push_back((uint8_t)(Y[i] - Y[i - 1]));
		if(d.empty()) continue;
		std::vector<uint8_t> o(d.size() * 8 + 64); const int64_t room = ((int64_t)(kC3BitsPerEntry * kCheckpoint1Interval) + 7) / 8 - 2 - (int64_t)Encoding::ANSEncodeDeltas(d, kC3R, o.data());
		if(room < 0) must_fail = true;
		if(room == -1) vp_cover("one-over"); if(room == 0) vp_cover("exact");
	}
	// values of a few bits come as many blocks
	int bits = k; if(knob_logb > 1 && knob_case != 0) { bits = 1; while(y >> bits) bits++; }
	DiskSortNP L(bits, knob_logb, "t/l", false);
	for(int i = 0; i < n; ++i) { entry_np e; e.key = (uintkx_t)Y[i]; e.pos = (uintkx_t)P[i]; L.add(e); }
	L.finish();
	g_read_chunk_size = entry_np::disk_size * knob_rchunk;
	const int hs = 100, np = 140; const uint64_t p7 = np + (uint64_t)knob_base * 1234567891;
	{ std::vector<uint8_t> pre(np); for(int i = 0; i < np; ++i) pre[i] = 0xa0 ^ i; vpfs_create(FN, pre.data(), np); }
	FILE* f = vpfs_fopen(FN, "rb+"); bool err = false; uint64_t end = 0;
	if(must_fail) vp_allow_abort(1);
	try { end = phase4::compute(f, k, hs, &L, knob_threads, p7, n); } catch(const std::exception&) { err = true; }
	if(must_fail) { vp_assert(err, "y values that do not fit the format are reported"); vp_cover("refused"); return; }
	vp_assert(!err, "y values that fit are accepted");
	vpfs_fclose(f);
	const int yb = (k + 7) / 8; const uint64_t p7size = ((uint64_t)(k + 1) * kEntriesPerPark + 7) / 8, parks = n ? (n + kEntriesPerPark - 1) / kEntriesPerPark : 1;
	const uint64_t n1 = (n + kCheckpoint1Interval - 1) / kCheckpoint1Interval, n2 = (n1 + kCheckpoint2Interval - 1) / kCheckpoint2Interval;
	const uint64_t c1 = p7 + parks * p7size, c2 = c1 + (n1 + 1) * yb, c3 = c2 + (n2 + 1) * yb;
	const uint64_t c3bits = k < 20 ? (uint64_t)8 * kCheckpoint1Interval : (uint64_t)(kC3BitsPerEntry * kCheckpoint1Interval), c3size = (c3bits + 7) / 8;
	vp_assert(end == c3 + n1 * c3size, "reported end of the plot");
	vp_assert(be(hs - 24, 8) == c1 && be(hs - 16, 8) == c2 && be(hs - 8, 8) == c3, "pointers to C1, C2 and C3");
	bool pre = true; for(int i = 0; i < np; ++i) if(i < hs - 24 || i >= hs) pre &= vpfs_byte(FN, i) == ((0xa0 ^ i) & 255); vp_assert(pre, "other bytes stay");
	// entries of equal y may come in any order
	bool ok = true; std::vector<uint64_t> Q(n);
	for(int i = 0; i < n; ++i) Q[i] = RefPark::bits(FN, p7 + (i / kEntriesPerPark) * p7size, (uint64_t)(i % kEntriesPerPark) * (k + 1), k + 1);
	for(int i = 0; i < n;) { int j = i; while(j < n && Y[j] == Y[i]) ++j; for(int a = i; a < j; ++a) { int have = 0, want = 0; for(int b = i; b < j; ++b) { have += Q[b] == P[a] ? 1 : 0; want += P[b] == P[a] ? 1 : 0; } ok &= have == want; } i = j; }
	vp_assert(ok, "P7 holds the positions in y order");
	bool ok1 = true, ok2 = true, ok3 = true;
	for(uint64_t i = 0; i <= n1; ++i) ok1 &= be(c1 + i * yb, yb) == (i < n1 ? Y[i * kCheckpoint1Interval] << (8 * yb - k) : 0);
	for(uint64_t i = 0; i <= n2; ++i) ok2 &= be(c2 + i * yb, yb) == (i < n2 ? Y[i * kCheckpoint1Interval * kCheckpoint2Interval] << (8 * yb - k) : 0);
	vp_assert(ok1, "C1 holds every checkpoint and ends with zero"); vp_assert(ok2, "C2 holds every checkpoint of C1 and ends with zero");
	for(uint64_t i = 0; i < n1; ++i) {
		const int cnt = (int)std::min<uint64_t>(kCheckpoint1Interval, n - i * kCheckpoint1Interval) - 1;
		if(cnt == 0) continue; // nothing to store
		const uint64_t at = c3 + i * c3size; const uint32_t sz = (uint32_t)be(at, 2);
		if(cnt < 3) continue; // the format cannot hold fewer than 3 differences
		vp_assert(sz + 2 <= c3size, "C3 park fits");
		std::vector<uint8_t> raw; for(uint32_t j = 0; j < sz; ++j) raw.push_back((uint8_t)vpfs_byte(FN, at + 2 + j));
		const std::vector<uint8_t> del = ref.decode(raw.data(), raw.size(), cnt);
		if(ref.bad) { ok3 = false; continue; }
		for(int j = 0; j < cnt; ++j) ok3 &= (uint64_t)del[j] == Y[i * kCheckpoint1Interval + j + 1] - Y[i * kCheckpoint1Interval + j];
	}
	vp_assert(ok3, "C3 holds the y differences");
	vp_assert(vpfs_size(FN) >= (int64_t)c3 && vpfs_size(FN) <= (int64_t)end, "nothing is written behind the reported end");
	vp_observe(end, "end"); vp_cover("decoded");
}
