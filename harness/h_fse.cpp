// C17: delta compression against an independent decoder.
#include <vp.h>
#include <chia/chia.h>
#include <chia/util.hpp>
#include <chia/encoding.hpp>
#include "ref_fse.h"
extern "C" { int knob_table = 1; int knob_case = 0; int knob_n = 3; int knob_warm = 0; }
#include <thread>
static uint32_t g_rng = 12345;
static double r_of(int t) { static const double R[8] = {0, 4.7, 2.75, 2.75, 2.7, 2.6, 2.45, 1.0}; return R[t]; }
static uint8_t geo(int t) { g_rng = g_rng * 1664525 + 1013904223; uint32_t v = g_rng >> 12; int d = 0; while(v % 16 < (t == 7 ? 6 : 11) && d < 40) { d++; v /= 3; g_rng = g_rng * 1664525 + 1013904223; v ^= g_rng >> 10; } return d; }
static uint8_t any_sym(int N) { const uint64_t v = vp_sym("delta", 8); vp_assume(v < (uint64_t)N); return (uint8_t)vp_concretize(v); }
extern "C" void vp_main()
{
	const double R = r_of(knob_table); RefFse ref(R); const int n = knob_n;
	if(knob_warm != 1 && knob_case != 6) { std::vector<uint8_t> w(4, 1); std::vector<uint8_t> o(64); Encoding::ANSEncodeDeltas(w, R, o.data()); Encoding::ANSDecodeDeltas(o.data(), Encoding::ANSEncodeDeltas(w, R, o.data()), 4, R); } // build the tables once
	for(int i = 1; knob_warm && i < 8; ++i) { const int t = knob_warm == 1 ? i : 8 - i; if(t == knob_table) continue; // tables of all other kinds were used before and since
		std::vector<uint8_t> w(4, 1), o(64); const size_t z = Encoding::ANSEncodeDeltas(w, r_of(t), o.data()); vp_assert(z && Encoding::ANSDecodeDeltas(o.data(), z, 4, r_of(t)) == w, "decoding returns the same deltas (other table)"); }
	if(knob_case == 6) { // several threads use tables, all new or partly the same ones
		const int T = 2; RefFse ra(R), rb(2.45); std::vector<uint8_t> in[T], out[T]; size_t sz[T] = {}; double Rs[T]; bool er[T] = {};
		for(int i = 0; i < T; ++i) { Rs[i] = i == 0 || vp_choice(2, "same table") ? R : 2.45; in[i].resize(n); for(auto& x : in[i]) x = geo(1); out[i].resize(n * 8); }
		{ std::vector<std::thread> th; for(int i = 0; i < T; ++i) th.emplace_back([&, i]() { try { sz[i] = Encoding::ANSEncodeDeltas(in[i], Rs[i], out[i].data()); if(!sz[i] || (knob_warm && Encoding::ANSDecodeDeltas(out[i].data(), sz[i], n, Rs[i]) != in[i])) er[i] = true; } catch(const std::exception&) { er[i] = true; } }); for(auto& t : th) t.join(); }
		for(int i = 0; i < T; ++i) { RefFse& r2 = Rs[i] == R ? ra : rb; vp_assert(!er[i], "threads at the same time: decoding returns the same deltas"); vp_assert(r2.decode(out[i].data(), sz[i], n) == in[i], "threads at the same time: an independent decoder returns the same deltas"); }
		vp_cover("concurrent"); return;
	}
	if(knob_warm == 1) { std::vector<uint8_t> w(4, 1), o(64); Encoding::ANSDecodeDeltas(o.data(), Encoding::ANSEncodeDeltas(w, R, o.data()), 4, R); }
	std::vector<uint8_t> d(n);
	if(knob_case == 0) { for(auto& x : d) x = any_sym(ref.N); } // every sequence
	if(knob_case == 1) { for(int i = 0; i < n; ++i) d[i] = geo(knob_table); const int p = vp_choice(n < 8 ? n : 8, "where"); d[n < 8 ? p : p * (n - 1) / 7] = any_sym(ref.N); } // one arbitrary delta in a typical sequence
	if(knob_case == 2) { const uint8_t S[5] = {0, 1, 2, (uint8_t)(ref.N / 2), (uint8_t)(ref.N - 1)}; for(auto& x : d) x = S[vp_choice(5, "class")]; }
	if(knob_case == 4) { for(int i = 0; i < n; ++i) d[i] = geo(knob_table); const int p = n / 2; d[p] = any_sym(ref.N); d[p - 1] = any_sym(ref.N); } // two arbitrary neighbours
	if(knob_case == 5) { const uint8_t a = any_sym(ref.N), b = (uint8_t)vp_choice(3, "other"); for(int i = 0; i < n; ++i) d[i] = i % (b + 1) ? 0 : a; } // one value over and over
	bool unrep = false;
	if(knob_case == 3) { for(int i = 0; i < n; ++i) d[i] = geo(knob_table); const uint64_t v = vp_sym("delta", 8); vp_assume(v >= (uint64_t)ref.N); d[vp_choice(n < 8 ? n : 8, "where")] = (uint8_t)vp_concretize(v); unrep = true; } // not in the table
	std::vector<uint8_t> out(n * 8); size_t sz = 0; bool err = false;
	const std::vector<uint8_t> copy = d;
	try { sz = Encoding::ANSEncodeDeltas(d, R, out.data()); } catch(const std::exception&) { err = true; }
	if(unrep) { vp_assert(err || sz == 0, "a delta that has no code is refused"); vp_cover("refused"); return; }
	vp_assert(!err, "every delta with a code is accepted");
	vp_assert(d == copy, "the input is left alone");
	if(sz == 0) { vp_assert(n <= 2, "only very short sequences are left uncompressed"); vp_cover("raw"); return; }
	vp_assert(sz <= (size_t)n * 8, "the output stays within its buffer");
	const std::vector<uint8_t> back = ref.decode(out.data(), sz, n);
	vp_assert(!ref.bad && back == copy, "an independent decoder returns the same deltas");
	vp_assert(Encoding::ANSDecodeDeltas(out.data(), sz, n, R) == copy, "decoding returns the same deltas");
	vp_observe(sz, "size"); vp_observe(out[sz - 1], "last"); vp_cover("roundtrip");
}
