// C06: find_matches against the definition of matching.
#include <vp.h>
#include <chia/chia.h>
#ifdef SCALED
#define kB 3
#define kC 5
#define kBC 15
#define kExtraBitsPow 2
#endif
#include <chia/phase1.hpp>
using namespace phase1;
extern "C" { int knob_case = 0; int knob_nl = 2; int knob_nr = 2; int knob_g = 0; int knob_step = 97; int knob_from = 0; int knob_pos = 0; int knob_conc = 1; }
extern "C" { void blake3_hasher_init(blake3_hasher*) {} void blake3_hasher_update(blake3_hasher*, const void*, size_t) {} void blake3_hasher_finalize(const blake3_hasher*, uint8_t*, size_t) {}
void chacha8_keysetup(struct chacha8_ctx*, const uint8_t*, uint32_t, const uint8_t*) {} void chacha8_get_keystream(const struct chacha8_ctx*, uint64_t, uint32_t, uint8_t*) {} }
static bool matches(uint64_t par, uint8_t rl, uint8_t rr) // residues of two adjacent groups, rr concrete
{
	const uint8_t C = kC, B = kB; bool any = false;
	for(uint8_t x = 0; x < kBC; ++x) for(uint8_t m = 0; m < kExtraBitsPow; ++m)
		if((B + rr / C - x / C) % B == m && (C + rr % C - x % C) % C == (2 * m + par) * (2 * m + par) % C) any |= rl == x;
	return any;
}
static const uint64_t G[6] = {0, 1, 6, 7, 18187679 / 2, ((1ull << 38) - 1) / kBC - 1};
typedef entry_1 E;
static E mk(uint64_t y, uint64_t x) { E e; e.y = y; e.x = x; return e; }
static uint64_t sorted_r(uint64_t lo, const char* n) { const uint64_t r = vp_sym(n, 6); vp_assume(r >= lo && r < kBC); return r; }
static void check(FxMatcher<E>& M, uint64_t g, const std::vector<E>& L, const std::vector<E>& R, const std::vector<uint8_t>& LR, uint64_t base)
{
	std::vector<match_t<E>> out; match_t<E> old; old.pos = 4711; old.off = 3; out.push_back(old);
	M.find_matches(base, L, R, out);
	vp_assert(out[0].pos == 4711 && out[0].off == 3, "earlier results are kept");
	size_t want = 0; bool ok = true, uniq = true;
	for(size_t l = 0; l < L.size(); ++l) for(size_t r = 0; r < R.size(); ++r) {
		const bool rep = ((base + l) >> PMAX) == 0; const bool m = rep & matches(g % 2, LR[l], R[r].y % kBC);
		int c = 0; for(size_t i = 1; i < out.size(); ++i) c += ((out[i].left.x == L[l].x) & (out[i].right.x == R[r].x)) ? 1 : 0;
		ok &= (c == 1) == m; uniq &= c <= 1; want += m ? 1 : 0;
	}
	vp_assert(ok & uniq, "exactly the matching pairs are reported, each once");
	vp_assert(out.size() == want + 1, "nothing else is reported");
	for(size_t i = 1; i < out.size(); ++i) {
		const size_t l = vp_concretize(out[i].left.x) & 15, r = (vp_concretize(out[i].right.x) - 100) & 15;
		vp_assert((out[i].pos == (uintkx_t)(base + l)) & (out[i].off == L.size() - l + r), "position and distance of a pair");
		vp_assert((out[i].left.y == L[l].y) & (out[i].right.y == R[r].y), "a pair carries its entries");
		vp_cover("match");
	}
	vp_observe(out.size(), "found");
}
static void sym_case()
{
	initialize();
	FxMatcher<E> M; const int rounds = knob_case == 1 ? 2 : 1;
	for(int q = 0; q < rounds; ++q) {
		const uint64_t g = G[(knob_g + q * 3) % 6];
		std::vector<E> L, R; std::vector<uint8_t> LR; uint64_t lo = 0;
		const int nl = q + 1 < rounds ? 1 : knob_nl, nr = q + 1 < rounds ? 2 : knob_nr;
		for(int i = 0; i < nl; ++i) { uint64_t r = q + 1 < rounds ? 0 : sorted_r(lo, "l"); lo = r; if(!i || knob_conc) r = vp_concretize(r); lo = r; L.push_back(mk(g * kBC + r, i)); LR.push_back(r); }
		lo = 0;
		for(int i = 0; i < nr; ++i) { uint64_t r = vp_concretize(sorted_r(lo, "r")); lo = r; R.push_back(mk((g + 1) * kBC + r, 100 + i)); }
		check(M, g, L, R, LR, knob_pos == 1 ? (1ull << PMAX) - 1 : 1000 * q + 5);
	}
}
static void real_case() // the real constants: left residues x every right residue
{
	initialize();
	vp_assert(kB == 119 && kC == 127 && kBC == 15113 && kExtraBitsPow == 64 && kExtraBits == 6, "parameters of the proof of space construction");
	FxMatcher<E> M;
	for(int par = 0; par < 2; ++par) for(uint64_t r0 = knob_from; r0 < kBC; r0 += 236ull * knob_step) {
		const uint64_t g = 2 * 777 + par; std::vector<E> L, R;
		for(int i = 0; i < 236 && r0 + (uint64_t)i * knob_step < kBC; ++i) L.push_back(mk(g * kBC + r0 + (uint64_t)i * knob_step, i));
		for(uint64_t r = 0; r < kBC; ++r) R.push_back(mk((g + 1) * kBC + r, r));
		std::vector<match_t<E>> out; M.find_matches(0, L, R, out);
		vp_assert(out.size() == L.size() * 64, "every left entry has 64 targets");
		std::vector<uint64_t> seen(L.size()); bool ok = true;
		for(auto& m : out) {
			const uint64_t rl = m.left.y % kBC, rr = m.right.y % kBC, mm = (119 + rr / 127 - rl / 127) % 119;
			ok &= mm < 64 && (127 + rr % 127 - rl % 127) % 127 == ((2 * mm + par) * (2 * mm + par)) % 127 && m.left.x < L.size();
			if(ok) seen[m.left.x] |= 1ull << mm;
		}
		for(auto s : seen) ok &= s == ~0ull;
		vp_assert(ok, "the targets are those of the definition");
	}
	vp_cover("match");
}
static void many_case() // more matches than one pair of groups can take: all of them, or an error
{
	initialize(); FxMatcher<E> M; const uint64_t g = G[knob_g]; std::vector<E> L, R; const uint64_t r = vp_concretize(sorted_r(0, "l")), p = g % 2, m = vp_choice(kExtraBitsPow, "m");
	const uint64_t t = (r / kC + m) % kB * kC + ((2 * m + p) * (2 * m + p) + r) % kC;
	for(int i = 0; i < knob_nl; ++i) L.push_back(mk(g * kBC + r, i)); for(int i = 0; i < knob_nr; ++i) R.push_back(mk((g + 1) * kBC + t, 100 + i));
	std::vector<match_t<E>> out; bool err = false; try { M.find_matches(7, L, R, out); } catch(const std::exception&) { err = true; }
	if(err) { vp_assert(knob_nl * knob_nr > kBC, "an error only when there are too many matches"); vp_cover("refused"); return; }
	vp_assert((int)out.size() == knob_nl * knob_nr, "every pair is reported"); vp_cover("match");
}
extern "C" void vp_main() { if(knob_case == 3) many_case(); else if(knob_case == 2) real_case(); else sym_case(); }
