// C13: bitfield and its rank index.
#include <vp.h>
#include <chia/chia.h>
#include <chia/bitfield_index.hpp>
#include <thread>
extern "C" { int knob_case = 0; int knob_size = 200; int knob_fill = 0; int knob_set = 0; }
static uint64_t g_sym_pos[24]; static int g_ns; static bool g_b[24];
static bool ref_bit(uint64_t p) { for(int i = 0; i < g_ns; ++i) if(g_sym_pos[i] == p) return g_b[i]; return knob_fill == 1 ? true : knob_fill == 2 ? p % 3 == 0 : false; }
static uint64_t ref_rank(uint64_t p) { uint64_t c = 0; for(uint64_t j = 0; j < p; ++j) { bool s = false; for(int i = 0; i < g_ns; ++i) s |= g_sym_pos[i] == j; if(!s) c += knob_fill == 1 ? 1 : knob_fill == 2 ? j % 3 == 0 : 0; } for(int i = 0; i < g_ns; ++i) if(g_sym_pos[i] < p) c += g_b[i] ? 1 : 0; return c; }
static void pick_positions(uint64_t n)
{
	const uint64_t c0[] = {0, 1, 62, 63, 64, 65, 127, 128, 190, n - 1, n / 2, 130};
	const uint64_t c1[] = {1022, 1023, 1024, 1025, 1087, 1088, 2047, 2048, 2049, n - 1, n - 2, 960};
	const uint64_t c2[] = {0, 63, 64, 1023, 1024, 1151, 1152, 2111, n - 1, 500, 1500, 2000};
	const uint64_t* c = knob_set == 0 ? c0 : knob_set == 1 ? c1 : c2;
	for(int i = 0; i < 12; ++i) { bool dup = c[i] >= n; for(int j = 0; j < g_ns; ++j) dup |= g_sym_pos[j] == c[i]; if(!dup) g_sym_pos[g_ns++] = c[i]; }
	for(int i = 0; i < g_ns; ++i) g_b[i] = vp_sym("bit", 1);
}
static void load(bitfield& b, uint64_t n)
{
	const size_t bytes = (n + 63) / 64 * 8; uint8_t* d = new uint8_t[bytes]; memset(d, 0, bytes);
	for(uint64_t j = 0; j < n; ++j) { bool s = false; for(int i = 0; i < g_ns; ++i) s |= g_sym_pos[i] == j; if(!s && ref_bit(j)) d[j / 8] |= 1 << (j % 8); }
	for(int i = 0; i < g_ns; ++i) d[g_sym_pos[i] / 8] |= (uint8_t)(g_b[i] ? 1 : 0) << (g_sym_pos[i] % 8);
	vpfs_create("bits", d, bytes);
	FILE* f = fopen("bits", "rb"); b.read(f); fclose(f);
}
extern "C" void vp_main()
{
	const uint64_t n = knob_size;
	if(knob_case == 0) { // rank
		pick_positions(n);
		bitfield b(n); load(b, n);
		vp_assert(b.size() >= (int64_t)n && b.size() < (int64_t)n + 64, "size is rounded up to words");
		const bitfield_index idx(b);
		const int i = vp_choice(g_ns, "pos"), j = vp_choice(g_ns, "pos2");
		const uint64_t p = g_sym_pos[i], q = g_sym_pos[j];
		if(q < p || q - p >= 1024) vp_end();
		vp_assume(g_b[i]); vp_assume(g_b[j]);
		auto r = idx.lookup(p, q - p);
		vp_assert(r.first == ref_rank(p), "a kept entry moves to the number of kept entries before it");
		vp_assert(r.second == ref_rank(q) - ref_rank(p), "the distance of a pair becomes the number of kept entries between them");
		vp_cover("lookup");
	} else if(knob_case == 1) { // single threaded use
		bitfield b(n);
		for(uint64_t i = 0; i < n; ++i) vp_assert(!b.get(i), "initially empty");
		const uint64_t p = vp_concretize(vp_range("p", 16, 0, n - 1)), q = vp_concretize(vp_range("q", 16, p < 70 ? p : p - 70, p + 70 < n ? p + 70 : n - 1));
		b.set(p); b.set(q);
		bool ok = true; for(uint64_t i = 0; i < n; ++i) ok &= b.get(i) == (i == p || i == q);
		vp_assert(ok, "exactly the bits that were set read as set");
		uint64_t cnt = 0; for(uint64_t e = 0; e <= n; ++e) { ok &= (uint64_t)b.count(0, e) == cnt; if(e < n) cnt += b.get(e); }
		vp_assert(ok, "count is the number of set bits in the range");
		bitfield c(n); c.swap(b);
		vp_assert(c.get(p) && !b.get(p), "swap exchanges the contents");
		FILE* f = fopen("bits", "wb"); c.write(f); fclose(f); f = fopen("bits", "rb"); b.read(f); fclose(f);
		for(uint64_t i = 0; i < n; ++i) ok &= b.get(i) == (i == p || i == q);
		vp_assert(ok, "writing and reading back keeps the contents");
		b.clear(); for(uint64_t i = 0; i < n; ++i) ok &= !b.get(i);
		vp_assert(ok, "clear empties it");
		vp_cover("single");
	} else if(knob_case == 2) { // concurrent set
		bitfield b(128);
		const int p[4] = {3, (int)vp_choice(2, "p") * 61 + 2, 5, (int)vp_choice(2, "q") * 64 + 3};
		std::thread t([&]() { b.set(p[0]); b.set(p[1]); });
		b.set(p[2]); b.set(p[3]);
		t.join();
		bool ok = true; for(int i = 0; i < 128; ++i) ok &= b.get(i) == (i == p[0] || i == p[1] || i == p[2] || i == p[3]);
		vp_assert(ok, "marks set by several threads at once are all kept");
		vp_cover("concurrent");
	}
}
