// C05: f2..f7 and collated metadata, against a bit-by-bit reference. BLAKE3 is a stand-in: its input is
// compared with the reference, its output is arbitrary (every 256-bit value).
#include <vp.h>
#include <chia/phase1.hpp>
using namespace phase1;
extern "C" { int knob_k = 32; int knob_table = 2; }
struct BS { uint8_t b[96]; size_t n = 0; }; // bit string, msb first
static void push(BS& s, uint64_t v, int bits) { for(int i = bits - 1; i >= 0; --i) { if(s.n % 8 == 0) s.b[s.n / 8] = 0; s.b[s.n / 8] |= (uint8_t)((v >> i) & 1) << (7 - s.n % 8); s.n++; } }
static void push(BS& s, const BS& o) { for(size_t i = 0; i < o.n; ++i) push(s, (o.b[i / 8] >> (7 - i % 8)) & 1, 1); }
static uint64_t bits_of(const uint8_t* h, size_t off, int n) { uint64_t v = 0; for(int i = 0; i < n; ++i) v = (v << 1) | ((h[(off + i) / 8] >> (7 - (off + i) % 8)) & 1); return v; }
static uint8_t g_in[256]; static size_t g_len; static int g_calls; static uint8_t g_out[32]; static bool g_init;
extern "C" {
void blake3_hasher_init(blake3_hasher*) { g_init = true; g_len = 0; }
void blake3_hasher_update(blake3_hasher*, const void* p, size_t n) { vp_assert(g_init, "hash state is initialized"); for(size_t i = 0; i < n; ++i) g_in[g_len++ & 255] = ((const uint8_t*)p)[i]; }
void blake3_hasher_finalize(const blake3_hasher*, uint8_t* o, size_t n) { g_calls++; vp_assert(n <= 32, "at most one hash block is requested"); for(size_t i = 0; i < 32; ++i) g_out[i] = vp_sym("h", 8); for(size_t i = 0; i < n; ++i) o[i] = g_out[i]; }
}
template<typename T> struct Ref { T e; uint64_t y; BS meta; };
static const int LEN[8] = {0, 1, 2, 4, 4, 3, 2, 0}; // metadata, in units of k bits
template<typename T> static void reload(T& e) { uint8_t buf[T::disk_size]; vp_uninit(buf, sizeof buf); e.write(buf); T o; vp_uninit(&o, sizeof o); o.read(buf); e = o; }
static Ref<entry_1> leaf() { Ref<entry_1> r; r.e.y = r.y = vp_sym("y", knob_k + 6); r.e.x = vp_sym("x", knob_k); push(r.meta, r.e.x, knob_k); reload(r.e); return r; }
template<typename T, typename S> static Ref<S> eval(int t, const Ref<T>& L, const Ref<T>& R, bool check)
{
	const int k = knob_k; Ref<S> o; vp_uninit(&o.e, sizeof o.e); o.e.pos = 5; o.e.off = 6;
	FxCalculator<T, S> F(k, t);
	const int calls = g_calls;
	F.evaluate(L.e, R.e, o.e);
	vp_assert(g_calls == calls + 1, "one hash per pair");
	BS in; push(in, L.y, k + 6); push(in, L.meta); push(in, R.meta);
	if(check) {
		vp_assert(g_len == (in.n + 7) / 8, "hash input length");
		for(size_t i = 0; i < (in.n + 7) / 8; ++i) vp_assert(g_in[i] == in.b[i], "the hash input is left y, left metadata, right metadata");
	}
	o.y = bits_of(g_out, 0, k + (t < 7 ? 6 : 0));
	if(check) vp_assert(o.e.y == o.y, "y is the leading bits of the hash");
	if(t < 4) { push(o.meta, L.meta); push(o.meta, R.meta); }
	else if(t < 7) for(int i = 0; i < LEN[t] * k; ++i) push(o.meta, bits_of(g_out, k + 6 + i, 1), 1);
	reload(o.e);
	vp_assert(o.e.pos == 5 && o.e.off == 6, "position and offset are left alone");
	if(check) { vp_assert(o.e.y == o.y, "y is the leading bits of the hash"); vp_observe(o.e.y, "y"); vp_observe(g_in[g_len - 1], "in"); vp_cover("evaluated"); }
	return o;
}
typedef Ref<entry_1> R1; typedef Ref<entry_2> R2; typedef Ref<entry_3> R3; typedef Ref<entry_4> R4; typedef Ref<entry_5> R5; typedef Ref<entry_6> R6;
static R2 e2(bool c = false) { auto a = leaf(), b = leaf(); return eval<entry_1, entry_2>(2, a, b, c); }
static R3 e3(bool c = false) { auto a = e2(), b = e2(); return eval<entry_2, entry_3>(3, a, b, c); }
static R4 e4(bool c = false) { auto a = e3(), b = e3(); return eval<entry_3, entry_4>(4, a, b, c); }
static R5 e5(bool c = false) { auto a = e4(), b = e4(); return eval<entry_4, entry_5>(5, a, b, c); }
static R6 e6(bool c = false) { auto a = e5(), b = e5(); return eval<entry_5, entry_6>(6, a, b, c); }
extern "C" void vp_main()
{
	switch(knob_table) {
	case 2: e2(true); break; case 3: e3(true); break; case 4: e4(true); break; case 5: e5(true); break; case 6: e6(true); break;
	case 7: { auto a = e6(), b = e6(); eval<entry_6, entry_7>(7, a, b, true); break; }
	}
}
