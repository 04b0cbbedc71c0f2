// C04: table 1 values: y(x) = bits [xk, xk+k) of the key stream of the plot id, followed by the top 6 bits of x;
// every x exactly once. The key stream generator is a stand-in here (arbitrary bytes per block); h_chacha decides it.
#include <vp.h>
#include <chia/phase1.hpp>
extern "C" { int knob_case = 0; int knob_k = 32; int knob_threads = 1; }
extern "C" { void blake3_hasher_init(blake3_hasher*) {} void blake3_hasher_update(blake3_hasher*, const void*, size_t) {} void blake3_hasher_finalize(const blake3_hasher*, uint8_t*, size_t) {} }
static uint8_t g_id[32]; static bool g_bulk = false; static int g_keyed = 0;
static struct { uint64_t pos; uint8_t b[64]; } g_ks[8]; static int g_nks = 0;
static uint8_t* block_of(uint64_t pos)
{
	for(int i = 0; i < g_nks; ++i) if(g_ks[i].pos == pos) return g_ks[i].b;
	vp_assert(g_nks < 8, "at most 4 key stream blocks per call");
	g_ks[g_nks].pos = pos; for(auto& x : g_ks[g_nks].b) x = vp_sym("ks", 8);
	return g_ks[g_nks++].b;
}
static inline uint8_t bulk_byte(uint64_t pos, int i) { return (uint8_t)((pos * 64 + i) * 0x9E3779B1u >> 11); }
extern "C" void chacha8_keysetup(struct chacha8_ctx* x, const uint8_t* k, uint32_t kbits, const uint8_t* iv)
{
	bool ok = k[0] == 1; for(int i = 0; i < 31; ++i) ok &= k[i + 1] == g_id[i];
	vp_assert(ok && kbits == 256, "the key is the byte 1 followed by the first 31 bytes of the plot id");
	if(iv) { for(int i = 0; i < 8; ++i) ok &= iv[i] == 0; vp_assert(ok, "zero nonce"); }
	g_keyed++; x->input[0] = 77;
}
extern "C" void chacha8_get_keystream(const struct chacha8_ctx* x, uint64_t pos, uint32_t n, uint8_t* c)
{
	vp_assert(x->input[0] == 77, "key is set up before use");
	if(g_bulk) { for(uint32_t j = 0; j < n; ++j) for(int i = 0; i < 64; ++i) *c++ = bulk_byte(pos + j, i); return; }
	for(uint32_t j = 0; j < n; ++j) { uint8_t* b = block_of(pos + j); for(int i = 0; i < 64; ++i) *c++ = b[i]; }
}
// sort stand-in: records every entry
struct Sink {
	struct WriteCache { Sink* s; void add(const phase1::entry_1& e) { s->add(e); } void flush() {} };
	std::vector<uint8_t> seen; bool ok_y = true, ok_x = true, finished = false; int k;
	std::shared_ptr<WriteCache> add_cache() { auto c = std::make_shared<WriteCache>(); c->s = this; return c; }
	void add(const phase1::entry_1& e) {
		if(e.x >= seen.size() || finished) { ok_x = false; return; }
		seen[e.x]++;
		const uint64_t bit = (uint64_t)e.x * k; uint64_t v = 0;
		for(uint64_t i = bit / 8; i <= (bit + k - 1) / 8; ++i) v = (v << 8) | bulk_byte(i / 64, i % 64);
		v >>= 7 - (bit + k - 1) % 8; v &= (1ull << k) - 1;
		ok_y &= e.y == ((v << 6) | (e.x >> (k - 6)));
	}
	void finish() { finished = true; }
};
extern "C" void vp_main()
{
	const int k = knob_k;
	if(knob_case == 2) { // the whole table through the real pipeline, k small
		g_bulk = true; for(int i = 0; i < 32; ++i) g_id[i] = i * 7;
		Sink s; s.k = k; s.seen.resize(1ull << k);
		phase1::compute_f1(g_id, k, knob_threads, &s);
		bool once = true; for(auto c : s.seen) once &= c == 1;
		vp_assert(s.ok_x && once, "table 1 contains every x exactly once");
		vp_assert(s.ok_y, "every entry of table 1 carries the value of its x");
		vp_assert(s.finished, "the table is handed over for sorting");
		vp_cover("table");
		return;
	}
	for(auto& b : g_id) b = vp_sym("id", 8);
	const uint64_t last = ((uint64_t(1) << k) / 16) - 1;
	const uint64_t groups[] = {0, 1, 2, 3, 5, 7, 8, 15, 16, 31, 32, 255, 256, 4095, 4096, last / 2, last / 2 + 1, last - 1, last, 12345 % (last + 1), last / 3, last / 7 * 5};
	const uint64_t x0 = groups[vp_choice(sizeof(groups) / 8, "group")] * 16;
	phase1::entry_1 out[16];
	vp_uninit(out, sizeof(out));
	phase1::F1Calculator F1(k, g_id);
	if(knob_case == 1) { phase1::entry_1 tmp[16]; F1.compute_block(last / 4 * 16, 16, tmp); g_nks = 0; }	// results do not depend on earlier calls
	F1.compute_block(x0, 16, out);
	bool okx = true, oky = true;
	for(int i = 0; i < 16; ++i) {
		const uint64_t x = x0 + i, bit = x * k; uint64_t v = 0;
		for(int j = 0; j < k; ++j) v |= (uint64_t)((block_of((bit + j) / 512)[(bit + j) % 512 / 8] >> (7 - (bit + j) % 8)) & 1) << (k - 1 - j);
		okx &= out[i].x == x;
		oky &= out[i].y == ((v << 6) | (x >> (k - 6)));
		vp_observe(out[i].y, "y");
	}
	vp_assert(okx, "every x value of the block is present, in order");
	vp_assert(oky, "y is the key stream slice of x followed by the top bits of x");
	vp_assert(g_keyed == 1, "one key setup");
	vp_cover("block");
}
