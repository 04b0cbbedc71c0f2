// C04: table 1 as a whole for large k: the thread pool is a stand-in which runs some of the jobs (first, last, some between), in place.
#include <vp.h>
#include <chia/chia.h>
#include <chia/DiskSort.hpp>
#include <chia/DiskTable.h>
#include <chia/Thread.h>
#include <chia/ThreadPool.h>
static uint64_t g_calls = 0, g_total = 0, g_pick[12]; static int g_np = 0;	// calls of the pool that computes
template<typename T, typename S, typename L = size_t>
class VpPool : public Processor<T> {
public:
	VpPool(const std::function<void(T&, S&, L&)>& f, Processor<S>* o, int n, const std::string& = "") : func(f), output(o), n(n), local(n < 1 ? 1 : n) { if(n < 1) throw std::logic_error("num_threads < 1"); }
	void take(T& d) override {
		if(output) { // results go on: the pool that computes
			const uint64_t c = g_calls++; bool run = false; for(int i = 0; i < g_np; ++i) run |= g_pick[i] == c;
			if(!run) return;
		}
		S out = S(); func(d, out, local[turn++ % local.size()]); if(output) output->take(out);
	}
	void wait() {} void close() {} size_t num_threads() const { return n; } L& get_local(size_t i) { return local[i]; }
private:
	std::function<void(T&, S&, L&)> func; Processor<S>* output; int n; std::vector<L> local; size_t turn = 0;
};
#define ThreadPool VpPool
#include <chia/phase1.hpp>
#undef ThreadPool
extern "C" { int knob_k = 32; int knob_threads = 1; }
extern "C" { void blake3_hasher_init(blake3_hasher*) {} void blake3_hasher_update(blake3_hasher*, const void*, size_t) {} void blake3_hasher_finalize(const blake3_hasher*, uint8_t*, size_t) {} }
static uint8_t g_id[32];
static inline uint8_t bulk_byte(uint64_t pos, int i) { return (uint8_t)((pos * 64 + i) * 0x9E3779B97F4A7C15ull >> 51); }
extern "C" void chacha8_keysetup(struct chacha8_ctx* x, const uint8_t* k, uint32_t kbits, const uint8_t*)
{
	bool ok = k[0] == 1; for(int i = 0; i < 31; ++i) ok &= k[i + 1] == g_id[i];
	vp_assert(ok && kbits == 256, "the key is the byte 1 followed by the first 31 bytes of the plot id"); x->input[0] = 77;
}
extern "C" void chacha8_get_keystream(const struct chacha8_ctx* x, uint64_t pos, uint32_t n, uint8_t* c)
{
	vp_assert(x->input[0] == 77, "key is set up before use");
	for(uint32_t j = 0; j < n; ++j) for(int i = 0; i < 64; ++i) *c++ = bulk_byte(pos + j, i);
}
struct Sink {
	struct WriteCache { Sink* s; void add(const phase1::entry_1& e) { s->add(e); } void flush() {} };
	bool ok_y = true, ok_x = true, finished = false; int k; uint64_t n = 0, first = 0, last = 0;
	std::shared_ptr<WriteCache> add_cache() { auto c = std::make_shared<WriteCache>(); c->s = this; return c; }
	void add(const phase1::entry_1& e) {
		if(finished) ok_x = false;
		if(n++ == 0) first = e.x; else if(e.x != last + 1) ok_x = false;
		last = e.x;
		if(n % 64 > 3 && n % 4096 > 20) return;	// values: some of each block of the key stream
		const uint64_t bit = (uint64_t)e.x * k; uint64_t v = 0;
		for(uint64_t i = bit / 8; i <= (bit + k - 1) / 8; ++i) { if(i == bit / 8) v = bulk_byte(i / 64, i % 64) & (255 >> bit % 8); else { const int sh = i == (bit + k - 1) / 8 ? 1 + (bit + k - 1) % 8 : 8; v = (v << sh) | (bulk_byte(i / 64, i % 64) >> (8 - sh)); } }
		ok_y &= e.y == ((v << 6) | (e.x >> (k - 6)));
	}
	void finish() { finished = true; }
};
static void run(Sink& s, uint64_t pick) { g_np = 1; g_pick[0] = pick; g_calls = 0; s.k = knob_k; phase1::compute_f1(g_id, knob_k, knob_threads, &s); vp_assert(s.finished, "the table is handed over for sorting"); }
extern "C" void vp_main()
{
	for(int i = 0; i < 32; ++i) g_id[i] = i * 7 + 1;
	const uint64_t all = 1ull << knob_k;
	uint64_t N = 0, size = 0, first0 = 0;
	auto good = [&](const Sink& s) { vp_assert(s.n == size && s.ok_x && s.first % size == 0 && s.last < all, "every x once, in every part of the table"); vp_assert(s.ok_y, "every entry of table 1 carries the value of its x"); };
	{ Sink s; run(s, 0); N = g_calls; size = s.n; first0 = s.first; vp_assert(N * size == all, "as many entries as x values"); good(s); }
	const uint64_t mid[8] = {1, N / 2, N / 2 - 1, N / 4 + 3, N - 2, N - 1, N / 16 * 13 + 1, N / 2 + 1};
	const int c = (int)vp_choice(8, "job");
	Sink s; run(s, mid[c]); good(s);
	Sink t; run(t, mid[(c + 3) % 8]); good(t);
	vp_assert(s.first != first0 && t.first != first0 && s.first != t.first, "no x twice");
	vp_cover("table");
}
