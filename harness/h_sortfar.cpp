// C08: offsets behind 2^32 entries. The first bucket is a very large (sparse) file; the pool which reads the buckets is a stand-in that leaves it out.
#include <vp.h>
#include <chia/chia.h>
#include <chia/entries.h>
#include <chia/Thread.h>
#include <chia/ThreadPool.h>
#include <chia/util.hpp>
template<typename T, typename S, typename L = size_t>
class VpPool : public Processor<T> {
public:
	VpPool(const std::function<void(T&, S&, L&)>& f, Processor<S>* o, int n, const std::string& = "") : func(f), output(o), n(n) {}
	void take(T& d) override {
		if(std::is_trivially_destructible<T>::value && calls++ == 0) return;	// bucket numbers: not the large one
		S out = S(); func(d, out, local); if(output) output->take(out);
	}
	void wait() {} void close() {} size_t num_threads() const { return n; } L& get_local(size_t) { return local; }
private:
	std::function<void(T&, S&, L&)> func; Processor<S>* output; int n; L local; size_t calls = 0;
};
#define ThreadPool VpPool
#include <chia/DiskSort.hpp>
#undef ThreadPool
#include <chia/phase3.h>
using namespace phase3;
size_t g_read_chunk_size = 64, g_write_chunk_size = 64;
extern "C" { int knob_log = 33; }
extern "C" void vp_main()
{
	const int kb = 10; static const char* F0 = "t/x.sort_bucket_0.tmp";
	g_read_chunk_size = g_write_chunk_size = 4;
	uint64_t pos[3];
	{ DiskSortNP w(kb, 1, "t/x"); for(int i = 0; i < 3; ++i) { entry_np e; e.key = 512 + (i * 300) % 512; pos[i] = e.pos = vp_sym("pos", 32); w.add(e); } w.finish(); w.set_keep_files(true); }
	if(vpfs_size(F0) < 0) vp_end();
	const uint64_t big = (1ull << knob_log) + 5;
	{ FILE* f = vpfs_fopen(F0, "rb+"); vp_assert(f, "file"); vpfs_fseek(f, (long)(big * entry_np::disk_size - 1), 0); const char z = 1; vpfs_fwrite(&z, 1, 1, f); vpfs_fclose(f); }
	DiskSortNP r(kb, 1, "t/x", true);
	struct C : Processor<std::pair<std::vector<entry_np>, size_t>> { uint64_t next = 0; bool ok = true; int n = 0; uint64_t key = 0, p[3] = {}; void take(std::pair<std::vector<entry_np>, size_t>& in) override { ok &= in.second == next; for(auto& e : in.first) { ok &= e.key >= key; key = e.key; if(n < 3) p[n] = e.pos; n++; } next += in.first.size(); } } c; c.next = big;
	r.read(&c, 1, 1);
	vp_assert(c.n == 3, "every entry once"); vp_assert(c.ok, "in order, at the offset of the entries before them");
	vp_assert(c.p[0] == pos[0] && c.p[1] == pos[2] && c.p[2] == pos[1], "with their contents");
	vp_cover("sorted");
}
