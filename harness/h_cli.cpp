// C23 plot identity, C24 options, C25 delivery: src/chia_plot.cpp as a whole, with stand-ins for the
// libraries that are absent (stubs_cli) and for the four phases.
#include <vp.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <algorithm>
#include <chia/phase1.hpp>
#include <chia/phase2.hpp>
#include <chia/phase3.hpp>
#include <chia/phase4.hpp>
#include <bls.hpp>
#ifndef GIT_COMMIT_HASH
#define GIT_COMMIT_HASH "0"
#endif
#define main cli_main
#include <chia_plot.cpp>
#undef main
size_t g_read_chunk_size = 1, g_write_chunk_size = 16; namespace phase2 { int g_thread_multi = 1; }
extern "C" { int knob_case = 0; int knob_k = 32; int knob_plots = 1; int knob_puzzle = 0; int knob_unique = 0; int knob_id = 0; int knob_upper = 0; int knob_dims = 2; int knob_fault = 0; int knob_crash = 0; int knob_sig = 0; int knob_first = 0; int knob_port = 0; int knob_d1 = -1; int knob_mask = 0; extern void (*vpr_sig_handler[65])(int); }
typedef std::vector<uint8_t> B;
namespace cxxopts { std::vector<Given> g_given; }
static void opt(const char* n, const std::string& s) { cxxopts::Given g; g.name = n; g.text = s; cxxopts::g_given.push_back(g); }
static void opt(const char* n, int v) { cxxopts::Given g; g.name = n; g.number = v; cxxopts::g_given.push_back(g); }
static void flag(const char* n) { cxxopts::Given g; g.name = n; g.flag = true; cxxopts::g_given.push_back(g); }

// ---- keys and hashes
struct Call { int kind; B in, out; }; static std::vector<Call> g_calls; static uint32_t g_rng = 4711; static bool g_badkey;
static bool same(const B& a, const B& b) { if(a.size() != b.size()) return false; uint64_t d = 0; for(size_t i = 0; i < a.size(); ++i) d |= a[i] ^ b[i]; return !vp_is_sym(d) && d == 0; }
static bool eq(const B& a, const B& b) { if(a.size() != b.size()) return false; uint64_t d = 0; for(size_t i = 0; i < a.size(); ++i) d |= a[i] ^ b[i]; return d == 0; }
B cli_fn(int kind, const B& in, size_t n)
{
	if(kind != FN_RANDOM) for(auto& c : g_calls) if(c.kind == kind && c.out.size() == n && same(c.in, in)) return c.out;
	Call c; c.kind = kind; c.in = in; for(size_t i = 0; i < n; ++i) { g_rng = g_rng * 1664525 + 1013904223; c.out.push_back(g_rng >> 17); }
	g_calls.push_back(c); return c.out;
}
bool cli_key_ok(const B&) { return !g_badkey; }
static const Call* made(int kind, const B& out) { for(auto& c : g_calls) if(c.kind == kind && same(c.out, out)) return &c; return nullptr; }
static B cat(const B& a, const B& b) { B r = a; r.insert(r.end(), b.begin(), b.end()); return r; }
static B sum(const B& a, const B& b) { B r = a; for(size_t i = 0; i < r.size() && i < b.size(); ++i) r[i] += b[i]; return r; }
static B le32(uint32_t v) { B r; for(int i = 0; i < 4; ++i) r.push_back(v >> (8 * i)); return r; }
static std::string hexs(const B& v) { std::string s = bls::Util::HexStr(v); if(knob_upper) for(auto& c : s) c -= (char)((unsigned)(c > '9') * 32); return s; }
static B symbytes(const char* n, size_t c) { B b; for(size_t i = 0; i < c; ++i) b.push_back((uint8_t)vp_sym(n, 8)); return b; }

static int g_enc = bech32::Bech32m; static B g_dp;
namespace bech32 { DecodedResult decode(const std::string& a) { if(a == "throw") throw std::runtime_error("bech32"); DecodedResult r; r.encoding = (Encoding)g_enc; r.hrp = "xch"; r.dp.assign(g_dp.begin(), g_dp.end()); return r; } }

// ---- phases
struct Plot { phase1::input_t p; int threads, lb, lb3; std::string name, tmp, tmp2, dir; int stage = 0; B content; std::string file; int multi; };
static std::vector<Plot> g_plots; static int g_sig_at = -1, g_point = 0; static bool g_files = false; static int g_signalled = -1;
static void point() { if(g_point++ == g_sig_at) { g_signalled = (int)g_plots.size(); if(vpr_sig_handler[2]) vpr_sig_handler[2](2); } }
static bool complete(const std::string& f, const Plot& p) { if(vpfs_size(f.c_str()) != (int64_t)p.content.size()) return false; bool ok = true; for(size_t i = 0; i < p.content.size(); ++i) ok &= vpfs_byte(f.c_str(), i) == p.content[i]; return ok; }
static bool g_wait = false; static std::vector<std::string> finals(size_t i); static bool delivered(size_t i) { for(auto& d : finals(i)) { const std::string f = d + g_plots[i].p.plot_name + ".plot"; if(vpfs_exists(f.c_str()) && complete(f, g_plots[i])) return true; } return false; }
static void same_run(const std::string& name, const std::string& t, const std::string& t2, int threads, int stage) { Plot& p = g_plots.back(); vp_assert(p.stage == stage - 1, "the phases run in order"); p.stage = stage; vp_assert(name == p.name && t == p.tmp && t2 == p.tmp2 && threads == p.threads, "all phases work on the same plot in the same directories"); point(); }
void phase1::compute(const input_t& in, output_t& out, const int th, const int lb, const std::string name, const std::string t, const std::string t2)
{
	if(!g_plots.empty()) { vp_assert(g_plots.back().stage == 4, "one plot after the other"); if(g_wait) for(size_t i = 0; i < g_plots.size(); ++i) vp_assert(delivered(i), "with -w the next plot starts after the copy"); }
	Plot p; p.p = in; p.threads = th; p.lb = lb; p.lb3 = -1; p.name = name; p.tmp = t; p.tmp2 = t2; p.stage = 1; p.multi = phase2::g_thread_multi; g_plots.push_back(p); out.params = in; point();
}
void phase2::compute(const phase1::output_t& in, output_t& out, const int th, const int lb, const std::string name, const std::string t, const std::string t2) { g_plots.back().lb3 = lb; same_run(name, t, t2, th, 2); out.params = in.params; }
void phase3::compute(phase2::output_t& in, output_t& out, const int th, const int lb, const std::string name, const std::string t, const std::string t2, const std::string d) { same_run(name, t, t2, th, 3); g_plots.back().dir = d; vp_assert(lb == g_plots.back().lb3, "buckets of phases 3 and 4"); out.params = in.params; out.plot_file_name = d + name + ".plot.tmp"; }
void phase4::compute(const phase3::output_t& in, output_t& out, const int th, const int lb, const std::string name, const std::string t, const std::string t2, const std::string d)
{
	same_run(name, t, t2, th, 4); Plot& p = g_plots.back(); vp_assert(d == p.dir && lb == p.lb3, "phases 3 and 4 agree"); out.params = in.params; out.plot_file_name = d + name + ".plot"; p.file = out.plot_file_name;
	if(g_files) { for(int i = 0; i < 20 + (int)g_plots.size(); ++i) p.content.push_back((uint8_t)(i * 7 + g_plots.size() * 31)); vpfs_create(p.file.c_str(), p.content.data(), p.content.size()); if(knob_case == 1) vpfs_fault_budget = 0; else if(knob_fault && g_plots.size() == 1) { vpfs_fault_mask = VPF_OPEN | VPF_WRITE | VPF_READ | VPF_CLOSE | VPF_RENAME | VPF_REMOVE; vpfs_fault_budget = knob_fault; } if(knob_crash && g_plots.size() == 1) vpfs_crash_budget = 1; }
}
static int run() { char a0[] = "chia_plot", a1[] = "-x"; char* av[3] = {a0, a1, nullptr}; return cli_main(2, av); }

// ---- C23
static void identity()
{
	const B farmer = symbytes("farmer", 48); B pool; B puzzle; const uint32_t port = knob_port ? (uint32_t)knob_port : (uint32_t)vp_sym("port", 32); B id;
	if(!knob_port) vp_assume(port != 11337);
	opt("k", knob_k); if(knob_port != 8444) opt("x", (int)port); opt("f", hexs(farmer)); opt("t", "tmp/"); opt("n", knob_plots); opt("r", 1); opt("u", 16);
	if(knob_puzzle) {
		for(int i = 0; i < 52; ++i) g_dp.push_back((uint8_t)vp_sym("dp", 5)); opt("c", "xch1qqqq");
		for(int i = 0; i < 32; ++i) { unsigned v = 0; for(int b = 0; b < 8; ++b) { const int at = 8 * i + b; v = v << 1 | ((g_dp[at / 5] >> (4 - at % 5)) & 1); } puzzle.push_back((uint8_t)v); }
	} else { pool = symbytes("pool", 48); opt("p", hexs(pool)); }
	if(knob_unique) flag("Z");
	if(knob_id) { id = symbytes("id", 32); opt("i", hexs(id)); }
	vp_assert(run() == 0, "valid keys are accepted"); vp_assert((int)g_plots.size() == knob_plots, "every plot is made");
	std::vector<B> seeds;
	for(auto& p : g_plots) {
		const size_t head = (knob_puzzle ? 32 : 48) + 48; vp_assert(p.p.memo.size() == head + 32, "length of the memo");
		vp_assert(eq(B(p.p.memo.begin(), p.p.memo.begin() + head), cat(knob_puzzle ? puzzle : pool, farmer)), "the memo begins with the pool key or contract and the farmer key");
		const B master(p.p.memo.begin() + head, p.p.memo.end()); const Call* mk = made(FN_KEYGEN, master);
		vp_assert(mk != nullptr, "the memo ends with the plot's secret key");
		vp_assert(mk->in.size() >= 32 && made(FN_RANDOM, mk->in) != nullptr, "the secret key is made of 32 random bytes");
		for(auto& s : seeds) vp_assert(!same(s, mk->in), "every plot has its own key"); seeds.push_back(mk->in);
		const bool uniq = knob_unique || port == 11337;
		if(knob_id) vp_assert(eq(B(p.p.id.begin(), p.p.id.end()), id), "the given id is used");
		else {
			B sk = master; const uint32_t path[4] = {12381, port, 3, 0};
			for(int i = 0; i < 4; ++i) { bool hit = false; for(auto& c : g_calls) if(!hit && c.kind == FN_DERIVE && same(B(c.in.begin(), c.in.begin() + 32), sk)) { vp_assert(eq(B(c.in.begin() + 32, c.in.end()), le32(path[i])), "derivation path of the local key"); sk = c.out; hit = true; } vp_assert(hit, "the local key is derived from the plot's key"); }
			B local; for(auto& c : g_calls) if(c.kind == FN_G1 && same(c.in, sk)) local = c.out;
			vp_assert(local.size() == 48, "the local public key is used"); B plot = sum(local, farmer);
			if(knob_puzzle) {
				const Call* h = nullptr; for(auto& c : g_calls) if(c.kind == FN_HASH && c.in.size() == 144 && same(B(c.in.begin() + 48, c.in.begin() + 96), local)) h = &c;
				vp_assert(h != nullptr, "the contract's extra key is derived"); vp_assert(eq(h->in, cat(cat(plot, local), farmer)), "the contract's extra key comes from the plot's keys");
				B tap; for(auto& c : g_calls) if(c.kind == FN_KEYGEN && same(c.in, h->out)) tap = c.out; B tk; for(auto& c : g_calls) if(c.kind == FN_G1 && same(c.in, tap)) tk = c.out; vp_assert(tk.size() == 48, "the contract's extra key is used"); plot = sum(plot, tk);
			}
			const Call* h = made(FN_HASH, B(p.p.id.begin(), p.p.id.end())); vp_assert(h != nullptr, "the id is a hash");
			B want = cat(knob_puzzle ? puzzle : pool, plot);
			if(uniq) { vp_assert(h->in.size() == 36, "unique ids depend on the network"); const Call* h1 = made(FN_HASH, B(h->in.begin(), h->in.begin() + 32)); vp_assert(h1 != nullptr, "unique ids are hashed twice"); vp_assert(eq(B(h->in.begin() + 32, h->in.end()), le32(port)), "unique ids depend on the port"); h = h1; }
			vp_assert(eq(h->in, want), "the id is the hash of pool key or contract and plot key");
		}
		const std::string name = std::string("plot") + (port == 11337 ? "-mmx" : "") + "-k" + std::to_string(knob_k) + "-2021-06-13-20-27-", hx = bls::Util::HexStr(p.p.id.data(), 32);
		vp_assert(p.name.size() == name.size() + 64 && p.p.plot_name.size() == p.name.size(), "length of the name"); bool ok = true; for(size_t i = 0; i < name.size(); ++i) ok &= p.name[i] == name[i]; for(int i = 0; i < 64; ++i) ok &= p.name[name.size() + i] == hx[i]; for(size_t i = 0; i < p.name.size(); ++i) ok &= p.p.plot_name[i] == p.name[i];
		vp_assert(ok, "the name gives size, date and id"); vp_assert(p.p.k == knob_k, "size of the plot");
	}
	vp_cover("identity"); vp_observe(g_calls.size(), "calls");
}

// ---- C24
static const std::string KEY(96, 'a');
static void options()
{
	struct D { int n; int v; } d[16] = {{5, 0}, {6, 0}, {6, 0}, {5, 0}, {6, 0}, {6, 0}, {5, 0}, {5, 0}, {4, 0}, {20, 0}, {8, 0}, {5, 0}, {2, 0}, {3, 0}, {2, 0}, {3, 0}}; const int N = 16;
	int a = knob_d1 >= 0 ? knob_d1 : (int)vp_choice(N, "option"); d[a].v = (int)vp_choice(d[a].n, "value");
	if(knob_dims > 1 && a + 1 < N) { const int b = a + 1 + (int)vp_choice(N - a - 1, "option"); d[b].v = (int)vp_choice(d[b].n, "value"); }
	bool ok = true; int k = 32, th = 2, u = 64, v = 0, multi = 1; std::string t = "a/", t2, fd, sd; bool hasv = false, info = false, empty = false;
	switch(d[0].v) { case 1: k = (int)vp_sym("k", 32); vp_assume(k < 16); ok = false; break; case 2: k = (int)vp_sym("k", 32); vp_assume(k > KMAX); ok = false; break; case 3: k = 16 + (int)vp_concretize(vp_range("k", 8, 0, KMAX - 16)); break; case 4: k = KMAX; break; default: break; }
	switch(d[1].v) { case 1: th = (int)vp_sym("threads", 32); vp_assume(th < 1); ok = false; break; case 2: th = (int)vp_sym("threads", 32); vp_assume(th > 1024); ok = false; break; case 3: th = 1; break; case 4: th = 15; break; case 5: th = 100; break; default: break; }
	static const char* dir[6] = {"a/", "b/c/", "", "b", "a\\", "b/c"}; static const bool dok[6] = {1, 1, 0, 0, 1, 0};
	t = dir[d[2].v]; ok &= dok[d[2].v];
	if(d[3].v) { t2 = dir[d[3].v]; ok &= t2.empty() || dok[d[3].v]; } if(d[4].v) { fd = dir[d[4].v]; ok &= fd.empty() || dok[d[4].v]; } if(d[5].v) { sd = dir[d[5].v]; ok &= sd.empty() || dok[d[5].v]; }
	std::string p = KEY, c, f = KEY, id; bool hasc = false;
	switch(d[6].v) { case 1: p = ""; ok = false; break; case 2: p = KEY.substr(2); ok = false; break; case 3: p = KEY + "aa"; ok = false; break; case 4: p = ""; hasc = true; break; default: break; }
	switch(d[7].v) { case 1: f = ""; ok = false; break; case 2: f = KEY.substr(0, 94); ok = false; break; case 3: f = KEY + "0b"; ok = false; break; case 4: g_badkey = true; ok = false; break; default: break; }
	switch(d[8].v) { case 1: id = KEY.substr(32); break; case 2: id = KEY.substr(34); ok = false; break; case 3: id = KEY.substr(30); ok = false; break; default: break; }
	static const int bu[20] = {64, 4, 5, 7, 16, 17, 31, 32, 100, 128, 255, 256, 0, 3, -1, 15, 131072, 262144, 2147483647, -2147483647 - 1}; static const int lg[20] = {6, 4, 5, 7, 4, 4, 4, 5, 6, 7, 7, 8, 0, 3, -1, 15, 17, 18, 30, -9};
	u = bu[d[9].v]; int lu = lg[d[9].v]; if(d[9].v >= 15) lu = lg[d[9].v]; if(d[9].v == 15) { u = 4; lu = 4; } ok &= lu >= 4 && lu <= 16; 
	static const int bv[8] = {0, 16, 6, 1, 15, 511, 131072, -7}; static const int lv[8] = {-1, 4, 6, 1, 15, 8, 17, -1}; if(d[10].v == 4) d[10].v = 5; if(d[10].v) { hasv = true; v = bv[d[10].v]; } int lvv = v > 0 ? lv[d[10].v] : lu; ok &= lvv >= 4 && lvv <= 16;
	g_dp.assign(52, 3); if(d[11].v && !hasc) { hasc = true; p = ""; if(d[6].v && d[6].v != 4) ok = true, ok &= k >= 16; } // see below
	(void)0;
	if(d[11].v && d[6].v && d[6].v != 4) vp_end(); // one dimension replaces the other
	switch(d[11].v) { case 1: g_enc = bech32::Bech32; ok = false; break; case 2: g_enc = bech32::None; ok = false; break; case 3: g_dp.pop_back(); ok = false; break; case 4: g_dp.push_back(1); ok = false; break; default: break; }
	if(hasc) c = "xch1abc";
	if(d[12].v) { if(hasc) vp_end(); hasc = true; c = "xch1abc"; if(!p.empty()) ok = false; else vp_end(); }
	bool toggle = false; if(d[13].v == 1) { toggle = true; if(!sd.empty()) ok = false; } if(d[13].v == 2) flag("D");
	if(d[14].v) { flag("help"); info = true; } if(d[15].v == 1) multi = 3; if(d[15].v == 2) { multi = (int)vp_sym("multi", 32); vp_assume(multi < 1); ok = false; } if(d[15].v) opt("K", multi);
	if(d[0].v) opt("k", k); opt("r", th); if(!t.empty() || d[2].v) opt("t", t); if(d[3].v) opt("2", t2); if(d[4].v) opt("d", fd); if(d[5].v) opt("s", sd); if(!p.empty() || d[6].v) opt("p", p); if(!c.empty()) opt("c", c); if(!f.empty() || d[7].v) opt("f", f); if(!id.empty()) opt("i", id); opt("u", u); if(hasv) opt("v", v); if(toggle) flag("G");
	vpfs_create("a/keep", "xyz", 3); vpfs_create("a/.chia_plot_other", "xyz", 3); vpfs_create("b/c/keep.plot", "xyz", 3);
	g_files = true; if(knob_fault) { vpfs_fault_mask = VPF_OPEN; vpfs_fault_budget = knob_fault; }
	int rc = 0; bool threw = false; try { rc = run(); } catch(const std::exception&) { threw = true; } vpfs_fault_budget = 0;
	vp_assert(vpfs_nfiles() == 3 + (int)g_plots.size() && vpfs_size("a/keep") == 3 && vpfs_size("a/.chia_plot_other") == 3 && vpfs_size("b/c/keep.plot") == 3, "testing the directories leaves nothing behind");
	vp_assert(vpfs_open_count == 0 || (threw || rc), "all files are closed");
	if(info) { vp_assert(rc == 0 && !threw && g_plots.empty(), "help only prints"); vp_cover("help"); return; }
	if(vpfs_faults_hit) { vp_assert(rc != 0 && g_plots.empty(), "directories that cannot be written are refused"); vp_cover("unwritable"); return; }
	if(!ok) { vp_assert((threw || rc != 0) && g_plots.empty(), "invalid options are refused before plotting starts"); vp_cover("refused"); return; }
	vp_assert(rc == 0 && !threw && g_plots.size() == 1, "valid options are accepted");
	const Plot& P = g_plots[0]; if(t2.empty()) t2 = t; if(fd.empty()) fd = t; if(sd.empty()) sd = t;
	vp_assert(P.p.k == k && P.threads == th && P.lb == lu && P.lb3 == lvv && P.multi == multi, "numbers are used as given"); vp_assert(P.tmp == t && P.tmp2 == t2 && P.dir == (d[13].v == 2 ? fd : sd), "directories are used as given"); vp_assert(complete(fd + P.name + ".plot", P), "the plot arrives in the final directory");
	vp_cover("accepted");
}

// ---- C25
static bool g_toggle, g_direct; static std::string g_fd, g_sd;
static std::vector<std::string> finals(size_t i) { if(!g_fd.empty()) return {g_fd}; if(!g_toggle) return {"a/"}; return {"a/", "b/"}; }
static bool is_final(const std::string& n) { return n.size() > 5 && n.substr(n.size() - 5) == ".plot"; }
static void at_crash() // whatever happens, finished plots survive and only complete ones carry a final name
{
	for(size_t i = 0; i < g_plots.size(); ++i) if(!g_plots[i].content.empty()) { bool any = false; for(int j = 0; j < vpfs_nfiles(); ++j) any |= complete(vpfs_name(j), g_plots[i]); vp_assert(any, "a finished plot is never lost"); }
	for(int j = 0; j < vpfs_nfiles(); ++j) { const std::string n = vpfs_name(j); if(!is_final(n) || n == "f/other.plot") continue; bool any = false; for(auto& p : g_plots) if(!p.content.empty()) any |= complete(n, p); vp_assert(any, "a file with a final name is complete"); }
}
static void delivery()
{
	const int n = knob_sig == 2 ? -1 : knob_plots; g_files = true; const int mode = knob_first >= 0 ? knob_first : (int)vp_choice(32, "options");
	g_toggle = mode & 1; g_direct = mode & 2; g_wait = mode & 4; if(mode & 8) g_fd = "f/"; if(mode & 16) g_sd = "s/"; if(g_toggle && !g_sd.empty()) vp_end();
	opt("t", "a/"); opt("2", "b/"); opt("f", KEY); opt("p", KEY); opt("r", 1); opt("u", 16); opt("n", n); if(g_toggle) flag("G"); if(g_direct) flag("D"); if(g_wait) flag("w"); if(!g_fd.empty()) opt("d", g_fd); if(!g_sd.empty()) opt("s", g_sd);
	if(knob_sig) { g_sig_at = (int)vp_choice(4 * knob_plots, "signal"); }
	vpfs_create("f/other.plot", "xyz", 3); vpfs_create("a/.x", "xyz", 3);
	if(knob_crash) { vp_allow_abort(1); vp_abort_hook(at_crash); }
	const int rc = run(); vpfs_fault_budget = 0; vpfs_crash_budget = 0;
	vp_assert(rc == 0, "plotting ends well"); vp_assert((int)g_plots.size() == (knob_sig ? g_signalled : knob_plots), "as many plots as asked for, none begun after an interrupt");
	int extra = 0; for(size_t i = 0; i < g_plots.size(); ++i) {
		const Plot& p = g_plots[i]; vp_assert(p.stage == 4, "every plot is finished"); const bool sw = g_toggle && i % 2; vp_assert(p.tmp == (sw ? "b/" : "a/") && p.tmp2 == (sw ? "a/" : "b/"), "temporary directories, alternating with -G"); if(g_direct && (!g_fd.empty() || !g_toggle)) vp_assert(p.dir == (g_fd.empty() ? "a/" : g_fd), "with -D the plot is written to its final directory"); else if(!g_direct && !g_sd.empty()) vp_assert(p.dir == g_sd, "the plot is written to the stage directory");
		vp_assert(delivered(i), "every plot arrives complete in its final directory under its name");
		if(knob_fault) { for(int j = 0; j < vpfs_nfiles(); ++j) { const std::string nm = vpfs_name(j); if(nm == p.file && !(p.file == g_fd + p.name + ".plot") && is_final(nm)) extra++; } }
	}
	vp_assert(vpfs_size("f/other.plot") == 3 && vpfs_size("a/.x") == 3, "other files are left alone");
	if(!vpfs_faults_hit) vp_assert(vpfs_nfiles() == 2 + (int)g_plots.size(), "nothing else is left behind"); else vp_assert(vpfs_nfiles() <= 2 + (int)g_plots.size() + vpfs_faults_hit, "nothing else is left behind");
	vp_assert(vpfs_open_count == 0, "all files are closed"); vp_observe(g_plots.size(), "plots"); vp_cover(vpfs_faults_hit ? "repeated" : "delivered");
}
static void hexcase() { const int n = knob_k; const B b = symbytes("byte", n); const std::string s = hexs(b); const B r = hex_to_bytes(s); vp_assert(eq(r, b), "hexadecimal text is read correctly"); vp_cover("hex"); }
// keys and ids that are not hexadecimal text of the right length are refused (C24)
static void badhex()
{
	std::string t[3] = {KEY, KEY, KEY.substr(32)}; const int w = (int)vp_choice(3, "which"); bool ok = false;
	if(knob_first == 0) { const char c = (char)vp_sym("char", 8); vp_assume(c != 0 && !((c >= '0' && c <= '9') || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'))); const size_t at = vp_choice(t[w].size(), "position"); t[w][at] = c; }
	else { const size_t right = t[w].size(), n = vp_choice(100, "length"); ok = n == right || (w == 2 && n == 0); t[w] = std::string(n, 'a'); }
	opt("t", "a/"); opt("f", t[0]); opt("p", t[1]); opt("i", t[2]); opt("r", 1); opt("u", 16);
	int rc = 0; bool threw = false; try { rc = run(); } catch(const std::exception&) { threw = true; }
	if(ok) { vp_assert(rc == 0 && !threw && g_plots.size() == 1, "valid options are accepted"); vp_cover("accepted"); }
	else { vp_assert((threw || rc != 0) && g_plots.empty(), "text that is not a key or id is refused before plotting starts"); vp_cover("refused"); }
}
extern "C" void vp_main() { if(knob_case == 0) identity(); else if(knob_case == 1) options(); else if(knob_case == 2) delivery(); else if(knob_case == 4) badhex(); else hexcase(); }
