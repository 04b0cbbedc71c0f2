// C21: copying or moving a finished plot.
#include <vp.h>
#include <unistd.h>
#include <chia/copy.h>
size_t g_read_chunk_size = 1, g_write_chunk_size = 16;
extern "C" { int knob_case = 0; int knob_max = 33; int knob_fault = 0; int knob_crash = 0; int knob_old = 0; int knob_retry = 0; int knob_conc = 0; }
static const char *SRC = "tmp/x.plot", *DST = "fin/x.plot", *TMP = "fin/x.plot.tmp", *OTHER = "fin/y.plot", *OLD = "tmp/old.plot";
static uint8_t g_data[80]; static uint64_t g_n;
static bool complete(const char* f) { if(vpfs_size(f) != (int64_t)g_n) return false; bool ok = true; for(uint64_t i = 0; i < g_n; ++i) ok &= vpfs_byte(f, i) == g_data[i]; return ok; }
static void state()
{
	bool any = complete(SRC); if(vpfs_exists(TMP)) any |= complete(TMP); if(vpfs_exists(DST)) any |= complete(DST);
	vp_assert(any, "a complete copy of the plot exists");
	if(vpfs_exists(DST)) vp_assert(complete(DST), "a file with the final name is complete");
	vp_assert(vpfs_size(OTHER) == 3 && vpfs_byte(OTHER, 1) == 'y' && vpfs_size(OLD) == 3, "other files are left alone");
}
static void at_crash() { state(); }
extern "C" void vp_main()
{
	if(knob_conc) g_n = knob_max; else { g_n = vp_sym("size", 7); vp_assume(g_n <= (uint64_t)knob_max); g_n = vp_concretize(g_n); }
	for(uint64_t i = 0; i < g_n; ++i) g_data[i] = vp_sym("byte", 8);
	vpfs_create(SRC, g_data, g_n); vpfs_create(OTHER, "xyz", 3); vpfs_create(OLD, "xyz", 3); if(knob_old) vpfs_create(TMP, "some longer remains of an earlier, interrupted attempt to copy this plot......................", 80);
	if(knob_crash) { vp_allow_abort(1); vp_abort_hook(at_crash); }
	vpfs_fault_budget = knob_fault; vpfs_crash_budget = knob_crash;
	bool err = false; uint64_t ret = 0;
	if(knob_case == 0) {
		for(int a = 0; a <= knob_retry; ++a) {
			err = false;
			try { ret = final_copy(SRC, DST); } catch(const std::exception& e) { err = true; }
			if(!err) break;
			vp_assert(vpfs_faults_hit > 0, "no failure without a failing call");
			// as long as the source is there, a later attempt can succeed
			state(); vp_assert(vpfs_exists(SRC) && complete(SRC), "a failed attempt can be repeated");
		}
		state();
		if(err) { vp_assert(knob_fault > knob_retry, "copying works once nothing fails any more"); vp_cover("reported"); }
		else { vp_assert(vpfs_exists(DST) && complete(DST), "the final file equals the source"); if(!(vpfs_fault_ops & VPF_REMOVE)) vp_assert(!vpfs_exists(TMP), "no temporary file remains"); if(!vpfs_faults_hit) vp_assert(!vpfs_exists(SRC), "a moved plot leaves nothing behind"); vp_cover("copied"); vp_observe(vpfs_faults_hit, "faults"); }
	}
	else if(knob_case == 1) { // plain copy
		try { ret = copy_file(SRC, DST); } catch(const std::exception& e) { err = true; }
		vpfs_fault_budget = 0; vp_assert(complete(SRC), "the source is not changed");
		if(err) { vp_assert(vpfs_faults_hit > 0, "copying works"); vp_cover("reported"); }
		else { vp_assert(complete(DST), "the copy equals the source"); vp_assert(ret == g_n, "number of bytes copied"); vp_cover("copied"); }
	}
	else { vp_assert(final_copy(SRC, SRC) == 0 && vpfs_exists(SRC) && complete(SRC), "source and destination the same"); vp_cover("copied"); }
	if(!err) vp_assert(vpfs_open_count == 0, "all files are closed");
}
