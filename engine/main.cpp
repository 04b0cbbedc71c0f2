#include "engine.h"
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/IRBuilder.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Linker/Linker.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <llvm/Transforms/IPO/GlobalDCE.h>
#include <llvm/IR/Verifier.h>
#include <sys/resource.h>
using namespace llvm;
Builtin intrinsic_builtin();

static std::unique_ptr<Module> read(LLVMContext& C, const std::string& f) {
	SMDiagnostic err; auto m = parseIRFile(f, err, C);
	if(!m) { err.print("symx", errs()); exit(3); }
	return m;
}
static bool write(Module& M, const std::string& f) {
	std::error_code ec; raw_fd_ostream os(f, ec); if(ec) return false;
	WriteBitcodeToFile(M, os); return true;
}

// functions of the environment that are replaced by the model
static const std::map<std::string, std::string> g_rename = {
	{"fopen", "vpfs_fopen"}, {"fopen64", "vpfs_fopen"}, {"fclose", "vpfs_fclose"}, {"fread", "vpfs_fread"}, {"fwrite", "vpfs_fwrite"}, {"fseek", "vpfs_fseek"}, {"fseeko", "vpfs_fseek"}, {"fseeko64", "vpfs_fseek"}, {"ftell", "vpfs_ftell"}, {"ftello", "vpfs_ftell"}, {"ftello64", "vpfs_ftell"},
	{"fflush", "vpfs_fflush"}, {"rename", "vpfs_rename"}, {"remove", "vpfs_remove"}, {"unlink", "vpfs_remove"}, {"ferror", "vpfs_ferror"}, {"feof", "vpfs_feof"}, {"clearerr", "vpfs_clearerr"}, {"rewind", "vpfs_rewind"}, {"setvbuf", "vpfs_setvbuf"}, {"fileno", "vpfs_fileno"}, {"fsync", "vpfs_fsync"}, {"access", "vpfs_access"}, {"ftruncate", "vpfs_ftruncate"}, {"posix_fallocate", "vpfs_fallocate"}, {"fgetc", "vpfs_fgetc"}, {"getc", "vpfs_fgetc"}, {"freopen", "vpfs_freopen"}, {"fgets", "vpfs_fgets"}, {"stat", "vpfs_stat"}, {"stat64", "vpfs_stat"},
	{"pthread_mutex_lock", "vp_mutex_lock"}, {"pthread_mutex_unlock", "vp_mutex_unlock"}, {"pthread_mutex_trylock", "vp_mutex_trylock"}, {"pthread_mutex_init", "vpr_zero2"}, {"pthread_mutex_destroy", "vpr_zero1"},
	{"_ZNSt18condition_variableC1Ev", "vpr_cv_ctor"}, {"_ZNSt18condition_variableD1Ev", "vpr_cv_dtor"}, {"_ZNSt18condition_variableC2Ev", "vpr_cv_ctor"}, {"_ZNSt18condition_variableD2Ev", "vpr_cv_dtor"},
	{"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "vpr_cv_wait"}, {"_ZNSt18condition_variable10notify_allEv", "vp_cv_notify_all"}, {"_ZNSt18condition_variable10notify_oneEv", "vp_cv_notify_one"},
	{"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "vpr_thread_start"}, {"_ZNSt6thread4joinEv", "vpr_thread_join"}, {"_ZNSt6thread6detachEv", "vpr_thread_detach"}, {"_ZNSt6thread20hardware_concurrencyEv", "vpr_hwc"},
	{"_ZNSt6chrono3_V212steady_clock3nowEv", "vpr_now"}, {"_ZNSt6chrono3_V212system_clock3nowEv", "vpr_now"}, {"time", "vpr_time"}, {"gettimeofday", "vpr_gettimeofday"}, {"usleep", "vpr_usleep"}, {"nanosleep", "vpr_nanosleep"}, {"clock_nanosleep", "vpr_clock_nanosleep"}, {"sleep", "vpr_sleep"}, {"pthread_cond_timedwait", "vpr_cond_timedwait"}, {"pthread_cond_clockwait", "vpr_cond_clockwait"}, {"pthread_cond_wait", "vpr_cond_wait"}, {"pthread_cond_signal", "vp_cv_notify_one"}, {"pthread_cond_broadcast", "vp_cv_notify_all"}, {"pthread_cond_init", "vpr_zero2"}, {"pthread_cond_destroy", "vpr_zero1"}, {"pthread_once", "vpr_once"}, {"pthread_rwlock_rdlock", "vpr_rw_lock"}, {"pthread_rwlock_wrlock", "vpr_rw_lock"}, {"pthread_rwlock_tryrdlock", "vpr_rw_trylock"}, {"pthread_rwlock_trywrlock", "vpr_rw_trylock"}, {"pthread_rwlock_unlock", "vpr_rw_unlock"}, {"pthread_rwlock_init", "vpr_zero2"}, {"pthread_rwlock_destroy", "vpr_zero1"}, {"fprintf", "vpr_fprintf"}, {"printf", "vpr_printf"}, {"vfprintf", "vpr_vfprintf"}, {"puts", "vpr_zero1"}, {"putchar", "vpr_puti"}, {"perror", "vpr_zero1"}, {"fputs", "vpr_fputs"}, {"fputc", "vpr_fputc"}, {"putc", "vpr_fputc"}, {"sched_yield", "vpr_yield"}, {"clock", "vpr_now"},
	{"localtime", "vpr_localtime"}, {"gmtime", "vpr_localtime"}, {"localtime_r", "vpr_localtime_r"}, {"gmtime_r", "vpr_localtime_r"}, {"strtol", "vpr_strtol"}, {"strtoul", "vpr_strtol"}, {"strtoll", "vpr_strtol"}, {"strtoull", "vpr_strtol"}, {"__isoc23_strtol", "vpr_strtol"}, {"__isoc23_strtoul", "vpr_strtol"}, {"__isoc23_strtoll", "vpr_strtol"}, {"__isoc23_strtoull", "vpr_strtol"}, {"strftime", "vpr_strftime"}, {"__errno_location", "vpr_errno"}, {"strerror", "vpr_strerror"}, {"getrlimit", "vpr_getrlimit"}, {"getrlimit64", "vpr_getrlimit"}, {"setrlimit", "vpr_zero2"}, {"signal", "vpr_signal"}, {"getpid", "vpr_getpid"}, {"exit", "vp_exit"}, {"_exit", "vp_exit"}, {"abort", "vp_abort"}, {"__assert_fail", "vp_assert_fail"}, {"pthread_self", "vp_thread_self"}, {"pthread_setname_np", "vpr_zero2"}, {"prctl", "vpr_zero2"}, {"pthread_sigmask", "vpr_zero2"},
};

static void prep(Module& M)
{
	// 1. strip stream output
	std::vector<std::string> pref = {"_ZNSo", "_ZStls", "_ZSt4endl", "_ZSt5flush", "_ZSt16__ostream_insert", "_ZNSt8ios_base", "_ZNSt9basic_iosIcSt11char_traitsIcEE", "_ZNKSt9basic_iosIcSt11char_traitsIcEE"};
	for(auto& F : M) {
		std::string n = F.getName().str();
		bool hit = false;
		for(auto& p : pref) if(n.rfind(p, 0) == 0) { hit = true; break; }
		// operator<<(basic_ostream<char>&, ...) as a template instantiation: _ZStlsI... is covered above
		if(!hit || F.isIntrinsic()) continue;
		if(n.rfind("_ZNSt8ios_base7failure", 0) == 0) continue;
		F.deleteBody();
		F.setComdat(nullptr);
		F.setPersonalityFn(nullptr);
		F.setLinkage(GlobalValue::InternalLinkage);
		F.setVisibility(GlobalValue::DefaultVisibility);
		F.setDSOLocal(true);
		F.removeFnAttr(Attribute::NoReturn);
		auto* BB = BasicBlock::Create(M.getContext(), "e", &F);
		IRBuilder<> B(BB);
		Type* R = F.getReturnType();
		if(R->isVoidTy()) B.CreateRetVoid();
		else if(F.arg_size() > 0 && F.getArg(0)->getType() == R) B.CreateRet(F.getArg(0));
		else B.CreateRet(Constant::getNullValue(R));
	}
	// 2. redirect the environment to the model
	for(const char* n : {"stdin", "stdout", "stderr"}) if(auto* G = M.getGlobalVariable(n)) if(G->isDeclaration()) { if(auto* H = M.getGlobalVariable(std::string("vpr_") + n)) { G->replaceAllUsesWith(H); G->eraseFromParent(); } else G->setName(std::string("vpr_") + n); }
	for(auto& p : g_rename) {
		Function* F = M.getFunction(p.first);
		if(!F || !F->isDeclaration()) { if(F) { /* inline definition in a header: keep */ } continue; }
		if(Function* G = M.getFunction(p.second)) { F->replaceAllUsesWith(G); F->eraseFromParent(); }
		else F->setName(p.second);
	}
}
static void optimise(Module& M)
{
	// everything except the entry points becomes internal
	std::set<std::string> keep = {"vp_main", "main"};
	internalizeModule(M, [&](const GlobalValue& GV) { return keep.count(GV.getName().str()) || GV.getName().starts_with("vp_") || GV.getName().starts_with("knob_") || GV.isDeclaration(); });
	for(auto& F : M) { // model functions keep their identity
		if(F.getName().starts_with("vpfs_") && !F.isDeclaration()) { F.addFnAttr(Attribute::NoInline); }
	}
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PipelineTuningOptions PTO; PTO.LoopVectorization = false; PTO.SLPVectorization = false; PTO.LoopUnrolling = false; PTO.LoopInterleaving = false;
	PassBuilder PB(nullptr, PTO);
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM); PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM = PB.buildPerModuleDefaultPipeline(OptimizationLevel::O1);
	MPM.run(M, MAM);
}

static std::string js(const std::string& s) { std::string r = "\""; for(char c : s) { if(c == '"' || c == '\\') { r += '\\'; r += c; } else if(c == '\n') r += "\\n"; else if((unsigned char)c < 32) r += ' '; else r += c; } return r + "\""; }
template<class T> static std::string jarr(const T& v) { std::string r = "["; bool f = true; for(auto& x : v) { if(!f) r += ","; f = false; r += js(x); } return r + "]"; }

void Engine::write_json(const char* fn)
{
	FILE* f = fopen(fn, "w"); if(!f) { perror(fn); exit(3); }
	std::set<std::string> fns;
	for(auto& p : fstore) if(p.executed && p.F && !p.F->isDeclaration()) {
		for(auto& BB : *p.F) for(auto& I : BB) for(const DILocation* L = I.getDebugLoc().get(); L; L = L->getInlinedAt()) {
			auto* SP = L->getScope()->getSubprogram();
			if(SP && SP->getFile()) { std::string file = SP->getFilename().str(); if(file.find("/repo/") != std::string::npos || file.find("REPO/") != std::string::npos) { auto sl = file.rfind('/'); fns.insert(file.substr(sl + 1) + ":" + SP->getName().str()); } }
		}
	}
	double wall = std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count();
	struct rusage ru; getrusage(RUSAGE_SELF, &ru);
	fprintf(f, "{\"violations\":[");
	for(size_t i = 0; i < viols.size(); ++i) fprintf(f, "%s{\"kind\":%s,\"msg\":%s,\"loc\":%s,\"trace\":%s}", i ? "," : "", js(viols[i].kind).c_str(), js(viols[i].msg).c_str(), js(viols[i].loc).c_str(), jarr(viols[i].trace).c_str());
	fprintf(f, "],\"incomplete\":%s,\"functions\":%s,\"races\":%s,", jarr(incomplete).c_str(), jarr(fns).c_str(), jarr(race_desc).c_str());
	fprintf(f, "\"covers\":{"); bool first = true; for(auto& p : covers) { fprintf(f, "%s%s:%llu", first ? "" : ",", js(p.first).c_str(), (unsigned long long)p.second); first = false; }
	fprintf(f, "},\"samples\":["); for(size_t i = 0; i < sample_traces.size(); ++i) fprintf(f, "%s%s", i ? "," : "", jarr(sample_traces[i]).c_str());
	fprintf(f, "],\"race_points\":["); first = true; for(auto& p : race_points) { fprintf(f, "%s[%s,%u]", first ? "" : ",", js(p.first).c_str(), p.second); first = false; }
	fprintf(f, "],\"stats\":{\"paths\":%llu,\"paths_ok\":%llu,\"paths_assume\":%llu,\"paths_pruned\":%llu,\"aborts\":%llu,\"instructions\":%llu,\"forks\":%llu,\"asserts\":%llu,\"assert_queries\":%llu,\"sched_points\":%llu,\"states\":%llu,\"queries\":%llu,\"query_cache_hits\":%llu,\"sat\":%llu,\"unsat\":%llu,\"unknown\":%llu,\"hard\":%llu,\"solver_time\":%.3f,\"max_query\":%.3f,\"terms\":%llu,\"wall\":%.2f,\"maxrss_mb\":%ld}}\n",
		(unsigned long long)n_paths, (unsigned long long)n_ok, (unsigned long long)n_assume, (unsigned long long)n_pruned, (unsigned long long)n_aborts, (unsigned long long)n_instr, (unsigned long long)n_forks, (unsigned long long)n_asserts, (unsigned long long)n_assert_q, (unsigned long long)n_sched, (unsigned long long)visited.size(),
		(unsigned long long)g_sstat.queries, (unsigned long long)g_sstat.cache_hits, (unsigned long long)g_sstat.sat, (unsigned long long)g_sstat.unsat, (unsigned long long)g_sstat.unknown, (unsigned long long)g_sstat.hard, g_sstat.time, g_sstat.max_time, (unsigned long long)num_exprs(), wall, ru.ru_maxrss / 1024);
	fclose(f);
}

static void add_points(Module& M, const std::set<std::pair<std::string, uint32_t>>& pts)
{
	FunctionCallee sp = M.getOrInsertFunction("vp_sched_point", Type::getVoidTy(M.getContext()));
	for(auto& F : M) {
		uint32_t ord = 0;
		std::vector<Instruction*> at;
		for(auto& BB : F) for(auto& I : BB) { ord++; if(pts.count({F.getName().str(), ord})) at.push_back(&I); }
		for(auto* I : at) { auto* c = CallInst::Create(sp, "", I); c->setDebugLoc(I->getDebugLoc()); }
	}
}
static void add_atomic_points(Module& M)
{
	FunctionCallee sp = M.getOrInsertFunction("vp_sched_point", Type::getVoidTy(M.getContext()));
	for(auto& F : M) {
		std::vector<Instruction*> at;
		for(auto& BB : F) for(auto& I : BB) {
			bool a = false;
			if(auto* L = dyn_cast<LoadInst>(&I)) a = L->isAtomic(); else if(auto* S = dyn_cast<StoreInst>(&I)) a = S->isAtomic(); else a = isa<AtomicRMWInst>(I) || isa<AtomicCmpXchgInst>(I);
			if(a && I.getDebugLoc() && I.getDebugLoc()->getFilename().ends_with("atomicity.h")) a = false;
			if(a) at.push_back(&I);
		}
		for(auto* I : at) { auto* c = CallInst::Create(sp, "", I); c->setDebugLoc(I->getDebugLoc()); }
	}
}

int main(int argc, char** argv)
{
	if(argc < 3) { fprintf(stderr, "usage: symx prep|run|native ...\n"); return 3; }
	std::string mode = argv[1];
	LLVMContext C;
	if(mode == "prep") { // prep out.bc in1.bc in2.bc ...
		auto M = read(C, argv[3]);
		Linker L(*M);
		for(int i = 4; i < argc; ++i) if(L.linkInModule(read(C, argv[i]))) return 3;
		prep(*M); optimise(*M);
		if(verifyModule(*M, &errs())) return 3;
		return write(*M, argv[2]) ? 0 : 3;
	}
	if(mode == "native") { // native out.bc in.bc [points-file] : schedule points made explicit
		auto M = read(C, argv[3]);
		std::set<std::pair<std::string, uint32_t>> pts;
		if(argc > 4) { FILE* f = fopen(argv[4], "r"); char n[4096]; unsigned o; while(f && fscanf(f, "%4095s %u", n, &o) == 2) pts.insert({n, o}); if(f) fclose(f); }
		add_points(*M, pts);
		add_atomic_points(*M);
		for(auto& F : *M) if(!F.isDeclaration()) F.addFnAttr(Attribute::SanitizeAddress);
		return write(*M, argv[2]) ? 0 : 3;
	}
	// run m.bc rt.bc out.json [opts]
	Engine en;
	register_builtins(en);
	std::string out = argv[4];
	std::vector<std::pair<std::string, uint64_t>> knobs;
	for(int i = 5; i < argc; ++i) {
		std::string a = argv[i];
		auto nx = [&]() { return std::string(argv[++i]); };
		if(a == "--slow") en.max_slow = atoi(nx().c_str());
		else if(a == "--mem") en.max_mem = atoi(nx().c_str());
		else if(a == "--time") en.max_time = atof(nx().c_str());
		else if(a == "--delay") en.max_delay = atoi(nx().c_str());
		else if(a == "--preempt") en.max_preempt = atoi(nx().c_str());
		else if(a == "--spurious") en.max_spurious = atoi(nx().c_str());
		else if(a == "--one-schedule") en.one_sched = true;
		else if(a == "--races") en.races = true;
		else if(a == "--dedup") en.dedup = true;
		else if(a == "--fork-select") en.fork_select = true;
		else if(a == "--index-fork") en.index_fork = atoll(argv[++i]);
		else if(a == "--nosimp") g_nosimp = true;
		else if(a == "--heap-reuse") en.heap_reuse = true;
		else if(a == "--max-instr") en.max_instr = strtoull(nx().c_str(), 0, 10);
		else if(a == "--max-viol") en.max_viol = atoi(nx().c_str());
		else if(a == "--solver-timeout") g_solver_timeout = atof(nx().c_str());
		else if(a == "-v") en.verbose = true;
		else if(a == "--rnd") en.rnd = atoi(nx().c_str());
		else if(a == "--set") { std::string kv = nx(); auto p = kv.find('='); knobs.push_back({kv.substr(0, p), strtoull(kv.c_str() + p + 1, 0, 0)}); }
		else { fprintf(stderr, "bad option %s\n", a.c_str()); return 3; }
	}
	auto M = read(C, argv[2]);
	{
		Linker L(*M);
		if(L.linkInModule(read(C, argv[3]), Linker::LinkOnlyNeeded)) return 3;
	}
	int rounds = 0;
	std::set<std::pair<std::string, uint32_t>> all_points;
	auto start = std::chrono::steady_clock::now();
	en.load(M.get());
	for(auto& f : en.fstore) if(f.F->isIntrinsic()) f.bi = intrinsic_builtin();
	// knobs: global variables of the harness set from the command line
	for(auto& k : knobs) {
		GlobalVariable* G = M->getGlobalVariable(k.first, true);
		if(!G) { fprintf(stderr, "no knob %s\n", k.first.c_str()); return 3; }
		en.writev(*en.root, en.gaddr[G], en.DL->getTypeAllocSize(G->getValueType()), Val(k.second));
	}
	// static constructors
	if(auto* GC = M->getGlobalVariable("llvm.global_ctors")) if(auto* CA = dyn_cast<ConstantArray>(GC->getInitializer())) {
		std::vector<std::pair<uint64_t, Function*>> v;
		for(auto& o : CA->operands()) { auto* CS = cast<ConstantStruct>(o); if(auto* F = dyn_cast<Function>(CS->getOperand(1)->stripPointerCasts())) v.push_back({cast<ConstantInt>(CS->getOperand(0))->getZExtValue(), F}); }
		std::stable_sort(v.begin(), v.end(), [](auto& a, auto& b) { return a.first < b.first; });
		for(auto& p : v) {
			State* s = new State(*en.root);
			try { en.push_call(*s, en.func(p.second), {}); while(true) en.step(*s); }
			catch(PathEnd& e) {
				if(e.why != 0) { fprintf(stderr, "static constructor failed: %s\n", p.second->getName().str().c_str()); for(auto& x : en.incomplete) fprintf(stderr, "  %s\n", x.c_str()); for(auto& x : en.viols) fprintf(stderr, "  %s %s %s\n", x.kind.c_str(), x.msg.c_str(), x.loc.c_str()); return 3; }
			}
			s->th[0] = Thread(); s->th[0].heap_n = en.root->th[0].heap_n + s->ar[ARENA_THREAD0].n;
			if(!en.work.empty()) { fprintf(stderr, "static constructor forked\n"); return 3; }
			delete en.root; en.root = s;
		}
	}
	Function* VM = M->getFunction("vp_main");
	if(!VM) { fprintf(stderr, "no vp_main\n"); return 3; }
	en.t0 = std::chrono::steady_clock::now();
	while(true) {
		State* s = new State(*en.root);
		en.push_call(*s, en.func(VM), {});
		if(s->ar.size() < ARENA_THREAD0 + 2) s->ar.resize(ARENA_THREAD0 + 2);
		s->th[0].vc.at(0) = 1;
		en.work.push_back(s);
		if(en.max_slow) { s = new State(*s); s->slow = 1; en.work.push_back(s); }
		en.can_restart = rounds < 5;
		en.explore();
		if(en.viols.empty() && !en.new_races.empty() && ++rounds < 6 && std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count() < en.max_time) {
			en.incomplete.clear();
			// racy accesses become schedule points: re-explore
			for(auto& p : en.new_races) en.race_points.insert(p);
			en.new_races.clear(); en.visited.clear(); en.sample_traces.clear();
			for(auto& f : en.fstore) if(f.decoded) for(auto& in : f.code) if(en.race_points.count({f.name, in.ord})) in.swi = true;
			continue;
		}
		if(en.viols.empty() && !en.new_races.empty()) en.incomplete.insert("schedule points of newly found races not explored");
		break;
	}
	en.write_json(out.c_str());
	return en.viols.empty() ? 0 : 1;
}
