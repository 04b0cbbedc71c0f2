#include "engine.h"
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/Support/raw_ostream.h>
using namespace llvm;

static void flat(const DataLayout& DL, Type* T, uint64_t off, std::vector<Leaf>& out)
{
	if(auto* S = dyn_cast<StructType>(T)) {
		auto* L = DL.getStructLayout(S);
		for(unsigned i = 0; i < S->getNumElements(); ++i) flat(DL, S->getElementType(i), off + L->getElementOffset(i), out);
	} else if(auto* A = dyn_cast<ArrayType>(T)) {
		uint64_t es = DL.getTypeAllocSize(A->getElementType());
		for(uint64_t i = 0; i < A->getNumElements(); ++i) flat(DL, A->getElementType(), off + i * es, out);
	} else if(auto* V = dyn_cast<FixedVectorType>(T)) {
		unsigned bits = DL.getTypeSizeInBits(V->getElementType());
		// only byte sized vector elements are laid out in memory this way; vectors of i1 are never stored at this level
		for(uint64_t i = 0; i < V->getNumElements(); ++i) flat(DL, V->getElementType(), off + i * ((bits + 7) / 8), out);
	} else if(T->isVoidTy()) {
	} else {
		Leaf l; l.off = off; l.fp = T->isFloatTy() ? 1 : T->isDoubleTy() ? 2 : T->isX86_FP80Ty() ? 3 : 0;
		l.w = DL.getTypeSizeInBits(T); l.bytes = l.fp == 3 ? 10 : (l.w + 7) / 8;
		out.push_back(l);
	}
}
static std::vector<Leaf> leaves_of(const DataLayout& DL, Type* T) { std::vector<Leaf> v; flat(DL, T, 0, v); return v; }
static unsigned nlanes(const DataLayout& DL, Type* T) { return leaves_of(DL, T).size(); }

uint64_t Engine::const_addr(const Constant* C)
{
	std::vector<Val> v; flatten_const(C, v);
	return v[0].c;
}
void Engine::flatten_const(const Constant* C, std::vector<Val>& out)
{
	if(auto* CI = dyn_cast<ConstantInt>(C)) {
		if(CI->getBitWidth() <= 64) out.push_back(Val(CI->getZExtValue()));
		else {
			const APInt& A = CI->getValue();
			u128 v = A.extractBitsAsZExtValue(64, 0) | ((u128)A.extractBitsAsZExtValue(std::min(64u, CI->getBitWidth() - 64), 64) << 64);
			out.push_back(Val::of(mk_const(v, CI->getBitWidth())));
		}
	} else if(auto* CF = dyn_cast<ConstantFP>(C)) {
		APInt A = CF->getValueAPF().bitcastToAPInt();
		if(A.getBitWidth() <= 64) out.push_back(Val(A.getZExtValue()));
		else out.push_back(Val::of(mk_const((u128)A.extractBitsAsZExtValue(64, 0) | ((u128)A.extractBitsAsZExtValue(16, 64) << 64), 80)));
	} else if(isa<ConstantPointerNull>(C)) out.push_back(Val(0));
	else if(isa<ConstantAggregateZero>(C) || isa<UndefValue>(C)) {
		for(auto& l : leaves_of(*DL, C->getType())) { if(l.w > 64) out.push_back(Val::of(mk_const(0, l.w))); else out.push_back(Val(0)); }
	} else if(isa<ConstantTokenNone>(C)) out.push_back(Val(0));
	else if(auto* F = dyn_cast<Function>(C)) out.push_back(Val(func(F)->addr));
	else if(auto* GV = dyn_cast<GlobalVariable>(C)) {
		auto it = gaddr.find(GV);
		if(it == gaddr.end()) { errs() << "no address for " << GV->getName() << "\n"; abort(); }
		out.push_back(Val(it->second));
	} else if(auto* GA = dyn_cast<GlobalAlias>(C)) flatten_const(GA->getAliasee(), out);
	else if(isa<ConstantAggregate>(C)) {
		for(unsigned i = 0; i < C->getNumOperands(); ++i) flatten_const(cast<Constant>(C->getOperand(i)), out);
	} else if(auto* CD = dyn_cast<ConstantDataSequential>(C)) {
		for(unsigned i = 0; i < CD->getNumElements(); ++i) flatten_const(CD->getElementAsConstant(i), out);
	} else if(auto* CE = dyn_cast<ConstantExpr>(C)) {
		unsigned w = DL->getTypeSizeInBits(CE->getType());
		auto m = [&](uint64_t v) { return w >= 64 ? v : v & ((1ull << w) - 1); };
		switch(CE->getOpcode()) {
		case Instruction::GetElementPtr: {
			APInt off(64, 0);
			if(!cast<GEPOperator>(CE)->accumulateConstantOffset(*DL, off)) { errs() << "const gep: " << *CE << "\n"; abort(); }
			out.push_back(Val(const_addr(CE->getOperand(0)) + off.getSExtValue()));
			return;
		}
		case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::BitCast: case Instruction::Trunc: case Instruction::ZExt: case Instruction::AddrSpaceCast:
			out.push_back(Val(m(const_addr(CE->getOperand(0))))); return;
		case Instruction::Add: out.push_back(Val(m(const_addr(CE->getOperand(0)) + const_addr(CE->getOperand(1))))); return;
		case Instruction::Sub: out.push_back(Val(m(const_addr(CE->getOperand(0)) - const_addr(CE->getOperand(1))))); return;
		case Instruction::ICmp: {
			uint64_t x = const_addr(CE->getOperand(0)), y = const_addr(CE->getOperand(1));
			switch(CE->getPredicate()) { case CmpInst::ICMP_EQ: out.push_back(Val(x == y)); return; case CmpInst::ICMP_NE: out.push_back(Val(x != y)); return; default: break; }
		} // fallthrough
		default: errs() << "constexpr: " << *CE << "\n"; abort();
		}
	} else { errs() << "constant: " << *C << "\n"; abort(); }
}

FuncInfo* Engine::func(const Function* F)
{
	auto it = fi.find(F);
	if(it != fi.end()) return it->second;
	fstore.emplace_back();
	FuncInfo* f = &fstore.back();
	f->F = F; f->name = F->getName().str();
	f->addr = ((((uint64_t)ARENA_FUNC << IDX_BITS) | 1) << SLOT_SHIFT) + 64 * (fstore.size());
	fi[F] = f; fbyaddr[f->addr] = f;
	auto b = builtins.find(f->name);
	if(b != builtins.end()) f->bi = b->second;
	f->atomic_fn = f->name.rfind("vpfs_", 0) == 0; f->touch_fn = f->name.rfind("vpfs_touch", 0) == 0;
	return f;
}

void Engine::load(Module* m)
{
	M = m; DL = &m->getDataLayout();
	root = new State();
	root->ar.resize(ARENA_THREAD0 + 2);
	root->th.resize(1);
	for(auto& G : m->globals()) {
		uint64_t sz = G.getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(G.getValueType()) : 0;
		if(!G.hasInitializer()) sz = std::max<uint64_t>(sz, 512);
		gaddr[&G] = alloc(*root, sz, OK_GLOBAL, G.getName().str(), ARENA_GLOBAL);
		slot(*root, gaddr[&G], true)->zero = true;
		if(!G.hasInitializer() && (G.getName().starts_with("_ZTV") || G.getName().starts_with("_ZTT"))) slot(*root, gaddr[&G], true)->freed = true;	// not modelled: see check_range
	}
	for(auto& F : *m) func(&F);
	for(auto& G : m->globals()) {
		if(!G.hasInitializer()) continue;
		std::vector<Val> v; flatten_const(G.getInitializer(), v);
		auto L = leaves_of(*DL, G.getValueType());
		assert(L.size() == v.size());
		uint64_t a = gaddr[&G];
		if(!G.getInitializer()->isZeroValue())
			for(size_t i = 0; i < L.size(); ++i) { unsigned b = L[i].bytes; Val x = v[i]; if(b * 8 != L[i].w) { if(!x.conc()) x = Val::of(mk_zext(x.e, b * 8)); } writev(*root, a + L[i].off, b, x); }
		if(G.isConstant()) slot(*root, a, true)->ro = true;
	}
	root_globals = root->ar[ARENA_GLOBAL].n;
	root->globals_dirty.clear();
}

void Engine::decode(FuncInfo* f)
{
	f->decoded = true;
	const Function* F = f->F;
	std::unordered_map<const Value*, int> slots;
	std::unordered_map<const Constant*, int> cslots;
	int n = 0;
	auto isvoid = [](Type* T) { return T->isVoidTy() || T->isTokenTy() || T->isMetadataTy() || T->isLabelTy(); };
	for(auto& A : F->args()) { slots[&A] = n; n += nlanes(*DL, A.getType()); }
	for(auto& B : *F) for(auto& I : B) if(!isvoid(I.getType())) { slots[&I] = n; n += nlanes(*DL, I.getType()); }
	f->nslots = n;
	for(auto& l : leaves_of(*DL, F->getReturnType())) f->retw.push_back(l.w);
	auto opnd = [&](const Value* V) -> int {
		auto it = slots.find(V);
		if(it != slots.end()) return it->second;
		if(isa<MetadataAsValue>(V) || isa<BasicBlock>(V) || isa<InlineAsm>(V)) return -1;
		auto* C = cast<Constant>(V);
		auto ci = cslots.find(C);
		if(ci != cslots.end()) return ci->second;
		int r = -1 - (int)f->consts.size();
		flatten_const(C, f->consts);
		cslots[C] = r;
		return r;
	};
	f->consts.push_back(Val(0));
	auto sw = [&](Type* T) -> unsigned { Type* S = T->getScalarType(); if(S->isVoidTy() || S->isTokenTy() || !S->isSized()) return 0; auto L = leaves_of(*DL, S); return L.empty() ? 0 : L[0].w; };
	auto fpk = [&](Type* T) -> uint8_t { Type* S = T->getScalarType(); return S->isFloatTy() ? 1 : S->isDoubleTy() ? 2 : S->isX86_FP80Ty() ? 3 : 0; };
	// block start pcs (phis and debug intrinsics are not emitted)
	auto skip = [](const Instruction& I) {
		if(isa<PHINode>(I) || isa<DbgInfoIntrinsic>(I)) return true;
		if(auto* II = dyn_cast<IntrinsicInst>(&I)) switch(II->getIntrinsicID()) {
			case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::sideeffect: case Intrinsic::invariant_start: case Intrinsic::invariant_end: return true;
			default: break;
		}
		return false;
	};
	std::unordered_map<const BasicBlock*, int> bpc;
	int pc = 0;
	for(auto& B : *F) { bpc[&B] = pc; for(auto& I : B) if(!skip(I)) pc++; }
	auto edge = [&](const BasicBlock* from, const BasicBlock* to) -> int {
		Edge e; e.pc = bpc[to];
		for(auto& P : to->phis()) {
			Move m; m.dst = slots[&P]; m.src = opnd(P.getIncomingValueForBlock(from)); m.n = nlanes(*DL, P.getType());
			e.moves.push_back(m);
		}
		f->edges.push_back(e);
		return f->edges.size() - 1;
	};
	uint32_t ord = 0;
	for(auto& B : *F) for(auto& I : B) {
		ord++;
		if(skip(I)) continue;
		f->code.emplace_back();
		Ins& in = f->code.back();
		in.I = &I; in.ord = ord;
		if(!isvoid(I.getType())) { in.dst = slots[&I]; auto L = leaves_of(*DL, I.getType()); in.n = L.size(); for(auto& l : L) in.rw.push_back(l.w); in.w = L.empty() ? 0 : L[0].w; in.fp = fpk(I.getType()); }
		else in.n = 0;
		auto A = [&](const Value* V) { in.a.push_back(opnd(V)); };
		auto bin = [&](IOp o) { in.op = o; A(I.getOperand(0)); A(I.getOperand(1)); };
		switch(I.getOpcode()) {
		case Instruction::Add: bin(I_ADD); break; case Instruction::Sub: bin(I_SUB); break; case Instruction::Mul: bin(I_MUL); break;
		case Instruction::UDiv: bin(I_UDIV); break; case Instruction::SDiv: bin(I_SDIV); break; case Instruction::URem: bin(I_UREM); break; case Instruction::SRem: bin(I_SREM); break;
		case Instruction::Shl: bin(I_SHL); break; case Instruction::LShr: bin(I_LSHR); break; case Instruction::AShr: bin(I_ASHR); break;
		case Instruction::And: bin(I_AND); break; case Instruction::Or: bin(I_OR); break; case Instruction::Xor: bin(I_XOR); break;
		case Instruction::FAdd: bin(I_FADD); break; case Instruction::FSub: bin(I_FSUB); break; case Instruction::FMul: bin(I_FMUL); break; case Instruction::FDiv: bin(I_FDIV); break; case Instruction::FRem: bin(I_FREM); break;
		case Instruction::FNeg: in.op = I_FNEG; A(I.getOperand(0)); break;
		case Instruction::ICmp: bin(I_ICMP); in.sub = cast<ICmpInst>(I).getPredicate(); in.w2 = sw(I.getOperand(0)->getType()); break;
		case Instruction::FCmp: bin(I_FCMP); in.sub = cast<FCmpInst>(I).getPredicate(); in.w2 = sw(I.getOperand(0)->getType()); in.fp = fpk(I.getOperand(0)->getType()); break;
		case Instruction::ZExt: in.op = I_ZEXT; goto cast_; case Instruction::SExt: in.op = I_SEXT; goto cast_; case Instruction::Trunc: in.op = I_TRUNC; goto cast_;
		case Instruction::PtrToInt: in.op = in.w < 64 ? I_TRUNC : I_ZEXT; goto cast_; case Instruction::IntToPtr: in.op = I_ZEXT; goto cast_;
		case Instruction::FPToUI: in.op = I_FPTOUI; goto cast_; case Instruction::FPToSI: in.op = I_FPTOSI; goto cast_; case Instruction::UIToFP: in.op = I_UITOFP; goto cast_; case Instruction::SIToFP: in.op = I_SITOFP; goto cast_;
		case Instruction::FPExt: in.op = I_FPEXT; goto cast_; case Instruction::FPTrunc: in.op = I_FPTRUNC; goto cast_;
		case Instruction::BitCast: {
			auto L1 = leaves_of(*DL, I.getOperand(0)->getType()), L2 = leaves_of(*DL, I.getType());
			A(I.getOperand(0)); in.w2 = L1[0].w; in.imm = L1.size();
			in.op = I_MOV; break;
		}
		cast_: A(I.getOperand(0)); in.w2 = sw(I.getOperand(0)->getType()); in.sub = fpk(I.getOperand(0)->getType()); break;
		case Instruction::Freeze: in.op = I_FREEZE; A(I.getOperand(0)); break;
		case Instruction::Load: in.op = I_LOAD; A(I.getOperand(0)); in.leaves = leaves_of(*DL, I.getType()); in.atomic = cast<LoadInst>(I).isAtomic(); break;
		case Instruction::Store: in.op = I_STORE; A(I.getOperand(0)); A(I.getOperand(1)); in.leaves = leaves_of(*DL, I.getOperand(0)->getType()); in.atomic = cast<StoreInst>(I).isAtomic(); break;
		case Instruction::Alloca: in.op = I_ALLOCA; in.imm = DL->getTypeAllocSize(cast<AllocaInst>(I).getAllocatedType()); A(I.getOperand(0)); break;
		case Instruction::GetElementPtr: {
			in.op = I_GEP; A(I.getOperand(0));
			auto& G = cast<GetElementPtrInst>(I);
			if(I.getType()->isVectorTy()) { in.op = I_BAD; break; }
			for(auto it = gep_type_begin(G), e = gep_type_end(G); it != e; ++it) {
				Value* idx = it.getOperand();
				if(auto* S = it.getStructTypeOrNull()) { in.imm += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
				int64_t es = it.getSequentialElementStride(*DL);
				if(auto* CI = dyn_cast<ConstantInt>(idx)) { in.imm += CI->getSExtValue() * es; continue; }
				GepIdx g; g.op = opnd(idx); g.w = sw(idx->getType()); g.scale = es; in.gi.push_back(g);
			}
			break;
		}
		case Instruction::Select: in.op = I_SELECT; A(I.getOperand(0)); A(I.getOperand(1)); A(I.getOperand(2)); in.imm = I.getOperand(0)->getType()->isVectorTy(); break;
		case Instruction::Br: {
			auto& Br = cast<BranchInst>(I);
			if(Br.isConditional()) { in.op = I_CONDBR; A(Br.getCondition()); in.edges = {edge(&B, Br.getSuccessor(0)), edge(&B, Br.getSuccessor(1))}; }
			else { in.op = I_BR; in.edges = {edge(&B, Br.getSuccessor(0))}; }
			break;
		}
		case Instruction::Switch: {
			auto& S = cast<SwitchInst>(I);
			in.op = I_SWITCH; A(S.getCondition()); in.w2 = sw(S.getCondition()->getType());
			in.edges.push_back(edge(&B, S.getDefaultDest()));
			for(auto& c : S.cases()) { in.cases.push_back({(u128)c.getCaseValue()->getZExtValue(), (int)in.edges.size()}); in.edges.push_back(edge(&B, c.getCaseSuccessor())); }
			break;
		}
		case Instruction::Ret: in.op = I_RET; if(I.getNumOperands()) A(I.getOperand(0)); in.n = I.getNumOperands() ? nlanes(*DL, I.getOperand(0)->getType()) : 0; break;
		case Instruction::Unreachable: in.op = I_UNREACHABLE; break;
		case Instruction::Invoke: case Instruction::Call: {
			auto& CB = cast<CallBase>(I);
			in.op = I_CALL;
			for(auto& arg : CB.args()) { A(arg); in.an.push_back(isvoid(arg->getType()) ? 1 : nlanes(*DL, arg->getType())); in.aw.push_back(isvoid(arg->getType()) ? 64 : sw(arg->getType())); }
			if(auto* II = dyn_cast<InvokeInst>(&I)) { in.invoke = true; in.edges = {edge(&B, II->getNormalDest()), edge(&B, II->getUnwindDest())}; }
			const Value* cv = CB.getCalledOperand()->stripPointerCasts();
			if(auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliasee()->stripPointerCasts();
			if(auto* CF = dyn_cast<Function>(cv)) in.callee = func(CF);
			else if(isa<InlineAsm>(cv)) { in.imm = 1; }
			else in.a.push_back(opnd(cv));
			break;
		}
		case Instruction::LandingPad: in.op = I_LANDINGPAD; break;
		case Instruction::Resume: in.op = I_RESUME; A(I.getOperand(0)); break;
		case Instruction::ExtractValue: {
			in.op = I_MOV; 
			Type* T = I.getOperand(0)->getType(); unsigned off = 0;
			for(unsigned ix : cast<ExtractValueInst>(I).indices()) {
				if(auto* S = dyn_cast<StructType>(T)) { for(unsigned k = 0; k < ix; ++k) off += nlanes(*DL, S->getElementType(k)); T = S->getElementType(ix); }
				else { auto* AT = cast<ArrayType>(T); off += ix * nlanes(*DL, AT->getElementType()); T = AT->getElementType(); }
			}
			int b = opnd(I.getOperand(0));
			in.op = I_EXTRACT; in.a.push_back(b); in.imm = off; break;
		}
		case Instruction::InsertValue: {
			Type* T = I.getOperand(0)->getType(); unsigned off = 0;
			for(unsigned ix : cast<InsertValueInst>(I).indices()) {
				if(auto* S = dyn_cast<StructType>(T)) { for(unsigned k = 0; k < ix; ++k) off += nlanes(*DL, S->getElementType(k)); T = S->getElementType(ix); }
				else { auto* AT = cast<ArrayType>(T); off += ix * nlanes(*DL, AT->getElementType()); T = AT->getElementType(); }
			}
			in.op = I_INSERT; A(I.getOperand(0)); A(I.getOperand(1)); in.imm = off; in.an = {(int)nlanes(*DL, T)}; break;
		}
		case Instruction::ExtractElement: in.op = I_EXTELEM; A(I.getOperand(0)); A(I.getOperand(1)); in.w2 = sw(I.getOperand(1)->getType()); break;
		case Instruction::InsertElement: in.op = I_INSELEM; A(I.getOperand(0)); A(I.getOperand(1)); A(I.getOperand(2)); in.w2 = sw(I.getOperand(2)->getType()); break;
		case Instruction::ShuffleVector: {
			in.op = I_SHUFFLE; A(I.getOperand(0)); A(I.getOperand(1));
			in.imm = cast<FixedVectorType>(I.getOperand(0)->getType())->getNumElements();
			for(int m : cast<ShuffleVectorInst>(I).getShuffleMask()) in.an.push_back(m);
			break;
		}
		case Instruction::AtomicCmpXchg: in.op = I_CMPXCHG; A(I.getOperand(0)); A(I.getOperand(1)); A(I.getOperand(2)); in.atomic = true; in.w2 = sw(I.getOperand(1)->getType()); break;
		case Instruction::AtomicRMW: in.op = I_RMW; A(I.getOperand(0)); A(I.getOperand(1)); in.sub = cast<AtomicRMWInst>(I).getOperation(); in.atomic = true; break;
		case Instruction::Fence: in.op = I_FENCE; break;
		case Instruction::VAArg: default: in.op = I_BAD; break;
		}
		if(in.atomic) {
			// reference counting inside libstdc++ is not an observable synchronisation point
			if(auto& L = I.getDebugLoc()) { if(L->getFilename().ends_with("atomicity.h")) in.atomic = false; }
		}
	}
}

std::string loc_of(const Instruction* I)
{
	if(!I || !I->getDebugLoc()) return "?";
	const DILocation* L = I->getDebugLoc();
	// report the innermost location inside the code under test, else the outermost
	const DILocation* best = nullptr;
	for(const DILocation* x = L; x; x = x->getInlinedAt()) {
		if(x->getFilename().contains("/usr/") || x->getFilename().contains("c++")) continue;
		best = x; break;
	}
	if(!best) best = L;
	std::string fn = best->getFilename().str();
	return fn + ":" + std::to_string(best->getLine());
}
