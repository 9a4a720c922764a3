// irdump: reads LLVM bitcode compiled from the real /repo headers plus a contract TU, normalises it
// (SROA, CFG simplification, loop-simplify, attribute inference) and prints the reachable part as JSON.
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Dominators.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/Analysis/ScalarEvolution.h>
#include <llvm/Demangle/Demangle.h>
#include <set>
#include <map>
#include <deque>
using namespace llvm;
static const DataLayout *DL;
static std::map<const Value *, int> ids;
static std::set<const GlobalValue *> seen;
static std::deque<const GlobalValue *> work;
static void need(const GlobalValue *g) { if (seen.insert(g).second) work.push_back(g); }

static json::Value ty(Type *t) {
	if (t->isVoidTy()) return "void";
	if (t->isIntegerTy()) return int64_t(t->getIntegerBitWidth());
	if (t->isPointerTy()) return "ptr";
	if (t->isFloatTy()) return "float";
	if (t->isDoubleTy()) return "double";
	if (auto *s = dyn_cast<StructType>(t)) {
		if (!s->isSized()) return "opaque";
		json::Array a, offs;
		auto *l = DL->getStructLayout(s);
		for (unsigned i = 0; i < s->getNumElements(); ++i) { a.push_back(ty(s->getElementType(i))); offs.push_back(int64_t(l->getElementOffset(i))); }
		return json::Object{{"s", std::move(a)}, {"o", std::move(offs)}, {"z", int64_t(DL->getTypeAllocSize(t))}};
	}
	if (auto *s = dyn_cast<ArrayType>(t))
		return json::Object{{"a", ty(s->getElementType())}, {"n", int64_t(s->getNumElements())}, {"z", int64_t(DL->getTypeAllocSize(t))}};
	if (t->isMetadataTy() || t->isLabelTy() || t->isTokenTy()) return "meta";
	if (t->isX86_FP80Ty()) return "x86_fp80";
	if (auto *v = dyn_cast<FixedVectorType>(t)) return json::Object{{"v", ty(v->getElementType())}, {"n", int64_t(v->getNumElements())}};
	return "unknown";
}
static json::Value val(const Value *v);
static json::Value cst(const Constant *c) {
	if (auto *i = dyn_cast<ConstantInt>(c)) { SmallString<40> s; i->getValue().toStringUnsigned(s); return json::Object{{"i", std::string(s.str())}, {"w", int64_t(i->getBitWidth())}}; }
	if (auto *f = dyn_cast<ConstantFP>(c)) { SmallString<40> s; f->getValueAPF().bitcastToAPInt().toStringUnsigned(s); return json::Object{{"f", std::string(s.str())}, {"t", ty(c->getType())}}; }
	if (isa<ConstantPointerNull>(c)) return json::Object{{"null", 1}};
	if (isa<UndefValue>(c)) return json::Object{{"undef", ty(c->getType())}};
	if (auto *g = dyn_cast<GlobalAlias>(c)) { return cst(g->getAliasee()); }
	if (auto *g = dyn_cast<GlobalValue>(c)) { need(g); return json::Object{{"g", g->getName().str()}}; }
	if (auto *g = dyn_cast<GEPOperator>(c)) {
		APInt off(64, 0);
		if (g->accumulateConstantOffset(*DL, off)) return json::Object{{"gep", val(g->getPointerOperand())}, {"off", off.getSExtValue()}};
	}
	if (c->isNullValue()) return json::Object{{"zero", ty(c->getType())}};
	if (auto *d = dyn_cast<ConstantDataSequential>(c)) {
		json::Array a; for (unsigned i = 0; i < d->getNumElements(); ++i) a.push_back(cst(d->getElementAsConstant(i)));
		return json::Object{{"agg", std::move(a)}, {"t", ty(c->getType())}};
	}
	if (auto *d = dyn_cast<ConstantAggregate>(c)) {
		json::Array a; for (unsigned i = 0; i < d->getNumOperands(); ++i) a.push_back(cst(d->getOperand(i)));
		return json::Object{{"agg", std::move(a)}, {"t", ty(c->getType())}};
	}
	if (auto *e = dyn_cast<ConstantExpr>(c)) {
		json::Array a; for (auto &o : e->operands()) a.push_back(val(o.get()));
		return json::Object{{"ce", e->getOpcodeName()}, {"ops", std::move(a)}, {"t", ty(c->getType())}};
	}
	return json::Object{{"unk", 1}};
}
static json::Value val(const Value *v) {
	if (auto *c = dyn_cast<Constant>(v)) return cst(c);
	auto it = ids.find(v);
	if (it != ids.end()) return int64_t(it->second);
	if (isa<MetadataAsValue>(v)) return json::Object{{"meta", 1}};
	if (isa<InlineAsm>(v)) return json::Object{{"asm", 1}};
	return json::Object{{"unk", 2}};
}
static std::string q(const std::string &s) { return s; }

static json::Value dumpFn(Function &F, LoopInfo &LI, ScalarEvolution &SE) {
	ids.clear();
	int n = 0;
	std::map<const BasicBlock *, int> bid;
	json::Array params, blocks;
	for (auto &a : F.args()) {
		ids[&a] = n++;
		json::Object p{{"id", ids[&a]}, {"t", ty(a.getType())}};
		if (a.hasByValAttr()) p["byval"] = int64_t(DL->getTypeAllocSize(a.getParamByValType()));
		if (a.hasStructRetAttr()) p["sret"] = int64_t(DL->getTypeAllocSize(a.getParamStructRetType()));
		params.push_back(std::move(p));
	}
	for (auto &B : F) { int k = bid.size(); bid[&B] = k; for (auto &I : B) ids[&I] = n++; }
	for (auto &B : F) {
		json::Array ins;
		for (auto &I : B) {
			if (isa<DbgInfoIntrinsic>(&I)) continue;
			json::Object o{{"op", I.getOpcodeName()}, {"id", ids[&I]}, {"t", ty(I.getType())}};
			if (auto &d = I.getDebugLoc()) { 
				o["l"] = int64_t(d.getLine());
				if (auto *sc = dyn_cast_or_null<DIScope>(d.getScope())) o["file"] = sc->getFilename().str();
			}
			json::Array ops;
			if (auto *P = dyn_cast<PHINode>(&I)) {
				for (unsigned i = 0; i < P->getNumIncomingValues(); ++i)
					ops.push_back(json::Array{val(P->getIncomingValue(i)), bid[P->getIncomingBlock(i)]});
			} else if (auto *G = dyn_cast<GetElementPtrInst>(&I)) {
				ops.push_back(val(G->getPointerOperand()));
				MapVector<Value *, APInt> vo; APInt co(64, 0);
				if (!G->collectOffset(*DL, 64, vo, co)) o["bad"] = 1;
				o["off"] = co.getSExtValue();
				json::Array sc;
				for (auto &p : vo) sc.push_back(json::Array{val(p.first), p.second.getSExtValue(), int64_t(p.first->getType()->getIntegerBitWidth())});
				o["sc"] = std::move(sc);
			} else if (auto *C = dyn_cast<CallBase>(&I)) {
				if (auto *f = dyn_cast<Function>(C->getCalledOperand()->stripPointerCasts())) { o["fn"] = f->getName().str(); need(f); }
				else o["cal"] = val(C->getCalledOperand());
				for (auto &a : C->args()) ops.push_back(val(a.get()));
				json::Array bv; bool any = false;
				for (unsigned i = 0; i < C->arg_size(); ++i) {
					int64_t z = C->isByValArgument(i) ? int64_t(DL->getTypeAllocSize(C->getParamByValType(i))) : 0;
					any |= z != 0; bv.push_back(z);
				}
				if (any) o["bv"] = std::move(bv);
				if (auto *V = dyn_cast<InvokeInst>(&I)) { o["nd"] = bid[V->getNormalDest()]; o["ud"] = bid[V->getUnwindDest()]; }
			} else if (auto *A = dyn_cast<AllocaInst>(&I)) {
				o["z"] = int64_t(DL->getTypeAllocSize(A->getAllocatedType()));
				o["al"] = int64_t(A->getAlign().value());
				o["at"] = ty(A->getAllocatedType());
				ops.push_back(val(A->getArraySize()));
			} else if (auto *B2 = dyn_cast<BranchInst>(&I)) {
				if (B2->isConditional()) ops.push_back(val(B2->getCondition()));
				json::Array s; for (unsigned i = 0; i < B2->getNumSuccessors(); ++i) s.push_back(bid[B2->getSuccessor(i)]);
				o["succ"] = std::move(s);
			} else if (auto *S = dyn_cast<SwitchInst>(&I)) {
				ops.push_back(val(S->getCondition()));
				o["def"] = bid[S->getDefaultDest()];
				json::Array cs; for (auto &c : S->cases()) cs.push_back(json::Array{cst(c.getCaseValue()), bid[c.getCaseSuccessor()]});
				o["cases"] = std::move(cs);
			} else if (auto *L = dyn_cast<LandingPadInst>(&I)) {
				json::Array cl; for (unsigned i = 0; i < L->getNumClauses(); ++i) cl.push_back(json::Array{L->isCatch(i) ? "catch" : "filter", cst(L->getClause(i))});
				o["cl"] = std::move(cl); o["cleanup"] = L->isCleanup();
			} else {
				for (auto &u : I.operands()) ops.push_back(val(u.get()));
				if (auto *E = dyn_cast<ExtractValueInst>(&I)) { json::Array ix; for (auto i : E->indices()) ix.push_back(int64_t(i)); o["ix"] = std::move(ix); }
				if (auto *E = dyn_cast<InsertValueInst>(&I)) { json::Array ix; for (auto i : E->indices()) ix.push_back(int64_t(i)); o["ix"] = std::move(ix); }
				if (auto *c = dyn_cast<CmpInst>(&I)) { o["p"] = CmpInst::getPredicateName(c->getPredicate()).str(); o["ot"] = ty(c->getOperand(0)->getType()); }
				if (auto *ob = dyn_cast<OverflowingBinaryOperator>(&I)) { if (ob->hasNoSignedWrap()) o["nsw"] = 1; if (ob->hasNoUnsignedWrap()) o["nuw"] = 1; }
				if (auto *pe = dyn_cast<PossiblyExactOperator>(&I)) if (pe->isExact()) o["exact"] = 1;
				if (isa<CastInst>(&I)) o["ot"] = ty(I.getOperand(0)->getType());
				if (auto *st = dyn_cast<StoreInst>(&I)) { o["ot"] = ty(st->getValueOperand()->getType()); o["z"] = int64_t(DL->getTypeStoreSize(st->getValueOperand()->getType())); o["al"] = int64_t(st->getAlign().value()); if (st->isVolatile()) o["vol"] = 1; }
				if (auto *ld = dyn_cast<LoadInst>(&I)) { o["z"] = int64_t(DL->getTypeStoreSize(ld->getType())); o["al"] = int64_t(ld->getAlign().value()); }
				if (auto *rm = dyn_cast<AtomicRMWInst>(&I)) o["rmw"] = AtomicRMWInst::getOperationName(rm->getOperation()).str();
			}
			o["ops"] = std::move(ops);
			ins.push_back(std::move(o));
		}
		blocks.push_back(std::move(ins));
	}
	json::Array loops;
	for (auto *L : LI.getLoopsInPreorder()) {
		json::Array bl; for (auto *b : L->blocks()) bl.push_back(bid[b]);
		loops.push_back(json::Object{{"h", bid[L->getHeader()]}, {"b", std::move(bl)}, {"trip", int64_t(SE.getSmallConstantMaxTripCount(L))}});
	}
	json::Object r{{"params", std::move(params)}, {"blocks", std::move(blocks)}, {"loops", std::move(loops)}, {"ret", ty(F.getReturnType())}, {"n", n}};
	r["pure"] = F.doesNotAccessMemory();
	r["ro"] = F.onlyReadsMemory();
	r["nounwind"] = F.doesNotThrow();
	if (auto *sp = F.getSubprogram()) { r["line"] = int64_t(sp->getLine()); r["file"] = sp->getFilename().str(); }
	return std::move(r);
}

int main(int argc, char **argv) {
	LLVMContext ctx;
	SMDiagnostic err;
	auto M = parseIRFile(argv[1], err, ctx);
	if (!M) { err.print(argv[0], errs()); return 2; }
	for (auto &F : *M) { F.removeFnAttr(Attribute::OptimizeNone); }
	DL = &M->getDataLayout();
	LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
	PassBuilder PB;
	PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
	PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
	ModulePassManager MPM;
	const char *pipe = argc > 3 ? argv[3] : "function(sroa,early-cse,simplifycfg,adce,loop-simplify),cgscc(function-attrs)";
	if (auto e = PB.parsePassPipeline(MPM, pipe)) { errs() << toString(std::move(e)) << "\n"; return 2; }
	MPM.run(*M, MAM);
	json::Object fns, globals, decls;
	// roots: functions whose demangled name begins with H_ or vcinv:: or vcspec:: (argv[2] comma separated prefixes)
	std::vector<std::string> pref; { StringRef s(argc > 2 ? argv[2] : "H_"); SmallVector<StringRef, 8> v; s.split(v, ','); for (auto x : v) pref.push_back(x.str()); }
	for (auto &F : *M) if (!F.isDeclaration()) {
		std::string d = demangle(F.getName().str());
		for (auto &p : pref) if (d.compare(0, p.size(), p) == 0) need(&F);
	}
	if (auto *g = M->getGlobalVariable("llvm.global_ctors")) need(g);
	while (!work.empty()) {
		auto *g = work.front(); work.pop_front();
		if (auto *f = dyn_cast<Function>(g)) {
			auto *F = const_cast<Function *>(f);
			if (F->isDeclaration()) { decls[F->getName().str()] = json::Object{{"d", demangle(F->getName().str())}, {"nounwind", F->doesNotThrow()}, {"ret", ty(F->getReturnType())}}; continue; }
			auto &LI = FAM.getResult<LoopAnalysis>(*F); auto &SE = FAM.getResult<ScalarEvolutionAnalysis>(*F);
			auto v = dumpFn(*F, LI, SE);
			(*v.getAsObject())["d"] = demangle(F->getName().str());
			fns[F->getName().str()] = std::move(v);
		} else if (auto *v = dyn_cast<GlobalVariable>(g)) {
			json::Object o{{"z", v->getValueType()->isSized() ? int64_t(DL->getTypeAllocSize(v->getValueType())) : int64_t(0)}, {"const", v->isConstant()}, {"t", ty(v->getValueType())}, {"d", demangle(v->getName().str())}};
			o["al"] = int64_t(v->getAlign() ? v->getAlign()->value() : 1);
			if (v->hasInitializer()) o["init"] = cst(v->getInitializer());
			globals[v->getName().str()] = std::move(o);
		}
	}
	outs() << json::Value(json::Object{{"fns", std::move(fns)}, {"globals", std::move(globals)}, {"decls", std::move(decls)}}) << "\n";
	return 0;
}
