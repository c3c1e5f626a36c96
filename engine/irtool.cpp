// irtool: prepares linked LLVM bitcode for the VC generator and dumps it as JSON.
//   irtool in.bc out.json --entry REGEX --noinline REGEX... [--O pipeline]
// It internalises everything but the entries, marks functions that have a
// contract stub as noinline, runs a fixed function-level pipeline, and writes
// every instruction with GEPs resolved to (base + const + sum idx*scale).
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/Verifier.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/Support/Regex.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/Passes/PassBuilder.h>
#include <llvm/Analysis/LoopInfo.h>
#include <llvm/IR/Dominators.h>
#include <llvm/Transforms/IPO/Internalize.h>
#include <map>
#include <set>
#include <vector>
#include <string>
using namespace llvm;
static const DataLayout* DL;
static raw_ostream* O;
static std::map<const Value*, unsigned> ids;
static void str(StringRef s) {
    *O << '"';
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') *O << '\\' << c;
        else if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, 8, "\\u%04x", c); *O << b; }
        else *O << c;
    }
    *O << '"';
}
static void type(Type* t) {
    if (t->isVoidTy()) { *O << "\"v\""; return; }
    if (t->isPointerTy()) { *O << "64"; return; }
    if (t->isIntegerTy()) { *O << t->getIntegerBitWidth(); return; }
    if (auto* s = dyn_cast<StructType>(t)) {
        *O << "[";
        for (unsigned i = 0; i < s->getNumElements(); ++i) { if (i) *O << ","; type(s->getElementType(i)); }
        *O << "]"; return;
    }
    if (auto* a = dyn_cast<ArrayType>(t)) {
        *O << "[";
        for (unsigned i = 0; i < a->getNumElements(); ++i) { if (i) *O << ","; type(a->getElementType()); }
        *O << "]"; return;
    }
    std::string s; raw_string_ostream so(s); t->print(so); str("?" + so.str());
}
static std::string apint(const APInt& v) { SmallString<40> s; v.toString(s, 10, false); return std::string(s.str()); }
static void op(const Value* v) {
    if (auto* c = dyn_cast<ConstantInt>(v)) { *O << apint(c->getValue()); return; }
    if (isa<ConstantPointerNull>(v)) { *O << "0"; return; }
    if (isa<UndefValue>(v)) { *O << "null"; return; }
    if (isa<ConstantAggregateZero>(v)) {
        auto* z = cast<ConstantAggregateZero>(v);
        *O << "[";
        for (unsigned i = 0; i < z->getElementCount().getFixedValue(); ++i) { if (i) *O << ","; op(z->getElementValue(i)); }
        *O << "]"; return;
    }
    if (auto* a = dyn_cast<ConstantAggregate>(v)) {
        *O << "[";
        for (unsigned i = 0; i < a->getNumOperands(); ++i) { if (i) *O << ","; op(a->getOperand(i)); }
        *O << "]"; return;
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(v)) {
        *O << "[";
        for (unsigned i = 0; i < cd->getNumElements(); ++i) { if (i) *O << ","; op(cd->getElementAsConstant(i)); }
        *O << "]"; return;
    }
    if (auto* g = dyn_cast<GlobalValue>(v)) {
        *O << "{\"g\":"; str(g->getName()); *O << ",\"o\":0}"; return;
    }
    if (auto* ce = dyn_cast<ConstantExpr>(v)) {
        if (ce->getOpcode() == Instruction::PtrToInt || ce->getOpcode() == Instruction::IntToPtr) {
            op(ce->getOperand(0)); return;
        }
        if (ce->getOpcode() == Instruction::GetElementPtr) {
            APInt off(64, 0);
            if (cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) {
                auto* b = cast<GEPOperator>(ce)->getPointerOperand();
                *O << "{\"add\":["; op(b); *O << "," << apint(off) << "]}"; return;
            }
        }
        *O << "{\"ce\":\"" << ce->getOpcodeName() << "\",\"w\":"; type(ce->getType());
        if (ce->getOpcode() == Instruction::ICmp) *O << ",\"p\":\"" << CmpInst::getPredicateName((CmpInst::Predicate)ce->getPredicate()) << "\"";
        *O << ",\"a\":[";
        for (unsigned i = 0; i < ce->getNumOperands(); ++i) { if (i) *O << ","; op(ce->getOperand(i)); }
        *O << "]}"; return;
    }
    if (isa<ConstantFP>(v)) {
        *O << "{\"fp\":" << apint(cast<ConstantFP>(v)->getValueAPF().bitcastToAPInt()) << "}"; return;
    }
    auto it = ids.find(v);
    if (it != ids.end()) { *O << "\"%" << it->second << "\""; return; }
    if (isa<MetadataAsValue>(v)) { *O << "null"; return; }
    std::string s; raw_string_ostream so(s); v->print(so); str("?" + so.str());
}
// initialiser bytes: list of [offset, nbytes, operand]
static void initcells(const Constant* c, uint64_t off, bool& first) {
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cd = dyn_cast<ConstantDataSequential>(c)) {
        if (!first) *O << ","; first = false;
        StringRef raw = cd->getRawDataValues();
        *O << "[" << off << "," << raw.size() << ",\"x";
        for (unsigned char ch : raw) { char b[4]; snprintf(b, 4, "%02x", ch); *O << b; }
        *O << "\"]";
        return;
    }
    if (auto* s = dyn_cast<ConstantStruct>(c)) {
        auto* sl = DL->getStructLayout(s->getType());
        for (unsigned i = 0; i < s->getNumOperands(); ++i) initcells(s->getOperand(i), off + sl->getElementOffset(i), first);
        return;
    }
    if (auto* a = dyn_cast<ConstantArray>(c)) {
        uint64_t es = DL->getTypeAllocSize(a->getType()->getElementType());
        for (unsigned i = 0; i < a->getNumOperands(); ++i) initcells(a->getOperand(i), off + i * es, first);
        return;
    }
    if (c->isNullValue()) return;
    if (!first) *O << ","; first = false;
    *O << "[" << off << "," << DL->getTypeStoreSize(t) << ","; op(c); *O << "]";
}
int main(int argc, char** argv) {
    std::string in = argv[1], out = argv[2];
    std::vector<std::string> entries, noinl;
    std::string pipeline =
        "function(lower-expect,simplifycfg,sroa,early-cse,simplifycfg),"
        "cgscc(inline),globaldce,"
        "function(sroa,early-cse<memssa>,instcombine<no-verify-fixpoint>,simplifycfg,sroa,early-cse<memssa>,correlated-propagation,simplifycfg,instcombine<no-verify-fixpoint>,adce,simplifycfg,loop-simplify),globaldce";
    for (int i = 3; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--entry") entries.push_back(argv[++i]);
        else if (a == "--noinline") noinl.push_back(argv[++i]);
        else if (a == "--O") pipeline = argv[++i];
    }
    LLVMContext C;
    SMDiagnostic E;
    auto M = parseIRFile(in, E, C);
    if (!M) { E.print("irtool", errs()); return 3; }
    DL = &M->getDataLayout();
    std::vector<Regex> er, nr;
    for (auto& s : entries) er.emplace_back(s);
    for (auto& s : noinl) nr.emplace_back(s);
    std::set<std::string> keep;
    for (auto& F : *M) {
        std::string dm = demangle(F.getName().str());
        for (auto& r : er) if (r.match(F.getName())) keep.insert(F.getName().str());
        bool ni = false;
        for (auto& r : nr) if (r.match(dm)) ni = true;
        if (ni) { F.removeFnAttr(Attribute::AlwaysInline); F.addFnAttr(Attribute::NoInline); keep.insert(F.getName().str()); }
        F.removeFnAttr(Attribute::OptimizeNone);
    }
    // keep noinline functions with unchanged signature: only function-level passes run
    internalizeModule(*M, [&](const GlobalValue& g) { return keep.count(g.getName().str()) || g.getName() == "llvm.used"; });
    LoopAnalysisManager LAM; FunctionAnalysisManager FAM; CGSCCAnalysisManager CGAM; ModuleAnalysisManager MAM;
    PassBuilder PB;
    PB.registerModuleAnalyses(MAM); PB.registerCGSCCAnalyses(CGAM); PB.registerFunctionAnalyses(FAM); PB.registerLoopAnalyses(LAM);
    PB.crossRegisterProxies(LAM, FAM, CGAM, MAM);
    ModulePassManager MPM;
    if (auto e = PB.parsePassPipeline(MPM, pipeline)) { errs() << toString(std::move(e)) << "\n"; return 3; }
    MPM.run(*M, MAM);
    std::error_code ec;
    raw_fd_ostream os(out, ec);
    O = &os;
    *O << "{\"functions\":{";
    bool ff = true;
    for (auto& F : *M) {
        if (!ff) *O << ",\n"; ff = false;
        str(F.getName()); *O << ":{\"dm\":"; str(demangle(F.getName().str()));
        *O << ",\"ret\":"; type(F.getReturnType());
        ids.clear(); unsigned n = 0;
        *O << ",\"args\":[";
        bool fa = true;
        for (auto& A : F.args()) {
            if (!fa) *O << ","; fa = false;
            ids[&A] = n; *O << "[" << n++ << ","; type(A.getType());
            *O << "," << (A.hasByValAttr() ? DL->getTypeAllocSize(A.getParamByValType()) : TypeSize::getFixed(0)) << "]";
        }
        *O << "]";
        if (F.isDeclaration()) { *O << "}"; continue; }
        std::map<const BasicBlock*, unsigned> bid; unsigned nb = 0;
        for (auto& B : F) bid[&B] = nb++;
        for (auto& B : F) for (auto& I : B) if (!I.getType()->isVoidTy()) ids[&I] = n++;
        DominatorTree DT(F); LoopInfo LI(DT);
        *O << ",\"loops\":[";
        bool fl = true;
        for (auto* L : LI.getLoopsInPreorder()) {
            if (!fl) *O << ","; fl = false;
            *O << "{\"h\":" << bid[L->getHeader()] << ",\"depth\":" << L->getLoopDepth() << ",\"b\":[";
            bool f2 = true;
            for (auto* B : L->blocks()) { if (!f2) *O << ","; f2 = false; *O << bid[B]; }
            *O << "],\"line\":" << (L->getStartLoc() ? L->getStartLoc().getLine() : 0) << "}";
        }
        *O << "],\"blocks\":[";
        bool fb = true;
        for (auto& B : F) {
            if (!fb) *O << ",\n"; fb = false;
            *O << "[";
            bool fi = true;
            for (auto& I : B) {
                if (isa<DbgInfoIntrinsic>(I)) continue;
                if (auto* II = dyn_cast<IntrinsicInst>(&I)) {
                    auto id = II->getIntrinsicID();
                    if (id == Intrinsic::lifetime_start || id == Intrinsic::lifetime_end || id == Intrinsic::assume
                        || id == Intrinsic::experimental_noalias_scope_decl || id == Intrinsic::donothing) continue;
                }
                if (!fi) *O << ",\n"; fi = false;
                unsigned line = I.getDebugLoc() ? I.getDebugLoc().getLine() : 0;
                long dst = I.getType()->isVoidTy() ? -1 : (long)ids[&I];
                *O << "[\"" << I.getOpcodeName() << "\"," << dst << "," << line << ",";
                auto ops = [&] { *O << "["; for (unsigned i = 0; i < I.getNumOperands(); ++i) { if (i) *O << ","; op(I.getOperand(i)); } *O << "]"; };
                switch (I.getOpcode()) {
                case Instruction::Ret: ops(); break;
                case Instruction::Br: {
                    auto& b = cast<BranchInst>(I);
                    if (b.isConditional()) { op(b.getCondition()); *O << "," << bid[b.getSuccessor(0)] << "," << bid[b.getSuccessor(1)]; }
                    else *O << "null," << bid[b.getSuccessor(0)];
                    break;
                }
                case Instruction::Switch: {
                    auto& s = cast<SwitchInst>(I);
                    op(s.getCondition()); *O << ","; type(s.getCondition()->getType());
                    *O << "," << bid[s.getDefaultDest()] << ",[";
                    bool f3 = true;
                    for (auto& c : s.cases()) { if (!f3) *O << ","; f3 = false; *O << "[" << apint(c.getCaseValue()->getValue()) << "," << bid[c.getCaseSuccessor()] << "]"; }
                    *O << "]"; break;
                }
                case Instruction::PHI: {
                    auto& p = cast<PHINode>(I);
                    type(p.getType()); *O << ",[";
                    for (unsigned i = 0; i < p.getNumIncomingValues(); ++i) { if (i) *O << ","; *O << "[" << bid[p.getIncomingBlock(i)] << ","; op(p.getIncomingValue(i)); *O << "]"; }
                    *O << "]"; break;
                }
                case Instruction::Alloca: {
                    auto& a = cast<AllocaInst>(I);
                    *O << DL->getTypeAllocSize(a.getAllocatedType()) << ","; op(a.getArraySize()); *O << ","; str(a.getName());
                    break;
                }
                case Instruction::Load: {
                    type(I.getType()); *O << "," << DL->getTypeStoreSize(I.getType()) << ","; op(I.getOperand(0)); break;
                }
                case Instruction::Store: {
                    Type* t = I.getOperand(0)->getType();
                    type(t); *O << "," << DL->getTypeStoreSize(t) << ","; op(I.getOperand(0)); *O << ","; op(I.getOperand(1)); break;
                }
                case Instruction::GetElementPtr: {
                    MapVector<Value*, APInt> vo; APInt co(64, 0);
                    if (!cast<GEPOperator>(I).collectOffset(*DL, 64, vo, co)) { *O << "\"?gep\""; break; }
                    op(cast<GEPOperator>(I).getPointerOperand());
                    *O << "," << apint(co) << ",[";
                    bool f3 = true;
                    for (auto& kv : vo) { if (!f3) *O << ","; f3 = false; *O << "["; op(kv.first); *O << ","; type(kv.first->getType()); *O << "," << apint(kv.second) << "]"; }
                    *O << "]"; break;
                }
                case Instruction::ICmp:
                    *O << "\"" << CmpInst::getPredicateName(cast<ICmpInst>(I).getPredicate()) << "\","; type(I.getOperand(0)->getType()); *O << ","; ops(); break;
                case Instruction::Call: case Instruction::Invoke: {
                    auto& c = cast<CallBase>(I);
                    op(c.getCalledOperand()); *O << ","; type(c.getType()); *O << ",[";
                    for (unsigned i = 0; i < c.arg_size(); ++i) {
                        if (i) *O << ",";
                        *O << "["; op(c.getArgOperand(i)); *O << ","; type(c.getArgOperand(i)->getType());
                        *O << "," << (c.isByValArgument(i) ? DL->getTypeAllocSize(c.getParamByValType(i)) : TypeSize::getFixed(0)) << "]";
                    }
                    *O << "]";
                    if (I.getOpcode() == Instruction::Invoke) *O << "," << bid[cast<InvokeInst>(I).getNormalDest()];
                    break;
                }
                case Instruction::ExtractValue: {
                    auto& e = cast<ExtractValueInst>(I);
                    op(e.getAggregateOperand()); *O << ",[";
                    for (unsigned i = 0; i < e.getNumIndices(); ++i) { if (i) *O << ","; *O << e.getIndices()[i]; }
                    *O << "],"; type(e.getAggregateOperand()->getType()); *O << ","; type(e.getType()); break;
                }
                case Instruction::InsertValue: {
                    auto& e = cast<InsertValueInst>(I);
                    op(e.getAggregateOperand()); *O << ","; op(e.getInsertedValueOperand()); *O << ",[";
                    for (unsigned i = 0; i < e.getNumIndices(); ++i) { if (i) *O << ","; *O << e.getIndices()[i]; }
                    *O << "],"; type(e.getType()); break;
                }
                case Instruction::AtomicRMW: {
                    auto& a = cast<AtomicRMWInst>(I);
                    *O << "\"" << AtomicRMWInst::getOperationName(a.getOperation()) << "\","; type(a.getType()); *O << ","; ops(); break;
                }
                default:
                    type(I.getType()); *O << ",";
                    if (I.getNumOperands()) type(I.getOperand(0)->getType()); else *O << "0";
                    *O << ","; ops();
                }
                *O << "]";
            }
            *O << "]";
        }
        *O << "]}";
    }
    *O << "},\n\"globals\":{";
    bool fg = true;
    for (auto& G : M->globals()) {
        if (!fg) *O << ",\n"; fg = false;
        str(G.getName());
        *O << ":{\"size\":" << (G.getValueType()->isSized() ? DL->getTypeAllocSize(G.getValueType()) : TypeSize::getFixed(0))
           << ",\"const\":" << (G.isConstant() ? 1 : 0) << ",\"ext\":" << (G.hasInitializer() ? 0 : 1) << ",\"init\":[";
        bool f = true;
        if (G.hasInitializer()) initcells(G.getInitializer(), 0, f);
        *O << "]}";
    }
    *O << "},\"aliases\":{";
    bool fal = true;
    for (auto& A : M->aliases()) {
        if (!fal) *O << ","; fal = false;
        str(A.getName()); *O << ":"; op(A.getAliasee());
    }
    *O << "}}\n";
    return 0;
}
