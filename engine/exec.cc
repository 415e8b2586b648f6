// gcsym: symbolic executor over LLVM bitcode.
#include "exec.hh"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/Operator.h>
#include <llvm/Demangle/Demangle.h>
#include <chrono>
#include <fstream>
#include <sys/stat.h>
#include <sys/resource.h>
#include <unistd.h>
using namespace llvm;

static const DataLayout* DL; static Module* M;
static std::unordered_map<const GlobalValue*,u64> gaddr;
static std::unordered_map<u64,const Function*> faddr;
static std::map<u64,Ref> gobjs;            // pristine globals
static std::unordered_map<const Function*,Func*> funcs;
static std::unordered_map<std::string,u64> tiByName;

// ---- options / results
static double optTime=600; static u64 optSteps=30000000; static unsigned optMaxViol=10; static int splitI=0, splitN=1; static bool optTrace=false; static bool optFpCast=false; static u64 optForks=5000000;
static std::string outDir="."; static std::string entry="harness_main"; static std::string argStr;
struct Viol { std::string kind,msg,loc; std::string file; bool uninit; };
static std::vector<Viol> viols; static std::set<std::string> violKeys; static std::map<std::string,u64> violCount;
static std::map<std::string,u64> covers; static u64 nPaths=0,nForks=0,nSteps=0,nAsserts=0,nAssertSym=0,nKilledAssume=0,nUnsupp=0,nBound=0,nErr=0,nUnkBranch=0,nUnkAssert=0,nLoadsChecked=0,nUnexplored=0;
static std::map<std::string,u64> unsupp; static std::vector<std::string> samples; 
static std::map<std::string,u64> assertMsgs;
static std::chrono::steady_clock::time_point T0;
static double now(){ return std::chrono::duration<double>(std::chrono::steady_clock::now()-T0).count(); }

struct Kill {};       // terminates current path

static std::vector<State*> work;

static unsigned scalarW(Type* t) { if (t->isIntegerTy()) return t->getIntegerBitWidth(); if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isX86_FP80Ty()) return 80; if (t->isHalfTy()) return 16; return 0; }
static void flatten(Type* t, u64 off, std::vector<Leaf>& out) {
  if (t->isVoidTy()||t->isMetadataTy()||t->isLabelTy()||t->isTokenTy()) return;
  if (unsigned w=scalarW(t)) { out.push_back({w,off}); return; }
  if (auto* s=dyn_cast<StructType>(t)) { auto* sl=DL->getStructLayout(s); for (unsigned i=0;i<s->getNumElements();i++) flatten(s->getElementType(i),off+(u64)sl->getElementOffset(i),out); return; }
  if (auto* a=dyn_cast<ArrayType>(t)) { u64 es=DL->getTypeAllocSize(a->getElementType()); for (u64 i=0;i<a->getNumElements();i++) flatten(a->getElementType(),off+i*es,out); return; }
  if (auto* v=dyn_cast<FixedVectorType>(t)) { Type* et=v->getElementType(); unsigned w=scalarW(et); for (u64 i=0;i<v->getNumElements();i++) out.push_back({w,off+i*((w+7)/8)}); return; }
  errs()<<"flatten: unknown type "<<*t<<"\n"; abort();
}
static unsigned nleaves(Type* t) { static std::unordered_map<Type*,unsigned> memo; auto it=memo.find(t); if (it!=memo.end()) return it->second; std::vector<Leaf> l; flatten(t,0,l); return memo[t]=l.size(); }

static u64 addrOf(const GlobalValue* g);
static Val constLeafFP(const APFloat& f, unsigned w) { APInt a=f.bitcastToAPInt(); if (w<=64) return VC(a.getZExtValue()); u128 v=(u128)a.extractBitsAsZExtValue(64,0); v|=(u128)a.extractBitsAsZExtValue(w-64,64)<<64; return VE(mkConst(v,w)); }
static i128 gepConstOff(const GEPOperator* g);
static void constLeaves(const Constant* c, std::vector<Val>& out) {
  Type* t=c->getType();
  if (isa<UndefValue>(c)||isa<ConstantAggregateZero>(c)||isa<ConstantPointerNull>(c)||isa<ConstantTokenNone>(c)) { std::vector<Leaf> l; flatten(t,0,l); for (auto& x:l) out.push_back(x.w>64? VE(mkConst(0,x.w)) : VC(0)); return; }
  if (auto* i=dyn_cast<ConstantInt>(c)) { unsigned w=i->getBitWidth(); if (w<=64) out.push_back(VC(i->getZExtValue())); else if (w<=128) { u128 v=(u128)i->getValue().extractBitsAsZExtValue(64,0)|((u128)i->getValue().extractBitsAsZExtValue(w-64,64)<<64); out.push_back(VE(mkConst(v,w))); } else { errs()<<"wide const\n"; out.push_back(VC(0)); } return; }
  if (auto* f=dyn_cast<ConstantFP>(c)) { out.push_back(constLeafFP(f->getValueAPF(),scalarW(t))); return; }
  if (auto* g=dyn_cast<GlobalValue>(c)) { out.push_back(VC(addrOf(g))); return; }
  if (auto* d=dyn_cast<ConstantDataSequential>(c)) { for (unsigned i=0;i<d->getNumElements();i++) constLeaves(d->getElementAsConstant(i),out); return; }
  if (auto* a=dyn_cast<ConstantAggregate>(c)) { for (unsigned i=0;i<a->getNumOperands();i++) constLeaves(a->getOperand(i),out); return; }
  if (auto* e=dyn_cast<ConstantExpr>(c)) {
    auto one=[&](unsigned i){ std::vector<Val> v; constLeaves(e->getOperand(i),v); return v[0].c; };
    unsigned w=scalarW(t);
    switch (e->getOpcode()) {
      case Instruction::GetElementPtr: { auto* g=cast<GEPOperator>(e); std::vector<Val> v; constLeaves(cast<Constant>(g->getPointerOperand()),v); out.push_back(VC((u64)(v[0].c+(u64)gepConstOff(g)))); return; }
      case Instruction::BitCast: case Instruction::IntToPtr: case Instruction::PtrToInt: case Instruction::AddrSpaceCast: out.push_back(VC(one(0)&m64(w))); return;
      case Instruction::Trunc: out.push_back(VC(one(0)&m64(w))); return;
      case Instruction::Add: out.push_back(VC((one(0)+one(1))&m64(w))); return;
      case Instruction::Sub: out.push_back(VC((one(0)-one(1))&m64(w))); return;
      case Instruction::Mul: out.push_back(VC((one(0)*one(1))&m64(w))); return;
      case Instruction::ICmp: { u64 a=one(0),b=one(1); bool r=false; switch(e->getPredicate()){case CmpInst::ICMP_EQ:r=a==b;break;case CmpInst::ICMP_NE:r=a!=b;break;case CmpInst::ICMP_ULT:r=a<b;break;case CmpInst::ICMP_UGT:r=a>b;break;default:errs()<<"constexpr icmp\n";} out.push_back(VC(r)); return; }
      default: errs()<<"constexpr unsupported: "<<*e<<"\n"; out.push_back(VC(0)); return;
    }
  }
  if (isa<DSOLocalEquivalent>(c)||isa<NoCFIValue>(c)) { out.push_back(VC(addrOf(cast<GlobalValue>(c->getOperand(0))))); return; }
  if (isa<BlockAddress>(c)) { out.push_back(VC(0)); return; }
  errs()<<"constant unsupported: "<<*c<<"\n"; abort();
}
static i128 gepConstOff(const GEPOperator* g) { APInt off(64,0); if (g->accumulateConstantOffset(*DL,off)) return (i128)off.getSExtValue(); errs()<<"gep const off\n"; return 0; }

static void initObj(MO* o, const Constant* c, u64 off) {
  Type* t=c->getType();
  if (isa<ConstantAggregateZero>(c)||isa<UndefValue>(c)||isa<ConstantPointerNull>(c)) return;
  if (auto* d=dyn_cast<ConstantDataSequential>(c)) { StringRef r=d->getRawDataValues(); memcpy(&o->b[off],r.data(),r.size()); return; }
  if (auto* a=dyn_cast<ConstantArray>(c)) { u64 es=DL->getTypeAllocSize(cast<ArrayType>(t)->getElementType()); for (unsigned i=0;i<a->getNumOperands();i++) initObj(o,a->getOperand(i),off+i*es); return; }
  if (auto* s=dyn_cast<ConstantStruct>(c)) { auto* sl=DL->getStructLayout(s->getType()); for (unsigned i=0;i<s->getNumOperands();i++) initObj(o,s->getOperand(i),off+(u64)sl->getElementOffset(i)); return; }
  std::vector<Leaf> l; flatten(t,0,l); std::vector<Val> v; constLeaves(c,v);
  for (size_t i=0;i<l.size();i++) { u128 x = v[i].e ? v[i].e->c : v[i].c; for (unsigned k=0;k<(l[i].w+7)/8;k++) o->b[off+l[i].off+k]=(u8)(x>>(8*k)); }
}
static u64 gTop=0x20000000, fTop=0x10000000;
static u64 addrOf(const GlobalValue* g) {
  auto it=gaddr.find(g); if (it!=gaddr.end()) return it->second;
  if (auto* a=dyn_cast<GlobalAlias>(g)) { std::vector<Val> v; constLeaves(a->getAliasee(),v); return gaddr[g]=v[0].c; }
  if (auto* f=dyn_cast<Function>(g)) { u64 a=fTop; fTop+=16; gaddr[g]=a; faddr[a]=f; return a; }
  auto* v=cast<GlobalVariable>(g);
  u64 sz = v->getValueType()->isSized()? (u64)DL->getTypeAllocSize(v->getValueType()) : 8;
  if (v->isDeclaration() && sz<128) sz=128;
  u64 al = std::max<u64>(16, v->getAlign().valueOrOne().value());
  gTop=(gTop+al-1)/al*al; u64 a=gTop; gTop+=sz+64; gaddr[g]=a; return a;
}
static void loadGlobals() {
  for (auto& f: *M) addrOf(&f);
  for (auto& g: M->globals()) addrOf(&g);
  for (auto& g: M->globals()) {
    MO* o=new MO; o->base=gaddr[&g]; u64 sz= g.getValueType()->isSized()? (u64)DL->getTypeAllocSize(g.getValueType()) : 8; if (g.isDeclaration()&&sz<128) sz=128; o->size=sz; o->b.assign(sz,0); o->kind=MK_GLOBAL; o->ro=g.isConstant()&&!g.isDeclaration(); o->name=strdup(g.getName().str().c_str());
    if (g.hasInitializer()) initObj(o,g.getInitializer(),0);
    gobjs[o->base]=Ref(o);
  }
}

// ---------------------------------------------------------------- builtins
struct CallCtx { State& s; Frame& f; Ins& in; CallInfo& ci; std::vector<Val>& a; const Function* fn; };
typedef void (*BI)(CallCtx&);
static std::unordered_map<std::string,BI> bis;
static std::vector<BI> biTab; static std::vector<std::string> biNames;
static int findBI(const Function* f);

// ---------------------------------------------------------------- decode
static Func* getFunc(const Function* F);
enum { X_BR=1000, X_CONDBR, X_SWITCH };
static void decode(Func* fn) {
  const Function* F=fn->F; fn->decoded=true;
  std::unordered_map<const Value*,int> slot; unsigned ns=0;
  for (auto& a: F->args()) { slot[&a]=ns; ns+=nleaves(a.getType()); }
  fn->nargleaf=ns;
  for (auto& b: *F) for (auto& i: b) { slot[&i]=ns; ns+=nleaves(i.getType()); }
  fn->nslots=ns;
  std::unordered_map<const Value*,int> cpool;
  auto opnd=[&](const Value* v)->int {
    auto it=slot.find(v); if (it!=slot.end()) return it->second;
    auto c=cpool.find(v); if (c!=cpool.end()) return c->second;
    int idx=fn->consts.size(); std::vector<Val> l;
    if (auto* k=dyn_cast<Constant>(v)) constLeaves(k,l); else { l.push_back(VC(0)); }
    for (auto& x:l) fn->consts.push_back(x);
    if (l.empty()) fn->consts.push_back(VC(0));
    return cpool[v]=~idx;
  };
  std::unordered_map<const BasicBlock*,int> bpc; int pc=0;
  for (auto& b: *F) { bpc[&b]=pc; for (auto& i: b) { if (isa<PHINode>(i)||isa<DbgInfoIntrinsic>(i)) continue; if (auto* ii=dyn_cast<IntrinsicInst>(&i)) { auto id=ii->getIntrinsicID(); if (id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::assume) continue; } pc++; } }
  auto edge=[&](const BasicBlock* from, const BasicBlock* to)->int { Edge e; e.pc=bpc[to]; for (auto& p: to->phis()) e.mv.push_back({slot[&p],opnd(p.getIncomingValueForBlock(from)),nleaves(p.getType())}); fn->edges.push_back(std::move(e)); return fn->edges.size()-1; };
  for (auto& b: *F) for (auto& i: b) {
    if (isa<PHINode>(i)||isa<DbgInfoIntrinsic>(i)) continue;
    if (auto* ii=dyn_cast<IntrinsicInst>(&i)) { auto id=ii->getIntrinsicID(); if (id==Intrinsic::lifetime_start||id==Intrinsic::lifetime_end||id==Intrinsic::experimental_noalias_scope_decl||id==Intrinsic::assume) continue; }
    Ins n{}; n.op=i.getOpcode(); n.I=&i; n.dst=slot[&i]; n.n=nleaves(i.getType()); n.a=n.b=n.c=0; n.x=-1;
    auto leafW=[&](Type* t)->unsigned { std::vector<Leaf> l; flatten(t,0,l); return l.empty()?0:l[0].w; };
    switch (i.getOpcode()) {
      case Instruction::Br: { auto& br=cast<BranchInst>(i); if (br.isConditional()) { n.op=X_CONDBR; n.a=opnd(br.getCondition()); n.b=edge(&b,br.getSuccessor(0)); n.c=edge(&b,br.getSuccessor(1)); } else { n.op=X_BR; n.b=edge(&b,br.getSuccessor(0)); } break; }
      case Instruction::Switch: { auto& sw=cast<SwitchInst>(i); SwInfo si; n.a=opnd(sw.getCondition()); n.w=leafW(sw.getCondition()->getType()); std::map<const BasicBlock*,int> em; for (auto& c: sw.cases()) { auto* t=c.getCaseSuccessor(); if (!em.count(t)) em[t]=edge(&b,t); si.cases.push_back({c.getCaseValue()->getZExtValue(),em[t]}); } si.def = em.count(sw.getDefaultDest())? em[sw.getDefaultDest()] : edge(&b,sw.getDefaultDest()); n.x=fn->sws.size(); fn->sws.push_back(si); break; }
      case Instruction::Ret: { auto& r=cast<ReturnInst>(i); if (r.getReturnValue()) { n.a=opnd(r.getReturnValue()); n.n=nleaves(r.getReturnValue()->getType()); } else n.n=0; break; }
      case Instruction::Load: n.a=opnd(i.getOperand(0)); { std::vector<Leaf> l; flatten(i.getType(),0,l); n.w=l.size()?l[0].w:0; n.x=fn->leaves.size(); fn->leaves.push_back(l); } break;
      case Instruction::Store: n.a=opnd(i.getOperand(1)); n.b=opnd(i.getOperand(0)); { std::vector<Leaf> l; flatten(i.getOperand(0)->getType(),0,l); n.n=l.size(); n.w=l.size()?l[0].w:0; n.x=fn->leaves.size(); fn->leaves.push_back(l); } break;
      case Instruction::Alloca: { auto& a=cast<AllocaInst>(i); n.a=opnd(a.getArraySize()); n.x=(int)(u64)DL->getTypeAllocSize(a.getAllocatedType()); break; }
      case Instruction::GetElementPtr: { auto& g=cast<GetElementPtrInst>(i); GepInfo gi; gi.off=0;
        for (auto it=gep_type_begin(g), e=gep_type_end(g); it!=e; ++it) { Value* v=it.getOperand();
          if (StructType* st=it.getStructTypeOrNull()) { gi.off+=(u64)DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(v)->getZExtValue()); }
          else { i128 sz=(u64)DL->getTypeAllocSize(it.getIndexedType()); if (auto* c=dyn_cast<ConstantInt>(v)) gi.off+=sz*c->getSExtValue(); else gi.idx.push_back({opnd(v),sz,scalarW(v->getType())}); } }
        n.a=opnd(g.getPointerOperand()); n.x=fn->geps.size(); fn->geps.push_back(gi); break; }
      case Instruction::Call: case Instruction::Invoke: { auto& cb=cast<CallBase>(i); CallInfo ci; ci.fn=nullptr; ci.inl=false;
        Value* cv=cb.getCalledOperand()->stripPointerCasts(); if (auto* ga=dyn_cast<GlobalAlias>(cv)) cv=ga->getAliaseeObject();
        ci.callee=dyn_cast<Function>(cv); ci.calleeOp=0; 
        if (!ci.callee) { if (isa<InlineAsm>(cv)) ci.inl=true; else ci.calleeOp=opnd(cb.getCalledOperand()); }
        for (unsigned k=0;k<cb.arg_size();k++) { Value* av=cb.getArgOperand(k); if (av->getType()->isMetadataTy()) { continue; } ci.args.push_back(opnd(av)); ci.nl.push_back(nleaves(av->getType())); ci.aw.push_back(leafW(av->getType())); ci.byval.push_back(cb.isByValArgument(k)? (u64)DL->getTypeAllocSize(cb.getParamByValType(k)) : 0); }
        if (ci.callee) { ci.bi=findBI(ci.callee); }
        if (auto* iv=dyn_cast<InvokeInst>(&i)) { ci.normal=edge(&b,iv->getNormalDest()); ci.unwind=edge(&b,iv->getUnwindDest()); }
        n.w=leafW(i.getType()); n.x=fn->calls.size(); fn->calls.push_back(std::move(ci)); break; }
      case Instruction::LandingPad: { auto& lp=cast<LandingPadInst>(i); LpInfo li; li.cleanup=lp.isCleanup(); for (unsigned k=0;k<lp.getNumClauses();k++) { if (lp.isCatch(k)) { std::vector<Val> v; constLeaves(lp.getClause(k),v); li.clauses.push_back({true,v[0].c}); } else { std::vector<Val> v; constLeaves(lp.getClause(k),v); std::vector<u64> f; for (auto& z:v) f.push_back(z.c); li.clauses.push_back({false,li.filters.size()}); li.filters.push_back(f); } } n.x=fn->lps.size(); fn->lps.push_back(li); break; }
      case Instruction::ExtractValue: { auto& ev=cast<ExtractValueInst>(i); Type* t=ev.getAggregateOperand()->getType(); unsigned o=0; for (unsigned ix: ev.indices()) { if (auto* st=dyn_cast<StructType>(t)) { for (unsigned q=0;q<ix;q++) o+=nleaves(st->getElementType(q)); t=st->getElementType(ix); } else { auto* at=cast<ArrayType>(t); o+=ix*nleaves(at->getElementType()); t=at->getElementType(); } } n.a=opnd(ev.getAggregateOperand()); n.x=o; break; }
      case Instruction::InsertValue: { auto& ev=cast<InsertValueInst>(i); Type* t=ev.getAggregateOperand()->getType(); unsigned o=0; for (unsigned ix: ev.indices()) { if (auto* st=dyn_cast<StructType>(t)) { for (unsigned q=0;q<ix;q++) o+=nleaves(st->getElementType(q)); t=st->getElementType(ix); } else { auto* at=cast<ArrayType>(t); o+=ix*nleaves(at->getElementType()); t=at->getElementType(); } } n.a=opnd(ev.getAggregateOperand()); n.b=opnd(ev.getInsertedValueOperand()); n.w=nleaves(t); n.x=o; break; }
      case Instruction::ICmp: case Instruction::FCmp: n.sub=cast<CmpInst>(i).getPredicate(); n.a=opnd(i.getOperand(0)); n.b=opnd(i.getOperand(1)); n.w=leafW(i.getOperand(0)->getType()); break;
      case Instruction::Select: n.a=opnd(i.getOperand(0)); n.b=opnd(i.getOperand(1)); n.c=opnd(i.getOperand(2)); n.sub=nleaves(i.getOperand(0)->getType()); n.x=fn->leaves.size(); { std::vector<Leaf> l; flatten(i.getType(),0,l); fn->leaves.push_back(l);} break;
      case Instruction::Unreachable: case Instruction::Fence: break;
      case Instruction::BitCast: { n.a=opnd(i.getOperand(0)); std::vector<Leaf> l; flatten(i.getOperand(0)->getType(),0,l); n.sub=fn->leaves.size(); fn->leaves.push_back(l); std::vector<Leaf> r; flatten(i.getType(),0,r); n.x=fn->leaves.size(); fn->leaves.push_back(r); break; }
      case Instruction::ShuffleVector: { auto& sv=cast<ShuffleVectorInst>(i); n.a=opnd(i.getOperand(0)); n.b=opnd(i.getOperand(1)); n.sub=nleaves(i.getOperand(0)->getType()); break; }
      default: 
        if (i.getNumOperands()>0 && !isa<BasicBlock>(i.getOperand(0))) n.a=opnd(i.getOperand(0)); if (i.getNumOperands()>1) n.b=opnd(i.getOperand(1)); if (i.getNumOperands()>2) n.c=opnd(i.getOperand(2));
        n.w = leafW(i.getType()); if (isa<CastInst>(i)) { n.sub=n.w; n.w=leafW(i.getOperand(0)->getType()); } 
        break;
    }
    fn->code.push_back(n);
  }
}
static std::string demangled(const std::string& n) { return llvm::demangle(n); }
static bool isLibFunc(const Function* F) { if (auto* sp=F->getSubprogram()) { std::string p=(sp->getDirectory()+"/"+sp->getFilename()).str(); std::string f=sp->getFilename().str(); auto in=[&](const std::string& x){ return x.find("/repo/")!=std::string::npos && x.find("/verif/")==std::string::npos; }; return f.size()&&f[0]=='/' ? in(f) : in(p); } return false; }
static Func* getFunc(const Function* F) {
  auto it=funcs.find(F); Func* f;
  if (it==funcs.end()) { f=new Func; f->F=F; f->name=F->getName().str(); f->lib=isLibFunc(F); funcs[F]=f; } else f=it->second;
  if (!f->decoded) decode(f);
  return f;
}

// ---------------------------------------------------------------- helpers
static std::string locOf(const Instruction* I) { if (auto& d=I->getDebugLoc()) { std::string f=d->getFilename().str(); auto p=f.rfind('/'); if (p!=std::string::npos) f=f.substr(p+1); return f+":"+std::to_string(d.getLine()); } return "?"; }
static std::string trace(State& s, unsigned max=14) { std::string r; unsigned k=0; for (size_t i=s.st.size(); i-->0 && k<max; k++) { Frame& f=s.st[i]; std::string nm=demangled(f.f->name); auto p=nm.find('('); if (p!=std::string::npos && p>0) nm=nm.substr(0,p); if (nm.size()>90) nm=nm.substr(0,90); const Instruction* I=f.f->code[std::min<size_t>(f.pc,f.f->code.size()-1)].I; r += (k?" <- ":"")+nm+"@"+locOf(I); if (auto& d=I->getDebugLoc()) { auto* ia=d.getInlinedAt(); int q=0; while (ia && q<6) { r+=" <~"+ia->getFilename().str().substr(ia->getFilename().str().rfind('/')+1)+":"+std::to_string(ia->getLine()); ia=ia->getInlinedAt(); q++; } } } return r; }
static std::string jesc(const std::string& s) { std::string r; for (unsigned char c: s) { if (c=='"'||c=='\\') { r+='\\'; r+=c; } else if (c<32||c>126) { char b[8]; snprintf(b,8,"\\u%04x",c); r+=b; } else r+=c; } return r; }

[[noreturn]] static void kill(State&) { throw Kill(); }
static std::string inputsText(State& s, const Model& m) { std::string o; for (auto& in: s.inputs) { if (in.kind==0) { o += "c "+in.name+" "+std::to_string(in.choice)+"\n"; } else { o += "b "+in.name+" "; char b[4]; for (E e: in.bytes) { snprintf(b,4,"%02x",(unsigned)(u64)evalExpr(e,m)); o+=b; } o+="\n"; } } return o; }
static bool fullModel(State& s, E extra, Model& m) {
  m=s.model; if (!s.modelOk) { Res r=solve(s.cs,mkConst(1,1),&m); if (r!=R_SAT) return false; }
  if (extra && !isC(extra)) { if (evalExpr(extra,m)) return true; return solve(s.cs,extra,&m)==R_SAT; }
  return !extra || extra->c;
}
static void violation(State& s, const std::string& kind, const std::string& msg, const Model& m) {
  std::string loc=trace(s); std::string key=kind+"|"+msg; 
  std::string top=loc.substr(0,loc.find(" <- ")); if (kind!="assert") key+="|"+top;
  violCount[key]++; nErr++;
  if (violCount[key]>2) return;                 // keep up to two distinct counterexamples per site
  bool un=false; for (E c: s.cs) for (u32 v: c->vs->v) if (g_vars[v].uninit) un=true;
  char fn[64]; snprintf(fn,64,"/cex_%d_%zu.txt",splitI,viols.size());
  std::ofstream(outDir+fn)<<"# "<<kind<<": "<<msg<<"\n# at "<<loc<<"\n"<<inputsText(s,m);
  viols.push_back({kind,msg,loc,outDir+fn,un});
}
static void errorPath(State& s, const std::string& kind, const std::string& msg, E extra=nullptr) {
  Model m; if (fullModel(s,extra,m)) violation(s,kind,msg,m); else { nUnkAssert++; }
}
[[noreturn]] static void error(State& s, const std::string& kind, const std::string& msg) { errorPath(s,kind,msg); kill(s); }
[[noreturn]] static void unsupported(State& s, const std::string& what) { unsupp[what+" @ "+trace(s,3)]++; nUnsupp++; kill(s); }

static void addC(State& s, E c) { if (isC(c)) return; if (c->op==O_AND && c->w==1) { addC(s,c->k[0]); addC(s,c->k[1]); return; } for (E x: s.cs) if (x==c) return; s.cs.push_back(c); }
// decide branch: returns bitmask 1: true feasible, 2: false feasible; model m1/m2
static State* cloneState(State& s) { nForks++; s.nforks++; State* n=new State(s); return n; }
// Split current state on condition c. Current continues with returned truth; other side (if feasible) is pushed to worklist (re-executing the current instruction).
static bool forkOn(State& s, E c) {
  if (isC(c)) return c->c;
  for (E x: s.cs) { if (x==c) return true; }
  E nc=mkNot(c); for (E x: s.cs) if (x==nc) return false;
  if (s.modelOk) {
    bool mv=evalExpr(c,s.model); g_ss.modelHits++;
    Model m2=s.model; Res r=solve(s.cs,mv?nc:c,&m2);
    if (r==R_UNSAT) return mv;
    State* n=cloneState(s); addC(*n,mv?nc:c); if (r==R_SAT) n->model=m2; else { n->modelOk=false; nUnkBranch++; }
    work.push_back(n); addC(s,mv?c:nc); return mv;
  }
  Model mt=s.model, mf=s.model; 
  Res rt=solve(s.cs,c,&mt), rf=solve(s.cs,nc,&mf);
  if (rt==R_UNSAT && rf==R_UNSAT) kill(s);
  if (rt==R_UNSAT) return false; if (rf==R_UNSAT) return true;
  State* n=cloneState(s); addC(*n,nc); if (rf!=R_SAT) nUnkBranch++; work.push_back(n); addC(s,c); return true;
}
static void addVarConstraintAssume(State& s, E c) {
  if (isC(c)) { if (!c->c) { nKilledAssume++; kill(s); } return; }
  if (s.modelOk && evalExpr(c,s.model)) { addC(s,c); return; }
  Model m=s.model; Res r=solve(s.cs,c,&m);
  if (r==R_UNSAT) { nKilledAssume++; kill(s); }
  if (r==R_SAT) s.model=m; else s.modelOk=false;
  addC(s,c);
}
// make v concrete; other values are explored by clones that re-execute the instruction
static u64 concretize(State& s, Val v, unsigned w, unsigned limit=4096) {
  if (!v.e) return v.c;
  if (isC(v.e)) return (u64)v.e->c;
  if (!s.modelOk) { Model m=s.model; Res r=solve(s.cs,mkConst(1,1),&m); if (r==R_UNSAT) kill(s); if (r!=R_SAT) unsupported(s,"concretize without model"); s.model=m; s.modelOk=true; }
  u64 k=(u64)evalExpr(v.e,s.model); E eq=mkEq(v.e,mkConst(k,v.e->w));
  if (s.nforks>200000) unsupported(s,"too many forks in concretize");
  forkOn(s,eq); return k;
}
static E freshVar(State& s, const char* nm, unsigned w, bool uninit) {
  static std::map<std::tuple<std::string,unsigned,unsigned>,E> tab; auto key=std::make_tuple(std::string(nm),s.varCtr++,w);
  auto it=tab.find(key); if (it!=tab.end()) return it->second; return tab[key]=mkVar(std::string(nm)+"#"+std::to_string(std::get<1>(key)),w,uninit);
}

// ---------------------------------------------------------------- memory
static const Ref* findObj(State& s, u64 a) {
  if (a<0x20000000) return nullptr;
  auto it=s.mem.upper_bound(a); const Ref* r=nullptr;
  if (it!=s.mem.begin()) { --it; if (a<it->second->base+std::max<u64>(it->second->size,1)) r=&it->second; }
  if (!r && a<0x1000000000ull) { auto g=gobjs.upper_bound(a); if (g!=gobjs.begin()) { --g; if (a<g->second->base+std::max<u64>(g->second->size,1)) { auto q=s.mem.find(g->second->base); if (q!=s.mem.end()) return &q->second; r=&g->second; } } }
  return r;
}
static std::string describeAddr(State& s, u64 a) {
  char b[160];
  if (a<4096) { snprintf(b,160,"null dereference (address %llu)",(unsigned long long)a); return b; }
  auto it=s.freed.upper_bound(a+16); if (it!=s.freed.begin()) { --it; if (a+16>=it->first && a<it->first+it->second.first+16) { snprintf(b,160,"%s (freed object of size %llu, offset %lld)",it->second.second==MK_STACK?"use after return":"use after free",(unsigned long long)it->second.first,(long long)(a-it->first)); return b; } }
  auto m=s.mem.upper_bound(a+64); if (m!=s.mem.begin()) { --m; snprintf(b,160,"out of bounds: offset %lld in object of size %llu",(long long)(a-m->second->base),(unsigned long long)m->second->size); return b; }
  snprintf(b,160,"wild address 0x%llx",(unsigned long long)a); return b;
}
static const Ref& need(State& s, u64 a, u64 n, const char* what) {
  const Ref* r=findObj(s,a); nLoadsChecked++;
  if (!r || a+n>(*r)->base+(*r)->size || a+n<a) { std::string k="memory"; std::string d=describeAddr(s,a); if (r) { char b[128]; snprintf(b,128,"out of bounds: offset %llu len %llu in object of size %llu",(unsigned long long)(a-(*r)->base),(unsigned long long)n,(unsigned long long)(*r)->size); d=b; } error(s,k,std::string(what)+": "+d); }
  return *r;
}
static MO* writable(State& s, const Ref& r) {
  u64 base=r->base;
  if (r->kind==MK_GLOBAL) { auto it=s.mem.find(base); if (it==s.mem.end()) { MO* o=new MO(*r.p); o->rc=0; s.mem[base]=Ref(o); return o; } if (it->second.p->rc>1) { MO* o=new MO(*it->second.p); o->rc=0; it->second=Ref(o); return o; } return it->second.p; }
  if (r.p->rc>1) { MO* o=new MO(*r.p); o->rc=0; s.mem[base]=Ref(o); return o; }
  return r.p;
}
static E byteAt(State& s, MO* o, u64 off) { E e = o->s.empty()? nullptr : o->s[off]; return e? e : mkConst(o->b[off],8); }
static Val readMO(State& s, const Ref& r, u64 off, unsigned w) {
  unsigned n=(w+7)/8; MO* o=r.p;
  bool conc=true, anyUn=false, allUn=true;
  if (!o->s.empty()) for (unsigned i=0;i<n;i++) { E e=o->s[off+i]; if (e) conc=false; if (e==UNINIT) anyUn=true; else allUn=false; }
  if (conc) { u64 v=0; if (n<=8) { memcpy(&v,&o->b[off],n); return VC(v&m64(w)); } u128 x=0; for (unsigned i=0;i<n;i++) x|=(u128)o->b[off+i]<<(8*i); return VE(mkConst(x,w)); }
  if (anyUn) { 
    o=writable(s,r);
    if (allUn && n<=8) { E v=freshVar(s,"uninit",8*n,true); for (unsigned i=0;i<n;i++) o->s[off+i]=mkExtract(v,8*i,8); }
    else for (unsigned i=0;i<n;i++) if (o->s[off+i]==UNINIT) o->s[off+i]=freshVar(s,"uninit",8,true);
  }
  E e=byteAt(s,o,off); for (unsigned i=1;i<n;i++) e=mkConcat(byteAt(s,o,off+i),e);
  if (e->w!=w) e=mkExtract(e,0,w);
  return VE(e);
}
static void writeMO(MO* o, u64 off, unsigned w, const Val& v) {
  unsigned n=(w+7)/8;
  if (!v.e || isC(v.e)) { u128 c = v.e ? v.e->c : (u128)v.c; if (w<128) c&=maskw(w); for (unsigned i=0;i<n;i++) o->b[off+i]=(u8)(c>>(8*i)); if (!o->s.empty()) for (unsigned i=0;i<n;i++) o->s[off+i]=nullptr; return; }
  if (o->s.empty()) o->s.assign(o->size,nullptr);
  E e=v.e; if (e->w!=8*n) e=mkZExt(e,8*n);
  for (unsigned i=0;i<n;i++) { E x=mkExtract(e,8*i,8); if (isC(x)) { o->b[off+i]=(u8)x->c; o->s[off+i]=nullptr; } else o->s[off+i]=x; }
}
// resolve a symbolic address to (object, offset expression); forks for other objects. Out-of-bounds side is reported.
static const Ref* resolveSym(State& s, E a, u64 n, E& off, const char* what) {
  for (int guard=0; guard<64; guard++) {
    if (!s.modelOk) { Model m=s.model; Res r=solve(s.cs,mkConst(1,1),&m); if (r!=R_SAT) { if (r==R_UNSAT) kill(s); unsupported(s,"address without model"); } s.model=m; s.modelOk=true; }
    u64 k=(u64)evalExpr(a,s.model); const Ref* r=findObj(s,k);
    if (!r || k+n>(*r)->base+(*r)->size) { // out of bounds for this model
      error(s,"memory",std::string(what)+" (symbolic address): "+describeAddr(s,k)); }
    MO* o=r->p; E inb=mkAndB(mkBin(O_ULE,mkConst(o->base,64),a),mkBin(O_ULE,a,mkConst(o->base+o->size-n,64)));
    Model m2=s.model; Res q=solve(s.cs,mkNot(inb),&m2);
    if (q!=R_UNSAT) { State* nn=cloneState(s); addC(*nn,mkNot(inb)); if (q==R_SAT) nn->model=m2; else { nn->modelOk=false; nUnkBranch++; } work.push_back(nn); addC(s,inb); }
    off=mkBin(O_SUB,a,mkConst(o->base,64)); return r;
  }
  unsupported(s,"resolve");
}
// an address that is a choice between few values (a select in the code): explore the choices instead of keeping a symbolic address
static unsigned iteLeaves(E a) { if (a->op!=O_ITE) return 1; unsigned n=iteLeaves(a->k[1]); if (n>8) return n; return n+iteLeaves(a->k[2]); }
static E collapseIte(State& s, E a, int d=0) {
  if (d>12 || isC(a)) return a;
  switch (a->op) {
    case O_ITE: if (iteLeaves(a)>8) return a; return forkOn(s,a->k[0]) ? collapseIte(s,a->k[1],d+1) : collapseIte(s,a->k[2],d+1);
    case O_ADD: case O_SUB: case O_MUL: case O_SHL: { E x=collapseIte(s,a->k[0],d+1), y=collapseIte(s,a->k[1],d+1); return x==a->k[0]&&y==a->k[1] ? a : mkBin(a->op,x,y); }
    case O_ZEXT: { E x=collapseIte(s,a->k[0],d+1); return x==a->k[0]? a : mkZExt(x,a->w); }
    case O_SEXT: { E x=collapseIte(s,a->k[0],d+1); return x==a->k[0]? a : mkSExt(x,a->w); }
    default: return a;
  }
}
static Val addrVal(State& s, const Val& a) { if (!a.e) return a; E e=collapseIte(s,a.e); return isC(e)? VC((u64)e->c) : VE(e); }
static Val loadMem(State& s, const Val& a0, u64 add, unsigned w) {
  unsigned n=(w+7)/8; Val a=addrVal(s,a0);
  if (!a.e) { const Ref& r=need(s,a.c+add,n,"load"); return readMO(s,r,a.c+add-r->base,w); }
  E ae = add? mkBin(O_ADD,a.e,mkConst(add,64)) : a.e; E off; const Ref* r=resolveSym(s,ae,n,off,"load");
  MO* o=r->p; u64 tz=std::min<unsigned>(trailingZeros(mkBin(O_SUB,ae,mkConst(o->base,64))),6); u64 step=1ull<<tz; u64 cnt=(o->size-n)/step+1;
  if (cnt<=600) {
    Val last=readMO(s,findObj(s,o->base)[0],(cnt-1)*step,w); E e=X(last,w); u64 base=o->base;
    for (u64 i=cnt-1; i-->0;) { const Ref& rr=*findObj(s,base); E v=X(readMO(s,rr,i*step,w),w); if (v==e && false) continue; e=mkIte(mkEq(off,mkConst(i*step,64)),v,e); }
    return VE(e);
  }
  u64 k=concretize(s,VE(ae),64); const Ref& rr=need(s,k,n,"load"); return readMO(s,rr,k-rr->base,w);
}
static void storeMem(State& s, const Val& a0, u64 add, unsigned w, const Val& v) {
  unsigned n=(w+7)/8; u64 k; Val a=addrVal(s,a0);
  if (a.e) { E ae = add? mkBin(O_ADD,a.e,mkConst(add,64)) : a.e; E off; resolveSym(s,ae,n,off,"store"); k=concretize(s,VE(ae),64); } else k=a.c+add;
  const Ref& r=need(s,k,n,"store"); if (r->ro) error(s,"memory","store to constant object");
  MO* o=writable(s,r); writeMO(o,k-o->base,w,v);
}
static u64 allocObj(State& s, u64 size, MK kind) {
  u64& top = kind==MK_STACK ? s.stackTop : s.heapTop; top=(top+15)&~15ull; u64 a=top; top+=size+48+(16-(size&15));
  MO* o=new MO; o->base=a; o->size=size; o->kind=kind; o->ro=false; o->b.assign(size,0); o->s.assign(size,UNINIT); s.mem[a]=Ref(o);
  if (kind!=MK_STACK && kind!=MK_EXC) s.live++;
  return a;
}
static void freeObj(State& s, u64 a, MK kind) {
  if (!a) return; auto it=s.mem.find(a);
  if (it==s.mem.end() || it->second->kind==MK_GLOBAL || it->second->kind==MK_STACK) { auto f=s.freed.find(a); if (f!=s.freed.end()) error(s,"memory","double free"); error(s,"memory","invalid free: "+describeAddr(s,a)); }
  if (it->second->kind!=kind) error(s,"memory","mismatched allocation/deallocation functions");
  if (kind!=MK_EXC) s.live--;
  s.freed[a]={it->second->size,(u8)kind}; s.mem.erase(it);
}
static void popFrame(State& s) { Frame& f=s.st.back(); for (u64 a: f.allocas) { auto it=s.mem.find(a); if (it!=s.mem.end()) { s.freed[a]={it->second->size,(u8)MK_STACK}; s.mem.erase(it); } } s.st.pop_back(); }
static std::string readCStr(State& s, u64 a) { std::string r; for (;;) { const Ref& q=need(s,a,1,"read string"); Val v=readMO(s,q,a-q->base,8); if (v.e) { r+='?'; a++; if (r.size()>200) break; continue; } if (!v.c) break; r+=(char)v.c; a++; if (r.size()>100000) break; } return r; }
static void copyMem(State& s, u64 d, u64 src, u64 n) {
  if (!n) return; const Ref rs=need(s,src,n,"memcpy source"); const Ref& rd=need(s,d,n,"memcpy destination"); if (rd->ro) error(s,"memory","store to constant object");
  MO* so=rs.p; std::vector<u8> tb(so->b.begin()+(src-so->base),so->b.begin()+(src-so->base)+n); std::vector<E> te; if (!so->s.empty()) te.assign(so->s.begin()+(src-so->base),so->s.begin()+(src-so->base)+n);
  // force the refcount of the local ref not to trigger copy when same object
  Ref tmp=rs; (void)tmp; const Ref* pd=findObj(s,d); MO* o=pd->p; if (o==so && o->kind!=MK_GLOBAL) { /* rs and tmp hold extra refs */ }
  o=writable(s,*pd); u64 off=d-o->base; memcpy(&o->b[off],tb.data(),n);
  bool anyS=false; for (E e: te) if (e) { anyS=true; break; }
  if (anyS) { if (o->s.empty()) o->s.assign(o->size,nullptr); for (u64 i=0;i<n;i++) o->s[off+i]=te[i]; }
  else if (!o->s.empty()) for (u64 i=0;i<n;i++) o->s[off+i]=nullptr;
}

// ---------------------------------------------------------------- control transfer
static void takeEdge(Frame& f, int e) {
  Edge& ed=f.f->edges[e];
  if (ed.mv.size()==1) { Move& m=ed.mv[0]; for (unsigned i=0;i<m.n;i++) f.r[m.dst+i] = m.src>=0? f.r[m.src+i] : f.f->consts[~m.src+i]; }
  else if (!ed.mv.empty()) { static thread_local std::vector<Val> tmp; tmp.clear(); for (auto& m: ed.mv) for (unsigned i=0;i<m.n;i++) tmp.push_back(m.src>=0? f.r[m.src+i] : f.f->consts[~m.src+i]); size_t k=0; for (auto& m: ed.mv) for (unsigned i=0;i<m.n;i++) f.r[m.dst+i]=tmp[k++]; }
  f.pc=ed.pc;
}
static void advanceCall(Frame& f) { Ins& in=f.f->code[f.pc]; if (in.op==Instruction::Invoke) takeEdge(f,f.f->calls[in.x].normal); else f.pc++; }
static void pushFrame(State& s, Func* fn, const std::vector<Val>& args, int onret=0, u64 onretArg=0) {
  if (s.st.size()>400) error(s,"recursion","call stack deeper than 400 frames");
  fn->execCount++;
  s.st.emplace_back(); Frame& f=s.st.back(); f.f=fn; f.r.assign(fn->nslots,VC(0)); f.pc=0; f.onret=onret; f.onretArg=onretArg;
  for (size_t i=0;i<fn->nargleaf && i<args.size();i++) f.r[i]=args[i];
}
static u64 rdWord(State& s, u64 a) { const Ref* r=findObj(s,a); if (!r || a+8>(*r)->base+(*r)->size) return 0; Val v=readMO(s,*r,a-(*r)->base,64); return v.e?0:v.c; }
static u64 symAddr(const char* n) { auto* g=M->getNamedValue(n); return g? addrOf(g) : 0; }
static bool tiMatch(State& s, u64 thrown, u64 want, i128& adj, int depth=0) {
  if (thrown==want) return true; if (depth>16) return false;
  static u64 si=symAddr("_ZTVN10__cxxabiv120__si_class_type_infoE"), vmi=symAddr("_ZTVN10__cxxabiv121__vmi_class_type_infoE");
  u64 vt=rdWord(s,thrown); // compare by type name too
  u64 n1=rdWord(s,thrown+8), n2=rdWord(s,want+8); if (n1&&n2&&findObj(s,n1)&&findObj(s,n2)&&readCStr(s,n1)==readCStr(s,n2)) return true;
  if (si && vt==si+16) return tiMatch(s,rdWord(s,thrown+16),want,adj,depth+1);
  if (vmi && vt==vmi+16) { unsigned n=(unsigned)(rdWord(s,thrown+16)>>32); for (unsigned i=0;i<n;i++) { u64 b=rdWord(s,thrown+24+16*i); i128 fl=(int64_t)rdWord(s,thrown+32+16*i); i128 a2=adj; if (fl&1) continue; a2+=(fl>>8); if (tiMatch(s,b,want,a2,depth+1)) { adj=a2; return true; } } }
  return false;
}
static std::string excName(State& s, u64 ti) { u64 n=rdWord(s,ti+8); return n&&findObj(s,n)? demangled("_ZTS"+readCStr(s,n)) : "?"; }
static void unwind(State& s, u64 exc) {
  s.curExc=exc; ExcInfo ei=s.exc[exc];
  while (!s.st.empty()) {
    Frame& f=s.st.back(); Ins& in=f.f->code[f.pc];
    if (in.op==Instruction::Invoke) {
      int ue=f.f->calls[in.x].unwind; int lpc=f.f->edges[ue].pc; Ins& lp=f.f->code[lpc]; if (lp.op!=Instruction::LandingPad) unsupported(s,"unwind target is not a landingpad");
      LpInfo& li=f.f->lps[lp.x]; bool match=false; int64_t sel=0; 
      for (auto& c: li.clauses) { if (c.first) { i128 adj=0; if (c.second==0 || tiMatch(s,ei.tinfo,c.second,adj)) { match=true; sel = c.second==0? 1 : (int64_t)((c.second>>3)&0x7fffffff); break; } } else { bool in=false; for (u64 t: li.filters[c.second]) { i128 adj=0; if (tiMatch(s,ei.tinfo,t,adj)) in=true; } if (!in) { match=true; sel=-1; break; } } }
      if (match || li.cleanup) { takeEdge(f,ue); f.r[lp.dst]=VC(exc); f.r[lp.dst+1]=VC((u64)(u32)sel); f.pc=lpc+1; return; }
    }
    if (f.onret==77) break;
    popFrame(s);
  }
  std::string nm="?"; u64 ti=ei.tinfo; nm=excName(s,ti);
  if (s.st.empty()) { // restore a dummy location
    Model m; if (fullModel(s,nullptr,m)) violation(s,"uncaught","exception of type "+nm+" escapes",m); throw Kill(); }
  error(s,"uncaught","exception of type "+nm+" escapes");
}

#include "builtins.inc"

static int findBI(const Function* f) {
  static std::unordered_map<const Function*,int> memo; auto it=memo.find(f); if (it!=memo.end()) return it->second;
  std::string n=f->getName().str(); int r=-1;
  auto b=bis.find(n);
  if (b==bis.end() && f->isIntrinsic()) { // strip type suffixes
    std::string q=n; while (true) { auto p=q.rfind('.'); if (p==std::string::npos) break; q=q.substr(0,p); b=bis.find(q); if (b!=bis.end()) break; } }
  if (b!=bis.end() && (f->isDeclaration() || n.compare(0,4,"sym_")==0)) { biTab.push_back(b->second); biNames.push_back(n); r=biTab.size()-1; }
  return memo[f]=r;
}

// ---------------------------------------------------------------- interpreter
static Val binop(State& s, unsigned op, unsigned w, const Val& a, const Val& b) {
  if (!a.e && !b.e && w<=64) {
    u64 m=m64(w), x=a.c, y=b.c;
    auto sg=[&](u64 v)->int64_t{ return w==64? (int64_t)v : (int64_t)(v<<(64-w))>>(64-w); };
    switch (op) {
      case Instruction::Add: return VC((x+y)&m); case Instruction::Sub: return VC((x-y)&m); case Instruction::Mul: return VC((x*y)&m);
      case Instruction::And: return VC(x&y); case Instruction::Or: return VC(x|y); case Instruction::Xor: return VC(x^y);
      case Instruction::Shl: return VC(y>=w?0:(x<<y)&m); case Instruction::LShr: return VC(y>=w?0:x>>y); case Instruction::AShr: return VC((u64)(sg(x)>>(y>=w?w-1:y))&m);
      case Instruction::UDiv: if (!y) error(s,"arith","division by zero"); return VC(x/y);
      case Instruction::URem: if (!y) error(s,"arith","division by zero"); return VC(x%y);
      case Instruction::SDiv: if (!y) error(s,"arith","division by zero"); if (sg(y)==-1) return VC((0-x)&m); return VC((u64)(sg(x)/sg(y))&m);
      case Instruction::SRem: if (!y) error(s,"arith","division by zero"); if (sg(y)==-1) return VC(0); return VC((u64)(sg(x)%sg(y))&m);
    }
  }
  E x=X(a,w), y=X(b,w); Op o;
  switch (op) {
    case Instruction::Add:o=O_ADD;break; case Instruction::Sub:o=O_SUB;break; case Instruction::Mul:o=O_MUL;break; case Instruction::And:o=O_AND;break; case Instruction::Or:o=O_OR;break; case Instruction::Xor:o=O_XOR;break;
    case Instruction::Shl:o=O_SHL;break; case Instruction::LShr:o=O_LSHR;break; case Instruction::AShr:o=O_ASHR;break;
    case Instruction::UDiv:o=O_UDIV;goto dv; case Instruction::URem:o=O_UREM;goto dv; case Instruction::SDiv:o=O_SDIV;goto dv; case Instruction::SRem:o=O_SREM;
    dv: { E z=mkEq(y,mkConst(0,w)); if (forkOn(s,z)) error(s,"arith","division by zero"); break; }
    case Instruction::FAdd: return VE(mkFp2(O_FADD,x,y)); case Instruction::FSub: return VE(mkFp2(O_FSUB,x,y)); case Instruction::FMul: return VE(mkFp2(O_FMUL,x,y)); case Instruction::FDiv: return VE(mkFp2(O_FDIV,x,y));
    default: unsupported(s,std::string("binop ")+Instruction::getOpcodeName(op));
  }
  return VE(mkBin(o,x,y));
}
static E icmp(unsigned p, E a, E b) {
  switch (p) { case CmpInst::ICMP_EQ: return mkEq(a,b); case CmpInst::ICMP_NE: return mkNot(mkEq(a,b)); case CmpInst::ICMP_ULT: return mkBin(O_ULT,a,b); case CmpInst::ICMP_ULE: return mkBin(O_ULE,a,b); case CmpInst::ICMP_UGT: return mkBin(O_ULT,b,a); case CmpInst::ICMP_UGE: return mkBin(O_ULE,b,a); case CmpInst::ICMP_SLT: return mkBin(O_SLT,a,b); case CmpInst::ICMP_SLE: return mkBin(O_SLE,a,b); case CmpInst::ICMP_SGT: return mkBin(O_SLT,b,a); case CmpInst::ICMP_SGE: return mkBin(O_SLE,b,a); } abort();
}
static E fcmp(unsigned p, E a, E b) {
  E uno=mkFp2(O_FUNO,a,b); auto eq=[&]{return mkFp2(O_FEQ,a,b);}; auto lt=[&]{return mkFp2(O_FLT,a,b);}; auto le=[&]{return mkFp2(O_FLE,a,b);}; auto gt=[&]{return mkFp2(O_FLT,b,a);}; auto ge=[&]{return mkFp2(O_FLE,b,a);};
  switch (p) { case CmpInst::FCMP_FALSE: return mkConst(0,1); case CmpInst::FCMP_TRUE: return mkConst(1,1); case CmpInst::FCMP_ORD: return mkNot(uno); case CmpInst::FCMP_UNO: return uno;
    case CmpInst::FCMP_OEQ: return eq(); case CmpInst::FCMP_ONE: return mkAndB(mkNot(uno),mkNot(eq())); case CmpInst::FCMP_OLT: return lt(); case CmpInst::FCMP_OLE: return le(); case CmpInst::FCMP_OGT: return gt(); case CmpInst::FCMP_OGE: return ge();
    case CmpInst::FCMP_UEQ: return mkOrB(uno,eq()); case CmpInst::FCMP_UNE: return mkNot(eq()); case CmpInst::FCMP_ULT: return mkNot(ge()); case CmpInst::FCMP_ULE: return mkNot(gt()); case CmpInst::FCMP_UGT: return mkNot(le()); case CmpInst::FCMP_UGE: return mkNot(lt()); } abort();
}
static void doCall(State& s, Frame& f, Ins& in) {
  CallInfo& ci=f.f->calls[in.x];
  if (ci.inl) { if (cast<CallBase>(in.I)->getType()->isVoidTy()) { advanceCall(f); return; } unsupported(s,"inline asm"); }
  static std::vector<Val> args; args.clear();
  for (size_t k=0;k<ci.args.size();k++) for (unsigned q=0;q<ci.nl[k];q++) args.push_back(ci.args[k]>=0? f.r[ci.args[k]+q] : f.f->consts[~ci.args[k]+q]);
  const Function* callee=ci.callee; int bi=ci.bi;
  if (!callee) { Val t = ci.calleeOp>=0? f.r[ci.calleeOp] : f.f->consts[~ci.calleeOp]; u64 a=concretize(s,t,64); auto it=faddr.find(a); if (it==faddr.end()) error(s,"memory","indirect call to invalid address"); callee=it->second; bi=findBI(callee); }
  if (bi>=0) { std::vector<Val> av(args); CallCtx cc{s,f,in,ci,av,callee}; biTab[bi](cc); return; }
  if (callee->isDeclaration()) unsupported(s,"external function "+callee->getName().str());
  Func* fn=getFunc(callee);
  std::vector<u64> bv; 
  { size_t li=0; for (size_t k=0;k<ci.args.size();k++) { if (ci.byval[k]) { u64 na=allocObj(s,ci.byval[k],MK_STACK); copyMem(s,na,args[li].c,ci.byval[k]); bv.push_back(na); args[li]=VC(na); } li+=ci.nl[k]; } }
  if (callee->isVarArg()) { std::vector<std::pair<Val,unsigned>> va; size_t li=0; for (size_t k=0;k<ci.args.size();k++) { if (li>=fn->nargleaf && k>=callee->arg_size()) for (unsigned q=0;q<ci.nl[k];q++) va.push_back({args[li+q],ci.aw[k]}); li+=ci.nl[k]; }
    std::vector<Val> av(args); pushFrame(s,fn,av); s.st.back().va=va; }
  else { std::vector<Val> av(args); pushFrame(s,fn,av); }
  for (u64 a: bv) s.st.back().allocas.push_back(a);
}
static void doReturn(State& s, std::vector<Val>& rv) {
  int onret=s.st.back().onret; u64 oa=s.st.back().onretArg; popFrame(s);
  if (s.st.empty()) return;
  if (onret==1) { // exception destructor finished: free exception object, continue caller after __cxa_end_catch
    s.exc.erase(oa); freeObj(s,oa,MK_EXC); advanceCall(s.st.back()); return; }
  Frame& f=s.st.back(); Ins& in=f.f->code[f.pc];
  if (in.op==Instruction::Call||in.op==Instruction::Invoke) { for (size_t i=0;i<in.n && i<rv.size();i++) f.r[in.dst+i]=rv[i]; advanceCall(f); }
}

static void runState(State& s) {
  u64 chk=0;
  while (!s.st.empty()) {
    Frame& f=s.st.back(); Ins& in=f.f->code[f.pc];
    s.steps++; nSteps++;
    if ((++chk & 1023)==0) { if (now()>optTime) { nUnexplored++; throw Kill(); } if (s.steps>optSteps) { nBound++; errorPath(s,"bound","path exceeded "+std::to_string(optSteps)+" steps (possible non-termination)"); throw Kill(); } }
    auto OP=[&](int r)->Val& { return r>=0? f.r[r] : f.f->consts[~r]; };
    auto OPi=[&](int r,unsigned i)->Val& { return r>=0? f.r[r+i] : f.f->consts[~r+i]; };
    switch (in.op) {
      case X_BR: takeEdge(f,in.b); break;
      case X_CONDBR: { Val& c=OP(in.a); bool t; if (!c.e) t=c.c&1; else t=forkOn(s,c.e); takeEdge(f,t?in.b:in.c); break; }
      case Instruction::Switch: { SwInfo& si=f.f->sws[in.x]; Val c=OP(in.a);
        if (!c.e) { int t=si.def; for (auto& k: si.cases) if (k.first==c.c) { t=k.second; break; } takeEdge(f,t); break; }
        std::map<int,E> g; E any=mkConst(0,1); for (auto& k: si.cases) { E q=mkEq(c.e,mkConst(k.first,in.w)); auto it=g.find(k.second); if (it==g.end()) g[k.second]=q; else it->second=mkOrB(it->second,q); }
        // choose along the model first
        int tgt=-1; for (auto& k: g) { if (forkOn(s,k.second)) { tgt=k.first; break; } }
        takeEdge(f,tgt<0?si.def:tgt); break; }
      case Instruction::Ret: { std::vector<Val> rv; for (unsigned i=0;i<in.n;i++) rv.push_back(OPi(in.a,i)); doReturn(s,rv); break; }
      case Instruction::Unreachable: error(s,"unreachable","reached unreachable code");
      case Instruction::Load: { auto& l=f.f->leaves[in.x]; Val a=OP(in.a); if (l.size()==1) f.r[in.dst]=loadMem(s,a,0,l[0].w); else { std::vector<Val> t; for (auto& q: l) t.push_back(loadMem(s,a,q.off,q.w)); for (size_t i=0;i<t.size();i++) f.r[in.dst+i]=t[i]; } f.pc++; break; }
      case Instruction::Store: { auto& l=f.f->leaves[in.x]; Val a=OP(in.a); for (size_t i=0;i<l.size();i++) storeMem(s,a,l[i].off,l[i].w,OPi(in.b,i)); f.pc++; break; }
      case Instruction::Alloca: { u64 n=concretize(s,OP(in.a),64); u64 a=allocObj(s,n*(u64)in.x,MK_STACK); f.allocas.push_back(a); f.r[in.dst]=VC(a); f.pc++; break; }
      case Instruction::GetElementPtr: { GepInfo& g=f.f->geps[in.x]; Val b=OP(in.a); bool conc=!b.e; for (auto& t: g.idx) if (OP(std::get<0>(t)).e) conc=false;
        if (in.n!=1) unsupported(s,"vector gep");
        if (conc) { u64 a=b.c+(u64)g.off; for (auto& t: g.idx) { u64 v=OP(std::get<0>(t)).c; unsigned w=std::get<2>(t); int64_t sv = w>=64? (int64_t)v : (int64_t)(v<<(64-w))>>(64-w); a+=(u64)sv*(u64)std::get<1>(t); } f.r[in.dst]=VC(a); }
        else { E a=mkBin(O_ADD,X(b,64),mkConst((u64)g.off,64)); for (auto& t: g.idx) { unsigned w=std::get<2>(t); E v=X(OP(std::get<0>(t)),w); if (w<64) v=mkSExt(v,64); else if (w>64) v=mkExtract(v,0,64); a=mkBin(O_ADD,a,mkBin(O_MUL,v,mkConst((u64)std::get<1>(t),64))); } f.r[in.dst]=VE(a); }
        f.pc++; break; }
      case Instruction::Call: case Instruction::Invoke: doCall(s,f,in); break;
      case Instruction::Resume: { u64 e=OP(in.a).c; popFrame(s); unwind(s,e); break; }
      case Instruction::ICmp: { for (unsigned i=0;i<in.n;i++) { Val a=OPi(in.a,i), b=OPi(in.b,i);
          if (!a.e&&!b.e) { unsigned w=in.w; auto sg=[&](u64 v)->int64_t{ return w>=64? (int64_t)v : (int64_t)(v<<(64-w))>>(64-w); }; bool r=false; switch(in.sub){ case CmpInst::ICMP_EQ:r=a.c==b.c;break;case CmpInst::ICMP_NE:r=a.c!=b.c;break;case CmpInst::ICMP_ULT:r=a.c<b.c;break;case CmpInst::ICMP_ULE:r=a.c<=b.c;break;case CmpInst::ICMP_UGT:r=a.c>b.c;break;case CmpInst::ICMP_UGE:r=a.c>=b.c;break;case CmpInst::ICMP_SLT:r=sg(a.c)<sg(b.c);break;case CmpInst::ICMP_SLE:r=sg(a.c)<=sg(b.c);break;case CmpInst::ICMP_SGT:r=sg(a.c)>sg(b.c);break;case CmpInst::ICMP_SGE:r=sg(a.c)>=sg(b.c);break; } f.r[in.dst+i]=VC(r); }
          else f.r[in.dst+i]=VE(icmp(in.sub,X(a,in.w),X(b,in.w))); } f.pc++; break; }
      case Instruction::FCmp: { for (unsigned i=0;i<in.n;i++) { Val a=OPi(in.a,i),b=OPi(in.b,i); if (in.w!=64&&in.w!=32) unsupported(s,"fcmp width"); f.r[in.dst+i]=VE(fcmp(in.sub,X(a,in.w),X(b,in.w))); } f.pc++; break; }
      case Instruction::Select: { auto& l=f.f->leaves[in.x]; std::vector<Val> t; for (unsigned i=0;i<in.n;i++) { Val c=OPi(in.a,in.sub==1?0:i); Val a=OPi(in.b,i),b=OPi(in.c,i); if (!c.e) t.push_back((c.c&1)?a:b); else if (in.n==1 && in.I->getType()->isPointerTy()) t.push_back(forkOn(s,c.e)?a:b); else t.push_back(VE(mkIte(c.e,X(a,l[i].w),X(b,l[i].w)))); } for (unsigned i=0;i<in.n;i++) f.r[in.dst+i]=t[i]; f.pc++; break; }
      case Instruction::ExtractValue: { for (unsigned i=0;i<in.n;i++) f.r[in.dst+i]=OPi(in.a,in.x+i); f.pc++; break; }
      case Instruction::InsertValue: { std::vector<Val> t; for (unsigned i=0;i<in.n;i++) t.push_back(OPi(in.a,i)); for (unsigned i=0;i<in.w;i++) t[in.x+i]=OPi(in.b,i); for (unsigned i=0;i<in.n;i++) f.r[in.dst+i]=t[i]; f.pc++; break; }
      case Instruction::ExtractElement: { u64 k=concretize(s,OP(in.b),64); unsigned n=nleaves(in.I->getOperand(0)->getType()); if (k>=n) k=0; f.r[in.dst]=OPi(in.a,k); f.pc++; break; }
      case Instruction::InsertElement: { u64 k=concretize(s,OP(in.c),64); std::vector<Val> t; for (unsigned i=0;i<in.n;i++) t.push_back(OPi(in.a,i)); if (k<in.n) t[k]=OP(in.b); for (unsigned i=0;i<in.n;i++) f.r[in.dst+i]=t[i]; f.pc++; break; }
      case Instruction::ShuffleVector: { auto mask=cast<ShuffleVectorInst>(in.I)->getShuffleMask(); std::vector<Val> t; for (int m: mask) { if (m<0) t.push_back(VC(0)); else if ((unsigned)m<in.sub) t.push_back(OPi(in.a,m)); else t.push_back(OPi(in.b,m-in.sub)); } for (size_t i=0;i<t.size();i++) f.r[in.dst+i]=t[i]; f.pc++; break; }
      case Instruction::Trunc: for (unsigned i=0;i<in.n;i++) { Val a=OPi(in.a,i); f.r[in.dst+i]= a.e? VE(mkExtract(a.e,0,in.sub)) : VC(a.c&m64(in.sub)); } f.pc++; break;
      case Instruction::ZExt: for (unsigned i=0;i<in.n;i++) { Val a=OPi(in.a,i); f.r[in.dst+i]= a.e||in.sub>64? VE(mkZExt(X(a,in.w),in.sub)) : a; } f.pc++; break;
      case Instruction::SExt: for (unsigned i=0;i<in.n;i++) { Val a=OPi(in.a,i); if (a.e||in.sub>64) f.r[in.dst+i]=VE(mkSExt(X(a,in.w),in.sub)); else { int64_t v=(int64_t)(a.c<<(64-in.w))>>(64-in.w); f.r[in.dst+i]=VC((u64)v&m64(in.sub)); } } f.pc++; break;
      case Instruction::PtrToInt: case Instruction::IntToPtr: for (unsigned i=0;i<in.n;i++) { Val a=OPi(in.a,i); if (in.sub<in.w) a= a.e? VE(mkExtract(a.e,0,in.sub)) : VC(a.c&m64(in.sub)); else if (in.sub>in.w && a.e) a=VE(mkZExt(a.e,in.sub)); f.r[in.dst+i]=a; } f.pc++; break;
      case Instruction::Freeze: case Instruction::AddrSpaceCast: for (unsigned i=0;i<in.n;i++) f.r[in.dst+i]=OPi(in.a,i); f.pc++; break;
      case Instruction::BitCast: { auto& l=f.f->leaves[in.sub]; auto& r=f.f->leaves[in.x]; if (l.size()==r.size()) { for (unsigned i=0;i<in.n;i++) f.r[in.dst+i]=OPi(in.a,i); } else { E e=nullptr; unsigned tw=0; for (auto& q:l) tw+=q.w; if (tw>128) unsupported(s,"wide bitcast"); for (size_t i=0;i<l.size();i++) { E q=X(OPi(in.a,i),l[i].w); e= e? mkConcat(q,e) : q; } unsigned o=0; for (size_t i=0;i<r.size();i++) { f.r[in.dst+i]=VE(mkExtract(e,o,r[i].w)); o+=r[i].w; } } f.pc++; break; }
      case Instruction::SIToFP: case Instruction::UIToFP: for (unsigned i=0;i<in.n;i++) { if (in.sub!=64&&in.sub!=32) unsupported(s,"itofp width"); f.r[in.dst+i]=VE(mkFp1(in.op==Instruction::SIToFP?O_SITOFP:O_UITOFP,X(OPi(in.a,i),in.w),in.sub)); } f.pc++; break;
      case Instruction::FPToSI: case Instruction::FPToUI: for (unsigned i=0;i<in.n;i++) { if (in.w!=64&&in.w!=32) unsupported(s,"fptoi width"); bool sg=in.op==Instruction::FPToSI; E a=X(OPi(in.a,i),in.w);
          if (optFpCast) { double h=std::ldexp(1.0,sg?in.sub-1:in.sub), lo=sg?-h:0; auto K=[&](double d){ if (in.w==64) { u64 b; memcpy(&b,&d,8); return mkConst(b,64);} float q=(float)d; u32 b; memcpy(&b,&q,4); return mkConst(b,32); }; E t=mkFp1(O_FROUND,a,in.w,2); E ok=mkAndB(mkFp2(O_FLE,K(lo),t),mkFp2(O_FLT,t,K(h))); if (!forkOn(s,ok)) error(s,"fpcast","floating value outside the range of the integer type"); }
          f.r[in.dst+i]=VE(mkFp1(sg?O_FPTOSI:O_FPTOUI,a,in.sub)); } f.pc++; break;
      case Instruction::FPExt: case Instruction::FPTrunc: for (unsigned i=0;i<in.n;i++) { if (in.sub>64||in.w>64) unsupported(s,"long double"); f.r[in.dst+i]=VE(mkFp1(in.op==Instruction::FPExt?O_FPEXT:O_FPTRUNC,X(OPi(in.a,i),in.w),in.sub)); } f.pc++; break;
      case Instruction::FNeg: for (unsigned i=0;i<in.n;i++) f.r[in.dst+i]=VE(mkBin(O_XOR,X(OPi(in.a,i),in.w),mkConst((u128)1<<(in.w-1),in.w))); f.pc++; break;
      case Instruction::AtomicRMW: { auto* rm=cast<AtomicRMWInst>(in.I); Val old=loadMem(s,OP(in.a),0,in.w); Val v=OP(in.b); unsigned op; switch(rm->getOperation()){case AtomicRMWInst::Add:op=Instruction::Add;break;case AtomicRMWInst::Sub:op=Instruction::Sub;break;case AtomicRMWInst::And:op=Instruction::And;break;case AtomicRMWInst::Or:op=Instruction::Or;break;case AtomicRMWInst::Xor:op=Instruction::Xor;break;case AtomicRMWInst::Xchg:op=0;break;default:unsupported(s,"atomicrmw");} storeMem(s,OP(in.a),0,in.w,op? binop(s,op,in.w,old,v) : v); f.r[in.dst]=old; f.pc++; break; }
      case Instruction::AtomicCmpXchg: { unsigned w=scalarW(in.I->getOperand(1)->getType()); Val old=loadMem(s,OP(in.a),0,w); E eq=mkEq(X(old,w),X(OP(in.b),w)); bool t=forkOn(s,eq); if (t) storeMem(s,OP(in.a),0,w,OP(in.c)); f.r[in.dst]=old; f.r[in.dst+1]=VC(t); f.pc++; break; }
      case Instruction::Fence: f.pc++; break;
      case Instruction::VAArg: unsupported(s,"va_arg instruction");
      default:
        if (Instruction::isBinaryOp(in.op)) { std::vector<Val> t; bool fpop=in.op==Instruction::FAdd||in.op==Instruction::FSub||in.op==Instruction::FMul||in.op==Instruction::FDiv||in.op==Instruction::FRem; if (fpop&&in.w!=64&&in.w!=32) unsupported(s,"long double arithmetic"); for (unsigned i=0;i<in.n;i++) t.push_back(binop(s,in.op,in.w,OPi(in.a,i),OPi(in.b,i))); for (unsigned i=0;i<in.n;i++) f.r[in.dst+i]=t[i]; f.pc++; break; }
        unsupported(s,std::string("instruction ")+in.I->getOpcodeName());
    }
  }
}

int main(int argc, char** argv) {
  if (argc>1 && std::string(argv[1])=="--selftest") { solverInit(); return solverSelftest(); }
  std::string bc; std::string smt; u64 memMB=6000;
  for (int i=1;i<argc;i++) { std::string a=argv[i]; auto nx=[&]{ return std::string(argv[++i]); };
    if (a=="--entry") entry=nx(); else if (a=="--out") outDir=nx(); else if (a=="--time") optTime=atof(nx().c_str()); else if (a=="--steps") optSteps=atoll(nx().c_str()); else if (a=="--split") { std::string t=nx(); sscanf(t.c_str(),"%d/%d",&splitI,&splitN); } else if (a=="--timeout") g_timeout_ms=atoi(nx().c_str()); else if (a=="--fpcast") optFpCast=true; else if (a=="--smt") smt=nx(); else if (a=="--arg") argStr=nx(); else if (a=="--maxviol") optMaxViol=atoi(nx().c_str()); else if (a=="--trace") optTrace=true; else if (a=="--mem") memMB=atoll(nx().c_str()); else bc=a; }
  mkdir(outDir.c_str(),0777); T0=std::chrono::steady_clock::now();
  { struct rlimit rl{memMB<<20,memMB<<20}; setrlimit(RLIMIT_AS,&rl); }
  if (!smt.empty()) g_smtlog=fopen(smt.c_str(),"w");
  LLVMContext ctx; SMDiagnostic err; auto mod=parseIRFile(bc,err,ctx); if (!mod) { err.print("gcsym",errs()); return 3; }
  M=mod.get(); DL=&M->getDataLayout(); solverInit(); registerBuiltins(); loadGlobals();
  State* s0=new State; s0->heapTop=0x550000000000ull; s0->stackTop=0x7f0000000000ull;
  double tload=now();
  auto runConc=[&](const Function* f)->bool { pushFrame(*s0,getFunc(f),{}); try { runState(*s0); } catch (Kill&) { return false; } return true; };
  if (auto* gc=M->getNamedGlobal("llvm.global_ctors")) if (auto* ca=dyn_cast<ConstantArray>(gc->getInitializer())) { std::vector<std::pair<u64,const Function*>> v; for (auto& o: ca->operands()) { auto* cs=cast<ConstantStruct>(o); v.push_back({cast<ConstantInt>(cs->getOperand(0))->getZExtValue(),dyn_cast<Function>(cs->getOperand(1)->stripPointerCasts())}); } std::stable_sort(v.begin(),v.end(),[](auto&a,auto&b){return a.first<b.first;}); for (auto& p: v) if (p.second && !runConc(p.second)) { fprintf(stderr,"gcsym: global constructor %s failed\n",p.second->getName().str().c_str()); for (auto&u: unsupp) fprintf(stderr,"  unsupported %s\n",u.first.c_str()); for (auto&v: viols) fprintf(stderr,"  %s %s at %s\n",v.kind.c_str(),v.msg.c_str(),v.loc.c_str()); return 4; } }
  for (auto& p: funcs) p.second->execCount=0;
  const Function* ef=M->getFunction(entry); if (!ef||ef->isDeclaration()) { fprintf(stderr,"gcsym: no entry %s\n",entry.c_str()); return 5; }
  s0->steps=0; nSteps=0; pushFrame(*s0,getFunc(ef),{}); work.push_back(s0);
  bool stopped=false;
  while (!work.empty()) {
    if (now()>optTime || viols.size()>=optMaxViol) { stopped=true; nUnexplored+=work.size(); break; }
    State* s=work.back(); work.pop_back();
    try { runState(*s); nPaths++; for (auto& c: s->covers) covers[c]++; 
      if (samples.size()<3 || (nPaths%997==0 && samples.size()<6)) { Model m; if (fullModel(*s,nullptr,m)) samples.push_back(inputsText(*s,m)); } }
    catch (Kill&) {}
    delete s;
  }
  double wall=now();
  std::ofstream o(outDir+"/result_"+std::to_string(splitI)+".json");
  o<<"{\"complete\":"<<((!stopped&&nUnexplored==0&&nUnsupp==0&&nBound==0)?"true":"false")<<",\"paths\":"<<nPaths<<",\"forks\":"<<nForks<<",\"steps\":"<<nSteps<<",\"asserts\":"<<nAsserts<<",\"symbolic_asserts\":"<<nAssertSym<<",\"mem_checks\":"<<nLoadsChecked<<",\"assume_killed\":"<<nKilledAssume<<",\"unsupported\":"<<nUnsupp<<",\"step_bound_hits\":"<<nBound<<",\"unexplored\":"<<nUnexplored<<",\"unknown_branch\":"<<nUnkBranch<<",\"unknown_assert\":"<<nUnkAssert<<",\"error_paths\":"<<nErr
   <<",\"queries\":"<<g_ss.queries<<",\"cache_hits\":"<<g_ss.cacheHits<<",\"sat\":"<<g_ss.sat<<",\"unsat\":"<<g_ss.unsat<<",\"unknown\":"<<g_ss.unknown<<",\"solver_s\":"<<g_ss.time<<",\"max_query_s\":"<<g_ss.maxTime<<",\"load_s\":"<<tload<<",\"wall_s\":"<<wall<<",\"exprs\":"<<exprCount();
  auto dumpMap=[&](const char* n,const std::map<std::string,u64>& m){ o<<",\""<<n<<"\":{"; bool first=true; for (auto& p:m) { o<<(first?"":",")<<"\""<<jesc(p.first)<<"\":"<<p.second; first=false; } o<<"}"; };
  dumpMap("covers",covers); dumpMap("unsupported_what",unsupp); dumpMap("assert_messages",assertMsgs); dumpMap("violation_counts",violCount);
  o<<",\"samples\":["; for (size_t i=0;i<samples.size();i++) o<<(i?",":"")<<"\""<<jesc(samples[i])<<"\""; o<<"]";
  o<<",\"functions\":{"; bool ff=true; for (auto& p: funcs) if (p.second->execCount && p.second->lib) { o<<(ff?"":",")<<"\""<<jesc(demangled(p.second->name))<<"\":"<<p.second->execCount; ff=false; } o<<"}";
  o<<",\"violations\":["; for (size_t i=0;i<viols.size();i++) { auto& v=viols[i]; o<<(i?",":"")<<"{\"kind\":\""<<v.kind<<"\",\"msg\":\""<<jesc(v.msg)<<"\",\"loc\":\""<<jesc(v.loc)<<"\",\"uninit\":"<<(v.uninit?"true":"false")<<",\"file\":\""<<jesc(v.file)<<"\"}"; } o<<"]}\n";
  o.close(); _exit(0);
}
