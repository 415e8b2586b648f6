#pragma once
#include "expr.hh"
#include "solver.hh"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <set>
#include <deque>

struct Val { u64 c; E e; };
static inline Val VC(u64 c) { return {c,nullptr}; }
static inline u64 m64(unsigned w) { return w>=64 ? ~0ull : ((1ull<<w)-1); }
static inline Val VE(E e) { if (isC(e) && e->w<=64) return {(u64)e->c,nullptr}; return {0,e}; }
static inline E X(const Val& v, unsigned w) { return v.e ? v.e : mkConst(v.c,w); }

#define UNINIT ((E)1)
enum MK : u8 { MK_GLOBAL, MK_STACK, MK_MALLOC, MK_NEW, MK_NEWA, MK_EXC, MK_EXT };
struct MO { u64 base,size; MK kind; bool ro; int rc=0; std::vector<u8> b; std::vector<E> s; const char* name=nullptr; };
struct Ref { MO* p=nullptr; Ref(){} Ref(MO*q):p(q){if(p)p->rc++;} Ref(const Ref&r):p(r.p){if(p)p->rc++;} Ref(Ref&&r):p(r.p){r.p=nullptr;}
  Ref& operator=(const Ref& r){ if(r.p)r.p->rc++; rel(); p=r.p; return *this;} Ref& operator=(Ref&&r){ std::swap(p,r.p); return *this;} ~Ref(){rel();}
  void rel(){ if(p && --p->rc==0) delete p; p=nullptr; } MO* operator->()const{return p;} explicit operator bool()const{return p;} };

struct Move { int dst, src; unsigned n; };
struct Edge { int pc; std::vector<Move> mv; };
struct GepInfo { i128 off; std::vector<std::tuple<int,i128,unsigned>> idx; };
struct Leaf { unsigned w; u64 off; };
struct Func;
struct CallInfo { const llvm::Function* callee; Func* fn; int calleeOp; std::vector<int> args; std::vector<unsigned> nl, aw; std::vector<u64> byval; int normal=-1, unwind=-1; int bi=-1; bool inl; };
struct SwInfo { std::vector<std::pair<u64,int>> cases; int def; };
struct Ins { unsigned op; unsigned sub; unsigned w; int dst; unsigned n; int a,b,c; int x; const llvm::Instruction* I; };
struct LpInfo { bool cleanup; std::vector<std::pair<bool,u64>> clauses; std::vector<std::vector<u64>> filters; };
struct Func { const llvm::Function* F; bool decoded=false; unsigned nslots=0; unsigned nargleaf=0; std::vector<Ins> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<GepInfo> geps; std::vector<CallInfo> calls; std::vector<SwInfo> sws; std::vector<LpInfo> lps; std::vector<std::vector<Leaf>> leaves; u64 execCount=0; bool hasVar=false; std::string name; bool lib=false; };

struct Frame { Func* f; std::vector<Val> r; int pc; std::vector<u64> allocas; std::vector<std::pair<Val,unsigned>> va; int onret=0; u64 onretArg=0; };
struct ExcInfo { u64 tinfo, dtor; int handlers=0; bool rethrown=false; };
struct Input { std::string name; int kind; std::vector<E> bytes; u64 choice; u64 n; };

struct State {
  std::vector<Frame> st;
  std::map<u64,Ref> mem;
  std::map<u64,std::pair<u64,u8>> freed;
  u64 heapTop, stackTop;
  std::vector<E> cs; Model model; bool modelOk=true;
  std::map<u64,ExcInfo> exc; std::vector<u64> caught; u64 curExc=0; 
  std::vector<Input> inputs;
  u64 steps=0; u64 live=0; unsigned nforks=0; unsigned depthChoices=0; long allocFail=-1; bool allocFired=false; // the allocFail-th next operator new fails
  std::vector<std::string> covers; std::string note; unsigned varCtr=0;
  std::map<std::string,u64> counters;
};
