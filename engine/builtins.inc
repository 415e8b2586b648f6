// builtin (modelled) functions and intrinsics
#define BIF(name) static void name(CallCtx& c)
static void ret(CallCtx& c, Val v) { if (c.in.n) c.f.r[c.in.dst]=v; advanceCall(c.f); }
static void retv(CallCtx& c) { advanceCall(c.f); }
static void ret2(CallCtx& c, Val a, Val b) { c.f.r[c.in.dst]=a; c.f.r[c.in.dst+1]=b; advanceCall(c.f); }

// ---- allocation
static const u64 ALLOC_MAX = 64ull<<20;
static void throwBadAlloc(CallCtx& c);
static void doAlloc(CallCtx& c, Val sz, MK k) {
  State& s=c.s;
  if (sz.e) { // unreasonably large symbolic sizes: one representative side
    E big=mkBin(O_ULT,mkConst(1u<<16,64),sz.e);
    if (forkOn(s,big)) { s.covers.push_back("alloc_over_64k"); if (k==MK_MALLOC) { ret(c,VC(0)); return; } throwBadAlloc(c); return; }
  }
  u64 n=concretize(s,sz,64); 
  if (n>ALLOC_MAX) { if (k==MK_MALLOC) { ret(c,VC(0)); return; } throwBadAlloc(c); return; }
  if (k!=MK_MALLOC && s.allocFail>=0 && s.allocFail--==0) { s.allocFired=true; throwBadAlloc(c); return; }
  ret(c,VC(allocObj(s,n,k)));
}
BIF(b_malloc){ doAlloc(c,c.a[0],MK_MALLOC); }
BIF(b_new){ doAlloc(c,c.a[0],MK_NEW); }
BIF(b_newa){ doAlloc(c,c.a[0],MK_NEWA); }
BIF(b_calloc){ u64 n=concretize(c.s,c.a[0],64)*concretize(c.s,c.a[1],64); if (n>ALLOC_MAX) { ret(c,VC(0)); return; } u64 a=allocObj(c.s,n,MK_MALLOC); MO* o=c.s.mem[a].p; o->s.clear(); ret(c,VC(a)); }
BIF(b_free){ freeObj(c.s,concretize(c.s,c.a[0],64),MK_MALLOC); retv(c); }
BIF(b_delete){ freeObj(c.s,concretize(c.s,c.a[0],64),MK_NEW); retv(c); }
BIF(b_deletea){ freeObj(c.s,concretize(c.s,c.a[0],64),MK_NEWA); retv(c); }
BIF(b_realloc){ State& s=c.s; u64 p=concretize(s,c.a[0],64), n=concretize(s,c.a[1],64); if (n>ALLOC_MAX) { ret(c,VC(0)); return; } if (!p) { ret(c,VC(allocObj(s,n,MK_MALLOC))); return; }
  auto it=s.mem.find(p); if (it==s.mem.end()) error(s,"memory","realloc of invalid pointer"); u64 os=it->second->size; u64 a=allocObj(s,n,MK_MALLOC); copyMem(s,a,p,std::min(os,n)); freeObj(s,p,MK_MALLOC); ret(c,VC(a)); }

// ---- memory intrinsics
BIF(b_memcpy){ State& s=c.s; u64 n=concretize(s,c.a[2],64); if (!n) { ret(c,c.a[0]); return; } u64 d=concretize(s,c.a[0],64), p=concretize(s,c.a[1],64); copyMem(s,d,p,n); ret(c,c.a[0]); }
BIF(b_memset){ State& s=c.s; u64 n=concretize(s,c.a[2],64); if (!n) { ret(c,c.a[0]); return; } u64 d=concretize(s,c.a[0],64); const Ref& r=need(s,d,n,"memset"); if (r->ro) error(s,"memory","store to constant object"); MO* o=writable(s,r); Val v=c.a[1]; if (v.e) v=VE(mkExtract(v.e,0,8)); else v.c&=0xff; u64 off=d-o->base; if (!v.e) { memset(&o->b[off],(int)v.c,n); if (!o->s.empty()) for (u64 i=0;i<n;i++) o->s[off+i]=nullptr; } else for (u64 i=0;i<n;i++) writeMO(o,off+i,8,v); ret(c,c.a[0]); }
static E rdByte(State& s, u64 a) { const Ref& r=need(s,a,1,"read"); return X(readMO(s,r,a-r->base,8),8); }
BIF(b_memcmp){ State& s=c.s; u64 n=concretize(s,c.a[2],64); if (!n) { ret(c,VC(0)); return; } u64 a=concretize(s,c.a[0],64), b=concretize(s,c.a[1],64); need(s,a,n,"memcmp"); need(s,b,n,"memcmp");
  E r=mkConst(0,32); for (u64 i=n;i-->0;) { E x=rdByte(s,a+i), y=rdByte(s,b+i); r=mkIte(mkEq(x,y),r,mkIte(mkBin(O_ULT,x,y),mkConst(0xffffffff,32),mkConst(1,32))); } ret(c,VE(r)); }
BIF(b_bcmp){ State& s=c.s; u64 n=concretize(s,c.a[2],64); if (!n) { ret(c,VC(0)); return; } u64 a=concretize(s,c.a[0],64), b=concretize(s,c.a[1],64); need(s,a,n,"memcmp"); need(s,b,n,"memcmp");
  E eq=mkConst(1,1); for (u64 i=0;i<n;i++) eq=mkAndB(eq,mkEq(rdByte(s,a+i),rdByte(s,b+i))); ret(c,VE(mkZExt(mkNot(eq),32))); }

// ---- exceptions
BIF(b_cxa_allocate){ u64 n=concretize(c.s,c.a[0],64); u64 a=allocObj(c.s,n,MK_EXC); ret(c,VC(a)); }
BIF(b_cxa_free_exc){ u64 a=c.a[0].c; freeObj(c.s,a,MK_EXC); retv(c); }
BIF(b_cxa_throw){ State& s=c.s; u64 e=c.a[0].c; s.exc[e]=ExcInfo{c.a[1].c,c.a[2].c,0,false}; s.note="thrown at "+trace(s,6); unwind(s,e); }
BIF(b_begin_catch){ State& s=c.s; u64 e=c.a[0].c; ExcInfo& x=s.exc[e]; x.handlers++; x.rethrown=false; if (s.caught.empty()||s.caught.back()!=e) s.caught.push_back(e); ret(c,VC(e)); }
BIF(b_end_catch){ State& s=c.s; if (s.caught.empty()) { retv(c); return; } u64 e=s.caught.back(); ExcInfo& x=s.exc[e]; x.handlers--;
  if (x.rethrown) { if (x.handlers<=0) s.caught.pop_back(); retv(c); return; }
  if (x.handlers>0) { retv(c); return; }
  s.caught.pop_back(); u64 d=x.dtor;
  if (d) { auto it=faddr.find(d); if (it==faddr.end()) unsupported(s,"exception destructor"); const Function* F=it->second; if (!F->isDeclaration()) { pushFrame(s,getFunc(F),{VC(e)},1,e); return; } }
  s.exc.erase(e); freeObj(s,e,MK_EXC); retv(c); }
BIF(b_rethrow){ State& s=c.s; if (s.caught.empty()) error(s,"terminate","rethrow without active exception"); u64 e=s.caught.back(); s.exc[e].rethrown=true; unwind(s,e); }
BIF(b_get_exc_ptr){ ret(c,c.a[0]); }
BIF(b_eh_typeid){ ret(c,VC((c.a[0].c>>3)&0x7fffffff)); }
BIF(b_terminate){ error(c.s,"terminate","std::terminate called "+c.s.note); }
BIF(b_abort){ error(c.s,"abort",c.fn->getName().str()+" called"); }
BIF(b_exit){ error(c.s,"abort",c.fn->getName().str()+" called"); }
BIF(b_assert_fail){ std::string m; try { m=readCStr(c.s,c.a[0].c); } catch (Kill&) { throw; } error(c.s,"abort","assertion failed: "+m); }
BIF(b_nop){ for (unsigned i=0;i<c.in.n;i++) c.f.r[c.in.dst+i]=VC(0); advanceCall(c.f); }
BIF(b_one){ ret(c,VC(1)); }
BIF(b_guard_acquire){ State& s=c.s; Val v=loadMem(s,c.a[0],0,8); if (!v.e && v.c) { ret(c,VC(0)); return; } ret(c,VC(1)); }
BIF(b_guard_release){ storeMem(c.s,c.a[0],0,8,VC(1)); retv(c); }
static void throwBadAlloc(CallCtx& c) { // call the model helper gcm_throw_bad_alloc
  const Function* F=M->getFunction("gcm_throw_bad_alloc"); if (!F||F->isDeclaration()) unsupported(c.s,"bad_alloc"); pushFrame(c.s,getFunc(F),{}); }

// ---- integer intrinsics
static unsigned wOf(CallCtx& c) { return c.ci.aw[0]; }
template <class Fn> static void lanes(CallCtx& c, Fn fn) { unsigned n=c.ci.nl[0]; std::vector<Val> t; for (unsigned i=0;i<n;i++) t.push_back(fn(i)); for (unsigned i=0;i<n;i++) c.f.r[c.in.dst+i]=t[i]; advanceCall(c.f); }
static Val ovf(CallCtx& c, int kind, bool sg) { unsigned w=wOf(c); E a=X(c.a[0],w), b=X(c.a[1],w); unsigned W= kind==2? 2*w : w+1; if (W>128) W=128; if (kind==2&&2*w>128) unsupported(c.s,"mul overflow 128"); E x= sg? mkSExt(a,W) : mkZExt(a,W); E y= sg? mkSExt(b,W) : mkZExt(b,W); E r=mkBin(kind==0?O_ADD:kind==1?O_SUB:O_MUL,x,y); E lo=mkExtract(r,0,w); E back= sg? mkSExt(lo,W) : mkZExt(lo,W); c.f.r[c.in.dst]=VE(lo); c.f.r[c.in.dst+1]=VE(mkNot(mkEq(back,r))); advanceCall(c.f); return VC(0); }
BIF(b_uaddo){ ovf(c,0,false);} BIF(b_saddo){ ovf(c,0,true);} BIF(b_usubo){ ovf(c,1,false);} BIF(b_ssubo){ ovf(c,1,true);} BIF(b_umulo){ ovf(c,2,false);} BIF(b_smulo){ ovf(c,2,true);}
BIF(b_smax){ unsigned w=wOf(c), n=c.ci.nl[0]; lanes(c,[&](unsigned i){ E a=X(c.a[i],w),b=X(c.a[n+i],w); return VE(mkIte(mkBin(O_SLT,a,b),b,a)); }); }
BIF(b_smin){ unsigned w=wOf(c), n=c.ci.nl[0]; lanes(c,[&](unsigned i){ E a=X(c.a[i],w),b=X(c.a[n+i],w); return VE(mkIte(mkBin(O_SLT,a,b),a,b)); }); }
BIF(b_umax){ unsigned w=wOf(c), n=c.ci.nl[0]; lanes(c,[&](unsigned i){ E a=X(c.a[i],w),b=X(c.a[n+i],w); return VE(mkIte(mkBin(O_ULT,a,b),b,a)); }); }
BIF(b_umin){ unsigned w=wOf(c), n=c.ci.nl[0]; lanes(c,[&](unsigned i){ E a=X(c.a[i],w),b=X(c.a[n+i],w); return VE(mkIte(mkBin(O_ULT,a,b),a,b)); }); }
BIF(b_iabs){ unsigned w=wOf(c); lanes(c,[&](unsigned i){ E a=X(c.a[i],w); return VE(mkIte(mkBin(O_SLT,a,mkConst(0,w)),mkBin(O_SUB,mkConst(0,w),a),a)); }); }
BIF(b_ctpop){ unsigned w=wOf(c); E a=X(c.a[0],w), r=mkConst(0,w); for (unsigned i=0;i<w;i++) r=mkBin(O_ADD,r,mkZExt(mkExtract(a,i,1),w)); ret(c,VE(r)); }
BIF(b_ctlz){ unsigned w=wOf(c); E a=X(c.a[0],w), r=mkConst(w,w); for (unsigned i=0;i<w;i++) r=mkIte(mkExtract(a,i,1),mkConst(w-1-i,w),r); ret(c,VE(r)); }
BIF(b_cttz){ unsigned w=wOf(c); E a=X(c.a[0],w), r=mkConst(w,w); for (unsigned i=w;i-->0;) r=mkIte(mkExtract(a,i,1),mkConst(i,w),r); ret(c,VE(r)); }
BIF(b_bswap){ unsigned w=wOf(c); E a=X(c.a[0],w), r=nullptr; for (unsigned i=0;i<w/8;i++) { E b=mkExtract(a,8*i,8); r= r? mkConcat(r,b) : b; } ret(c,VE(r)); }
BIF(b_fshl){ unsigned w=wOf(c); u64 k=concretize(c.s,c.a[2],w)%w; E a=X(c.a[0],w),b=X(c.a[1],w); if (!k) { ret(c,c.a[0]); return; } ret(c,VE(mkConcat(mkExtract(a,0,w-k),mkExtract(b,w-k,k)))); }
BIF(b_fshr){ unsigned w=wOf(c); u64 k=concretize(c.s,c.a[2],w)%w; E a=X(c.a[0],w),b=X(c.a[1],w); if (!k) { ret(c,c.a[1]); return; } ret(c,VE(mkConcat(mkExtract(a,0,k),mkExtract(b,k,w-k)))); }
BIF(b_usubsat){ unsigned w=wOf(c), n=c.ci.nl[0]; lanes(c,[&](unsigned i){ E a=X(c.a[i],w),b=X(c.a[n+i],w); return VE(mkIte(mkBin(O_ULT,a,b),mkConst(0,w),mkBin(O_SUB,a,b))); }); }
BIF(b_uaddsat){ unsigned w=wOf(c), n=c.ci.nl[0]; lanes(c,[&](unsigned i){ E a=X(c.a[i],w),b=X(c.a[n+i],w); E r=mkBin(O_ADD,a,b); return VE(mkIte(mkBin(O_ULT,r,a),mkConst(maskw(w),w),r)); }); }
BIF(b_first){ for (unsigned i=0;i<c.in.n;i++) c.f.r[c.in.dst+i]=c.a[i]; advanceCall(c.f); }
BIF(b_is_const){ ret(c,VC(0)); }
BIF(b_objsize){ unsigned w=scalarW(c.in.I->getType()); ret(c,VC(c.a[1].c? 0 : m64(w))); }
// vector reductions
template <class Fn> static void reduce(CallCtx& c, Fn fn) { unsigned w=wOf(c); E r=X(c.a[0],w); for (unsigned i=1;i<c.ci.nl[0];i++) r=fn(r,X(c.a[i],w)); ret(c,VE(r)); }
BIF(b_redor){ reduce(c,[](E a,E b){return mkBin(O_OR,a,b);}); } BIF(b_redand){ reduce(c,[](E a,E b){return mkBin(O_AND,a,b);}); } BIF(b_redadd){ reduce(c,[](E a,E b){return mkBin(O_ADD,a,b);}); }
// ---- floating point
template <class Fn> static void fl(CallCtx& c, Fn fn) { unsigned w=wOf(c); if (w!=64&&w!=32) unsupported(c.s,"long double"); lanes(c,[&](unsigned i){ return VE(fn(X(c.a[i],w),w)); }); }
BIF(b_fabs){ fl(c,[](E a,unsigned w){ return mkBin(O_AND,a,mkConst(maskw(w-1),w)); }); }
BIF(b_floor){ fl(c,[](E a,unsigned w){ return mkFp1(O_FROUND,a,w,0); }); } BIF(b_ceil){ fl(c,[](E a,unsigned w){ return mkFp1(O_FROUND,a,w,1); }); } BIF(b_trunc){ fl(c,[](E a,unsigned w){ return mkFp1(O_FROUND,a,w,2); }); } BIF(b_rint){ fl(c,[](E a,unsigned w){ return mkFp1(O_FROUND,a,w,3); }); } BIF(b_round){ fl(c,[](E a,unsigned w){ return mkFp1(O_FROUND,a,w,4); }); }
BIF(b_sqrt){ fl(c,[](E a,unsigned w){ return mkFp1(O_FSQRT,a,w); }); }
BIF(b_copysign){ unsigned w=wOf(c); E a=X(c.a[0],w), b=X(c.a[1],w); ret(c,VE(mkConcat(mkExtract(b,w-1,1),mkExtract(a,0,w-1)))); }
BIF(b_fmuladd){ unsigned w=wOf(c); ret(c,VE(mkFp2(O_FADD,mkFp2(O_FMUL,X(c.a[0],w),X(c.a[1],w)),X(c.a[2],w)))); }
BIF(b_fmin){ unsigned w=wOf(c); E a=X(c.a[0],w),b=X(c.a[1],w); ret(c,VE(mkIte(mkFp2(O_FUNO,a,a),b,mkIte(mkFp2(O_FUNO,b,b),a,mkIte(mkFp2(O_FLT,b,a),b,a))))); }
BIF(b_fmax){ unsigned w=wOf(c); E a=X(c.a[0],w),b=X(c.a[1],w); ret(c,VE(mkIte(mkFp2(O_FUNO,a,a),b,mkIte(mkFp2(O_FUNO,b,b),a,mkIte(mkFp2(O_FLT,a,b),b,a))))); }
BIF(b_is_fpclass){ unsigned w=wOf(c); u64 m=c.a[1].c; E a=X(c.a[0],w); unsigned mb= w==64?52:23, eb= w==64?11:8; E sg=mkExtract(a,w-1,1), ex=mkExtract(a,mb,eb), mn=mkExtract(a,0,mb); E e1=mkEq(ex,mkConst(maskw(eb),eb)), e0=mkEq(ex,mkConst(0,eb)), m0=mkEq(mn,mkConst(0,mb)); E q=mkExtract(a,mb-1,1); E ns=mkNot(sg);
  E r=mkConst(0,1); auto add=[&](u64 bit,E x){ if (m&bit) r=mkOrB(r,x); };
  E nan=mkAndB(e1,mkNot(m0)); add(1,mkAndB(nan,mkNot(q))); add(2,mkAndB(nan,q)); E inf=mkAndB(e1,m0); add(4,mkAndB(inf,sg)); add(512,mkAndB(inf,ns)); E nrm=mkAndB(mkNot(e0),mkNot(e1)); add(8,mkAndB(nrm,sg)); add(256,mkAndB(nrm,ns)); E sub=mkAndB(e0,mkNot(m0)); add(16,mkAndB(sub,sg)); add(128,mkAndB(sub,ns)); E z=mkAndB(e0,m0); add(32,mkAndB(z,sg)); add(64,mkAndB(z,ns)); ret(c,VE(r)); }
static double toD(const Val& v) { double d; memcpy(&d,&v.c,8); return d; }
static Val fromDv(double d) { u64 b; memcpy(&b,&d,8); return VC(b); }
template <double(*FN)(double)> static void b_m1(CallCtx& c) { if (c.a[0].e) unsupported(c.s,"symbolic libm "+c.fn->getName().str()); ret(c,fromDv(FN(toD(c.a[0])))); }
template <double(*FN)(double,double)> static void b_m2(CallCtx& c) { if (c.a[0].e||c.a[1].e) unsupported(c.s,"symbolic libm "+c.fn->getName().str()); ret(c,fromDv(FN(toD(c.a[0]),toD(c.a[1])))); }
BIF(b_hypot){ // |re+i im|: exact when one component is zero, otherwise only concrete
  E a=X(c.a[0],64), b=X(c.a[1],64); if (isC(a)&&isC(b)) { ret(c,fromDv(::hypot(toD(c.a[0]),toD(c.a[1])))); return; } unsupported(c.s,"symbolic hypot"); }
BIF(b_ldexp){ if (c.a[0].e||c.a[1].e) unsupported(c.s,"symbolic ldexp"); ret(c,fromDv(::ldexp(toD(c.a[0]),(int)c.a[1].c))); }
BIF(b_frexp){ if (c.a[0].e) unsupported(c.s,"symbolic frexp"); int e; double r=::frexp(toD(c.a[0]),&e); storeMem(c.s,c.a[1],0,32,VC((u32)e)); ret(c,fromDv(r)); }

// ---- varargs
BIF(b_va_start){ State& s=c.s; Frame& f=c.f; u64 n=f.va.size(); u64 ar=allocObj(s,std::max<u64>(8,8*n),MK_STACK); f.allocas.push_back(ar); for (u64 i=0;i<n;i++) { auto& v=f.va[i]; unsigned w=v.second; storeMem(s,VC(ar+8*i),0,64, v.first.e? VE(mkZExt(v.first.e,64)) : VC(v.first.c&m64(w))); }
  u64 l=c.a[0].c; storeMem(s,VC(l),0,32,VC(48)); storeMem(s,VC(l),4,32,VC(304)); storeMem(s,VC(l),8,64,VC(ar)); storeMem(s,VC(l),16,64,VC(0)); retv(c); }
BIF(b_va_copy){ copyMem(c.s,c.a[0].c,c.a[1].c,24); retv(c); }
static Val vaNext(State& s, u64 l) { u64 p=loadMem(s,VC(l),8,64).c; Val v=loadMem(s,VC(p),0,64); storeMem(s,VC(l),8,64,VC(p+8)); return v; }
// ---- formatting (concrete arguments only)
static std::string fmtConc(State& s, const std::string& f, std::function<Val()> next, bool opaque=false) {
  std::string o; for (size_t i=0;i<f.size();i++) { if (f[i]!='%') { o+=f[i]; continue; } if (f[i+1]=='%') { o+='%'; i++; continue; }
    std::string d="%"; i++; int nl=0; while (i<f.size() && strchr("-+ #0123456789.*lhzjtLq",f[i])) { if (f[i]=='*') { Val v=next(); if (v.e) unsupported(s,"symbolic printf"); d+=std::to_string((int)v.c); } else { if (f[i]=='l'||f[i]=='z'||f[i]=='j'||f[i]=='t'||f[i]=='q') nl=2; else if (f[i]=='h'||f[i]=='L') {} else d+=f[i]; } i++; }
    char cv=f[i]; Val v=next(); if (v.e) { if (opaque) { o+="?"; continue; } /* text of error messages */ unsupported(s,"symbolic argument in formatted print"); } char buf[512];
    if (strchr("di",cv)) { d+="lld"; snprintf(buf,512,d.c_str(), nl? (long long)v.c : (long long)(int)v.c); o+=buf; }
    else if (strchr("uxXo",cv)) { d+="ll"; d+=cv; snprintf(buf,512,d.c_str(), nl? (unsigned long long)v.c : (unsigned long long)(u32)v.c); o+=buf; }
    else if (strchr("eEfFgGaA",cv)) { d+=cv; snprintf(buf,512,d.c_str(),toD(v)); o+=buf; }
    else if (cv=='c') o+=(char)v.c; else if (cv=='s') { std::string t= v.c? readCStr(s,v.c) : "(null)"; d+="s"; std::vector<char> b(t.size()+600); snprintf(b.data(),b.size(),d.c_str(),t.c_str()); o+=b.data(); } else if (cv=='p') { snprintf(buf,512,"0x%llx",(unsigned long long)v.c); o+=buf; } else unsupported(s,"printf conversion"); }
  return o; }
static void putStr(State& s, u64 d, const std::string& t) { for (size_t i=0;i<t.size();i++) storeMem(s,VC(d+i),0,8,VC((u8)t[i])); }
static void finishSn(CallCtx& c, u64 d, u64 n, const std::string& o) { if (n) { std::string t=o.substr(0,n-1); putStr(c.s,d,t); storeMem(c.s,VC(d+t.size()),0,8,VC(0)); } ret(c,VC((u32)o.size())); }
BIF(b_snprintf){ size_t k=3; std::string o=fmtConc(c.s,readCStr(c.s,c.a[2].c),[&]{ return k<c.a.size()? c.a[k++] : VC(0); }); finishSn(c,c.a[0].c,c.a[1].c,o); }
BIF(b_sprintf){ size_t k=2; std::string o=fmtConc(c.s,readCStr(c.s,c.a[1].c),[&]{ return k<c.a.size()? c.a[k++] : VC(0); }); finishSn(c,c.a[0].c,1u<<20,o); }
BIF(b_vsnprintf){ u64 l=c.a[3].c; std::string o=fmtConc(c.s,readCStr(c.s,c.a[2].c),[&]{ return vaNext(c.s,l); },true); finishSn(c,c.a[0].c,c.a[1].c,o); }
BIF(b_strtod){ State& s=c.s; u64 p=c.a[0].c; std::string t; for (u64 q=p;;q++) { Val v=loadMem(s,VC(q),0,8); if (v.e) v=VC(concretize(s,v,8)); if (!v.c) break; t+=(char)v.c; } char* e; double d=::strtod(t.c_str(),&e); if (c.a.size()>1&&c.a[1].c) storeMem(s,c.a[1],0,64,VC(p+(e-t.c_str()))); ret(c,fromDv(d)); }

// ---- harness interface
BIF(b_sym_bytes){ State& s=c.s; u64 p=concretize(s,c.a[0],64), n=concretize(s,c.a[1],64); std::string nm=readCStr(s,c.a[2].c); Input in; in.name=nm; in.kind=1; in.n=n; in.choice=0;
  for (u64 o=0;o<n;) { u64 k= n-o>=8?8 : n-o>=4?4 : n-o>=2?2 : 1; if (n!=8&&n!=4&&n!=2) k=1; E v=freshVar(s,nm.c_str(),8*k,false); storeMem(s,VC(p+o),0,8*k,VE(v)); for (u64 i=0;i<k;i++) in.bytes.push_back(mkExtract(v,8*i,8)); o+=k; }
  s.inputs.push_back(in); retv(c); }
BIF(b_sym_choose){ State& s=c.s; u64 n=concretize(s,c.a[0],32); std::string nm=readCStr(s,c.a[1].c); if (n==0) kill(s);
  bool first=s.depthChoices==0; s.depthChoices++;
  std::vector<u64> opts; for (u64 i=0;i<n;i++) if (!(first&&splitN>1) || (int)(i%splitN)==splitI) opts.push_back(i);
  if (opts.empty()) { nKilledAssume++; kill(s); }
  for (size_t k=opts.size();k-->1;) { State* q=cloneState(s); Frame& f=q->st.back(); q->inputs.push_back(Input{nm,0,{},opts[k],n}); f.r[c.in.dst]=VC(opts[k]); advanceCall(f); work.push_back(q); }
  s.inputs.push_back(Input{nm,0,{},opts[0],n}); ret(c,VC(opts[0])); }
BIF(b_sym_assume){ E e=X(c.a[0],c.ci.aw[0]); e=mkNot(mkEq(e,mkConst(0,e->w))); addVarConstraintAssume(c.s,e); retv(c); }
BIF(b_sym_assert){ State& s=c.s; std::string msg=readCStr(s,c.a[1].c); nAsserts++; assertMsgs[msg]++; E e=X(c.a[0],c.ci.aw[0]); e=mkNot(mkEq(e,mkConst(0,e->w)));
  if (isC(e)) { if (!e->c) { errorPath(s,"assert",msg); kill(s); } retv(c); return; }
  nAssertSym++; E ne=mkNot(e); Model m=s.model; 
  if (s.modelOk && evalExpr(ne,s.model)) { violation(s,"assert",msg,m); }
  else { if (!s.modelOk) { Model mm=s.model; Res r=solve(s.cs,mkConst(1,1),&mm); if (r==R_UNSAT) kill(s); if (r==R_SAT) { s.model=mm; s.modelOk=true; m=mm; } }
    Res r=solve(s.cs,ne,&m); if (r==R_SAT && s.modelOk) violation(s,"assert",msg,m); else if (r!=R_UNSAT) nUnkAssert++; }
  addVarConstraintAssume(s,e); retv(c); }
BIF(b_sym_cover){ c.s.covers.push_back(readCStr(c.s,c.a[0].c)); retv(c); }
BIF(b_sym_live){ ret(c,VC(c.s.live)); }
BIF(b_sym_alloc_fail){ c.s.allocFail=(int)concretize(c.s,c.a[0],32); c.s.allocFired=false; retv(c); }
BIF(b_sym_alloc_fired){ ret(c,VC(c.s.allocFired?1:0)); }
BIF(b_sym_running){ ret(c,VC(1)); }
BIF(b_sym_eq){ b_bcmp(c); Frame& f=c.s.st.back(); Val v=f.r[c.in.dst]; E e=X(v,32); f.r[c.in.dst]=VE(mkZExt(mkEq(e,mkConst(0,32)),32)); }
BIF(b_sym_trace){ if (optTrace) fprintf(stderr,"[trace] %s\n",readCStr(c.s,c.a[0].c).c_str()); retv(c); }
BIF(b_sym_traceu){ if (optTrace) { Val v=c.a[1]; fprintf(stderr,"[trace] %s = %s\n",readCStr(c.s,c.a[0].c).c_str(), v.e? exprStr(v.e,8).c_str() : std::to_string(v.c).c_str()); } retv(c); }
BIF(b_sym_is_sym){ ret(c,VC(c.a[0].e?1:0)); }
BIF(b_sym_concretize){ Val v=c.a[0]; u64 k=concretize(c.s,v,64); ret(c,VC(k)); }
BIF(b_sym_fail){ State& s=c.s; std::string msg=readCStr(s,c.a[0].c); nAsserts++; assertMsgs[msg]++; errorPath(s,"assert",msg); kill(s); }
BIF(b_sym_skip){ nKilledAssume++; kill(c.s); }
BIF(b_sym_unsupported){ unsupported(c.s,readCStr(c.s,c.a[0].c)); }
// number -> text.  Concrete values use the host C library; symbolic ones are written as an
// opaque token  \x01 <kind> <prec> <8 raw bytes> \x02  (an injective, uninterpreted formatting).
BIF(b_fmt_double){ // (char* buf, double v, int prec, int flags) -> len
  State& s=c.s; u64 d=c.a[0].c; Val v=c.a[1]; int prec=(int)concretize(s,c.a[2],32); int fl=(int)concretize(s,c.a[3],32);
  if (!v.e) { char b[512]; std::string f="%"; if (fl&4) f+="+"; f+=".*"; f+= (fl&3)==1?"f":(fl&3)==2?"e":"g"; int n=snprintf(b,512,f.c_str(),prec,toD(v)); putStr(s,d,std::string(b,n)); ret(c,VC(n)); return; }
  putStr(s,d,std::string("\x01""D")+(char)prec); storeMem(s,VC(d+3),0,64,v); putStr(s,d+11,"\x02"); ret(c,VC(12)); }
BIF(b_fmt_int){ // (char* buf, int64 v, int isunsigned, int base) -> len
  State& s=c.s; u64 d=c.a[0].c; Val v=c.a[1]; int un=(int)concretize(s,c.a[2],32); int base=(int)concretize(s,c.a[3],32);
  if (!v.e) { char b[64]; int n= base==16? snprintf(b,64,"%llx",(unsigned long long)v.c) : base==8? snprintf(b,64,"%llo",(unsigned long long)v.c) : un? snprintf(b,64,"%llu",(unsigned long long)v.c) : snprintf(b,64,"%lld",(long long)v.c); putStr(s,d,std::string(b,n)); ret(c,VC(n)); return; }
  putStr(s,d,std::string("\x01""I")+(char)(base|(un&&base==10?0x40:0))); storeMem(s,VC(d+3),0,64,v); putStr(s,d+11,"\x02"); ret(c,VC(12)); }

static void registerBuiltins() {
  auto& b=bis;
  b["malloc"]=b_malloc; b["calloc"]=b_calloc; b["realloc"]=b_realloc; b["free"]=b_free;
  b["_Znwm"]=b_new; b["_Znam"]=b_newa; b["_ZdlPv"]=b_delete; b["_ZdlPvm"]=b_delete; b["_ZdaPv"]=b_deletea; b["_ZdaPvm"]=b_deletea;
  b["_ZnwmRKSt9nothrow_t"]=b_new; b["_ZnamRKSt9nothrow_t"]=b_newa; b["_ZnwmSt11align_val_t"]=b_new; b["_ZdlPvSt11align_val_t"]=b_delete; b["_ZdlPvmSt11align_val_t"]=b_delete; b["_ZdlPvRKSt9nothrow_t"]=b_delete;
  b["llvm.memcpy"]=b_memcpy; b["llvm.memcpy.inline"]=b_memcpy; b["llvm.memmove"]=b_memcpy; b["llvm.memset"]=b_memset; b["llvm.memset.inline"]=b_memset; b["memcpy"]=b_memcpy; b["memmove"]=b_memcpy; b["memset"]=b_memset; b["memcmp"]=b_memcmp; b["bcmp"]=b_bcmp;
  b["__cxa_allocate_exception"]=b_cxa_allocate; b["__cxa_free_exception"]=b_cxa_free_exc; b["__cxa_throw"]=b_cxa_throw; b["__cxa_begin_catch"]=b_begin_catch; b["__cxa_end_catch"]=b_end_catch; b["__cxa_rethrow"]=b_rethrow; b["__cxa_get_exception_ptr"]=b_get_exc_ptr; b["llvm.eh.typeid.for"]=b_eh_typeid;
  b["_ZSt9terminatev"]=b_terminate; b["__cxa_pure_virtual"]=b_abort; b["abort"]=b_abort; b["exit"]=b_exit; b["_exit"]=b_exit; b["__assert_fail"]=b_assert_fail; b["llvm.trap"]=b_abort; b["llvm.ubsantrap"]=b_abort; b["__stack_chk_fail"]=b_abort;
  b["__cxa_atexit"]=b_nop; b["atexit"]=b_nop; b["__cxa_guard_acquire"]=b_guard_acquire; b["__cxa_guard_release"]=b_guard_release; b["__cxa_guard_abort"]=b_nop;
  b["pthread_mutex_lock"]=b_nop; b["pthread_mutex_unlock"]=b_nop; b["__pthread_key_create"]=b_nop; 
  b["llvm.uadd.with.overflow"]=b_uaddo; b["llvm.sadd.with.overflow"]=b_saddo; b["llvm.usub.with.overflow"]=b_usubo; b["llvm.ssub.with.overflow"]=b_ssubo; b["llvm.umul.with.overflow"]=b_umulo; b["llvm.smul.with.overflow"]=b_smulo;
  b["llvm.smax"]=b_smax; b["llvm.smin"]=b_smin; b["llvm.umax"]=b_umax; b["llvm.umin"]=b_umin; b["llvm.abs"]=b_iabs; b["llvm.ctpop"]=b_ctpop; b["llvm.ctlz"]=b_ctlz; b["llvm.cttz"]=b_cttz; b["llvm.bswap"]=b_bswap; b["llvm.fshl"]=b_fshl; b["llvm.fshr"]=b_fshr; b["llvm.usub.sat"]=b_usubsat; b["llvm.uadd.sat"]=b_uaddsat;
  b["llvm.expect"]=b_first; b["llvm.launder.invariant.group"]=b_first; b["llvm.strip.invariant.group"]=b_first; b["llvm.threadlocal.address"]=b_first; b["llvm.is.constant"]=b_is_const; b["llvm.objectsize"]=b_objsize; b["llvm.ptr.annotation"]=b_first; b["llvm.freeze"]=b_first;
  b["llvm.stacksave"]=b_nop; b["llvm.stackrestore"]=b_nop; b["llvm.invariant.start"]=b_nop; b["llvm.invariant.end"]=b_nop; b["llvm.va_end"]=b_nop; b["llvm.va_start"]=b_va_start; b["llvm.va_copy"]=b_va_copy; b["llvm.prefetch"]=b_nop; b["llvm.donothing"]=b_nop; b["llvm.sideeffect"]=b_nop; b["llvm.var.annotation"]=b_nop; b["llvm.pseudoprobe"]=b_nop;
  b["llvm.vector.reduce.or"]=b_redor; b["llvm.vector.reduce.and"]=b_redand; b["llvm.vector.reduce.add"]=b_redadd;
  b["llvm.fabs"]=b_fabs; b["fabs"]=b_fabs; b["llvm.floor"]=b_floor; b["floor"]=b_floor; b["llvm.ceil"]=b_ceil; b["ceil"]=b_ceil; b["llvm.trunc"]=b_trunc; b["trunc"]=b_trunc; b["llvm.rint"]=b_rint; b["rint"]=b_rint; b["llvm.nearbyint"]=b_rint; b["nearbyint"]=b_rint; b["llvm.round"]=b_round; b["round"]=b_round; b["llvm.roundeven"]=b_rint; b["llvm.sqrt"]=b_sqrt; b["sqrt"]=b_sqrt; b["llvm.copysign"]=b_copysign; b["copysign"]=b_copysign; b["llvm.fmuladd"]=b_fmuladd; b["llvm.minnum"]=b_fmin; b["llvm.maxnum"]=b_fmax; b["fmin"]=b_fmin; b["fmax"]=b_fmax; b["llvm.is.fpclass"]=b_is_fpclass;
  b["log"]=b_m1<::log>; b["log10"]=b_m1<::log10>; b["exp"]=b_m1<::exp>; b["sin"]=b_m1<::sin>; b["cos"]=b_m1<::cos>; b["log2"]=b_m1<::log2>; b["pow"]=b_m2<::pow>; b["llvm.pow"]=b_m2<::pow>; b["llvm.log"]=b_m1<::log>; b["llvm.exp"]=b_m1<::exp>; b["llvm.log10"]=b_m1<::log10>; b["fmod"]=b_m2<::fmod>; b["remainder"]=b_m2<::remainder>; b["nextafter"]=b_m2<::nextafter>; b["fdim"]=b_m2<::fdim>; b["cbrt"]=b_m1<::cbrt>; b["exp2"]=b_m1<::exp2>; b["expm1"]=b_m1<::expm1>; b["log1p"]=b_m1<::log1p>; b["tan"]=b_m1<::tan>; b["asin"]=b_m1<::asin>; b["acos"]=b_m1<::acos>; b["atan"]=b_m1<::atan>; b["sinh"]=b_m1<::sinh>; b["cosh"]=b_m1<::cosh>; b["tanh"]=b_m1<::tanh>; b["llvm.sin"]=b_m1<::sin>; b["llvm.cos"]=b_m1<::cos>; b["llvm.exp2"]=b_m1<::exp2>; b["llvm.log2"]=b_m1<::log2>; b["atan2"]=b_m2<::atan2>; b["gcm_hypot_raw"]=b_hypot; b["ldexp"]=b_ldexp; b["frexp"]=b_frexp; b["llvm.ldexp"]=b_ldexp;
  b["snprintf"]=b_snprintf; b["sprintf"]=b_sprintf; b["vsnprintf"]=b_vsnprintf; b["printf"]=b_nop; b["fprintf"]=b_nop; b["puts"]=b_nop; b["putchar"]=b_nop; b["fflush"]=b_nop; b["fputs"]=b_nop; b["fwrite"]=b_nop; b["fputc"]=b_nop; b["strtod"]=b_strtod; b["getenv"]=b_nop; b["time"]=b_nop; b["clock"]=b_nop; b["signal"]=b_nop;
  b["sym_bytes"]=b_sym_bytes; b["sym_choose"]=b_sym_choose; b["sym_assume"]=b_sym_assume; b["sym_assert"]=b_sym_assert; b["sym_cover"]=b_sym_cover; b["sym_live"]=b_sym_live; b["sym_running"]=b_sym_running; b["sym_alloc_fail"]=b_sym_alloc_fail; b["sym_alloc_fired"]=b_sym_alloc_fired; b["sym_eq"]=b_sym_eq; b["sym_trace"]=b_sym_trace; b["sym_traceu"]=b_sym_traceu; b["sym_is_sym"]=b_sym_is_sym; b["sym_concretize"]=b_sym_concretize; b["sym_fail"]=b_sym_fail; b["sym_skip"]=b_sym_skip; b["sym_unsupported"]=b_sym_unsupported; b["sym_fmt_double"]=b_fmt_double; b["sym_fmt_int"]=b_fmt_int;
}
