#include "solver.hh"
#include <z3.h>
#include <chrono>
SolverStats g_ss; unsigned g_timeout_ms = 20000; FILE* g_smtlog=nullptr;
static Z3_context C; static Z3_solver S_inc, S_bv, S_fp; static std::vector<Z3_ast> tr; static Z3_sort F64,F32; static Z3_ast RNE,RTZ,RTP,RTN,RNA;
static std::vector<Z3_ast> varAst;
static void setTO(Z3_solver s, unsigned ms) { Z3_params p=Z3_mk_params(C); Z3_params_inc_ref(C,p); Z3_params_set_uint(C,p,Z3_mk_string_symbol(C,"timeout"),ms); Z3_solver_set_params(C,s,p); Z3_params_dec_ref(C,p); }
static bool g_err=false;
void solverInit() {
  Z3_config cfg=Z3_mk_config(); Z3_set_param_value(cfg,"model","true"); C=Z3_mk_context(cfg); Z3_del_config(cfg);
  Z3_set_error_handler(C,[](Z3_context c,Z3_error_code e){ g_err=true; fprintf(stderr,"z3 error: %s\n",Z3_get_error_msg(c,e)); });
  S_inc=Z3_mk_simple_solver(C); Z3_solver_inc_ref(C,S_inc);
  S_bv=Z3_mk_solver_for_logic(C,Z3_mk_string_symbol(C,"QF_BV")); Z3_solver_inc_ref(C,S_bv);
  Z3_tactic t=Z3_mk_tactic(C,"qffp"); Z3_tactic_inc_ref(C,t);
  S_fp=Z3_mk_solver_from_tactic(C,t); Z3_solver_inc_ref(C,S_fp);
  auto keep=[](Z3_ast a){Z3_inc_ref(C,a);return a;};
  F64=Z3_mk_fpa_sort_double(C); Z3_inc_ref(C,Z3_sort_to_ast(C,F64)); F32=Z3_mk_fpa_sort_single(C); Z3_inc_ref(C,Z3_sort_to_ast(C,F32));
  RNE=keep(Z3_mk_fpa_rne(C)); RTZ=keep(Z3_mk_fpa_rtz(C)); RTP=keep(Z3_mk_fpa_rtp(C)); RTN=keep(Z3_mk_fpa_rtn(C)); RNA=keep(Z3_mk_fpa_rna(C));
}
static Z3_ast bvc(u128 v, unsigned w) {
  if (w<=64) return Z3_mk_unsigned_int64(C,(u64)v,Z3_mk_bv_sort(C,w));
  Z3_ast lo=Z3_mk_unsigned_int64(C,(u64)v,Z3_mk_bv_sort(C,64)); Z3_ast hi=Z3_mk_unsigned_int64(C,(u64)(v>>64),Z3_mk_bv_sort(C,w-64)); return Z3_mk_concat(C,hi,lo);
}
static Z3_ast b2v(Z3_ast b){ return Z3_mk_ite(C,b,bvc(1,1),bvc(0,1)); }
// ---- bit-vector lowering of the floating point operations that need no arithmetic (comparisons, rounding to integral values,
// ---- integer<->float conversions, x-round(x)); checked once against the solver's own floating point theory by `gcsym --selftest`
struct FW { unsigned w,m,e; u64 bias; }; // width, stored mantissa bits, exponent bits
static FW fw(unsigned w){ return w==64? FW{64,52,11,1023} : FW{32,23,8,127}; }
static Z3_ast ex(Z3_ast a,unsigned hi,unsigned lo){ return Z3_mk_extract(C,hi,lo,a); }
static Z3_ast zx(Z3_ast a,unsigned from,unsigned to){ return to==from?a:Z3_mk_zero_ext(C,to-from,a); }
static Z3_ast nt(Z3_ast a){ return Z3_mk_not(C,a); }
static Z3_ast an(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_and(C,2,x); }
static Z3_ast orr(Z3_ast a,Z3_ast b){ Z3_ast x[2]={a,b}; return Z3_mk_or(C,2,x); }
static Z3_ast mag(Z3_ast a,unsigned w){ return ex(a,w-2,0); }
static Z3_ast sgn(Z3_ast a,unsigned w){ return Z3_mk_eq(C,ex(a,w-1,w-1),bvc(1,1)); }
static u128 infMag(unsigned w){ return w==64?0x7ff0000000000000ull:0x7f800000u; }
static Z3_ast isNan(Z3_ast a,unsigned w){ return Z3_mk_bvult(C,bvc(infMag(w),w-1),mag(a,w)); }
static Z3_ast cNan(unsigned w){ return bvc(w==64?0x7ff8000000000000ull:0x7fc00000u,w); }
static Z3_ast bFlt(Z3_ast a,Z3_ast b,unsigned w,bool orEq){
  Z3_ast ma=mag(a,w),mb=mag(b,w),sa=sgn(a,w),sb=sgn(b,w),z=bvc(0,w-1);
  Z3_ast bothZ=an(Z3_mk_eq(C,ma,z),Z3_mk_eq(C,mb,z));
  Z3_ast lt=Z3_mk_ite(C,sa,Z3_mk_ite(C,sb,orEq?Z3_mk_bvule(C,mb,ma):Z3_mk_bvult(C,mb,ma),orEq?Z3_mk_true(C):nt(bothZ)),Z3_mk_ite(C,sb,orEq?bothZ:Z3_mk_false(C),orEq?Z3_mk_bvule(C,ma,mb):Z3_mk_bvult(C,ma,mb)));
  return an(an(nt(isNan(a,w)),nt(isNan(b,w))),lt);
}
static Z3_ast bFeq(Z3_ast a,Z3_ast b,unsigned w){
  Z3_ast ma=mag(a,w),mb=mag(b,w),z=bvc(0,w-1);
  return an(nt(isNan(a,w)),orr(Z3_mk_eq(C,a,b),an(Z3_mk_eq(C,ma,z),Z3_mk_eq(C,mb,z)))); // equal bits with a not NaN: b is not NaN either; zeros are not NaN
}
static Z3_ast bExp(Z3_ast a,FW f){ return zx(ex(a,f.w-2,f.m),f.e,f.w); } // biased exponent, w bits
// round to an integral value. mode: 0 floor 1 ceil 2 trunc 3 rne 4 rna
static Z3_ast bRound(Z3_ast a,unsigned mode,unsigned w){
  FW f=fw(w); Z3_ast e=bExp(a,f), sign=Z3_mk_bvand(C,a,bvc((u128)1<<(w-1),w)), s=sgn(a,w); Z3_ast M=zx(mag(a,w),w-1,w);
  Z3_ast big=Z3_mk_bvuge(C,e,bvc(f.bias+f.m,w)), small=Z3_mk_bvult(C,e,bvc(f.bias,w)); // |a|<1
  Z3_ast one=Z3_mk_bvor(C,sign,bvc(f.bias<<f.m,w)), isZ=Z3_mk_eq(C,mag(a,w),bvc(0,w-1));
  Z3_ast sm; // |a|<1
  switch(mode){
    case 0: sm=Z3_mk_ite(C,an(s,nt(isZ)),one,sign); break;
    case 1: sm=Z3_mk_ite(C,an(nt(s),nt(isZ)),one,sign); break;
    case 2: sm=sign; break;
    case 3: sm=Z3_mk_ite(C,Z3_mk_bvugt(C,M,bvc((f.bias-1)<<f.m,w)),one,sign); break;
    default: sm=Z3_mk_ite(C,Z3_mk_bvuge(C,M,bvc((f.bias-1)<<f.m,w)),one,sign); break;
  }
  Z3_ast fb=Z3_mk_bvsub(C,bvc(f.bias+f.m,w),e); // fraction bits, 1..m
  Z3_ast unit=Z3_mk_bvshl(C,bvc(1,w),fb), mask=Z3_mk_bvsub(C,unit,bvc(1,w)), half=Z3_mk_bvlshr(C,unit,bvc(1,w));
  Z3_ast fr=Z3_mk_bvand(C,M,mask), tr_=Z3_mk_bvand(C,M,Z3_mk_bvnot(C,mask)), up=Z3_mk_bvadd(C,tr_,unit), nz=nt(Z3_mk_eq(C,fr,bvc(0,w)));
  Z3_ast m;
  switch(mode){
    case 0: m=Z3_mk_ite(C,an(s,nz),up,tr_); break;
    case 1: m=Z3_mk_ite(C,an(nt(s),nz),up,tr_); break;
    case 2: m=tr_; break;
    case 3: { // the hidden bit is the unit bit when fb==m
      Z3_ast odd=nt(Z3_mk_eq(C,Z3_mk_bvand(C,Z3_mk_bvor(C,Z3_mk_bvand(C,M,bvc(((u128)1<<f.m)-1,w)),bvc((u128)1<<f.m,w)),unit),bvc(0,w)));
      m=Z3_mk_ite(C,orr(Z3_mk_bvugt(C,fr,half),an(Z3_mk_eq(C,fr,half),odd)),up,tr_); break; }
    default: m=Z3_mk_ite(C,Z3_mk_bvuge(C,fr,half),up,tr_); break;
  }
  return Z3_mk_ite(C,isNan(a,w),cNan(w),Z3_mk_ite(C,big,a,Z3_mk_ite(C,small,sm,Z3_mk_bvor(C,sign,m))));
}
// left-normalise x (n bits): returns x shifted so that the top bit is set (unless x is 0) and the shift
static Z3_ast norm(Z3_ast x,unsigned n,Z3_ast& sh){
  sh=bvc(0,n); unsigned st=1; while (st*2<n) st*=2;
  for (; st; st/=2) { Z3_ast z=Z3_mk_eq(C,ex(x,n-1,n-st),bvc(0,st)); x=Z3_mk_ite(C,z,Z3_mk_bvshl(C,x,bvc(st,n)),x); sh=Z3_mk_ite(C,z,Z3_mk_bvadd(C,sh,bvc(st,n)),sh); }
  return x;
}
// a - round_half_away(a)
static Z3_ast bFrac(Z3_ast a,unsigned w){
  FW f=fw(w); Z3_ast e=bExp(a,f), sbit=ex(a,w-1,w-1), M=zx(mag(a,w),w-1,w);
  Z3_ast spec=Z3_mk_bvuge(C,mag(a,w),bvc(infMag(w),w-1)), big=Z3_mk_bvuge(C,e,bvc(f.bias+f.m,w)), tiny=Z3_mk_bvult(C,M,bvc((f.bias-1)<<f.m,w)), isZ=Z3_mk_eq(C,mag(a,w),bvc(0,w-1));
  Z3_ast fb=Z3_mk_bvsub(C,bvc(f.bias+f.m,w),e); // 1..m+1
  Z3_ast unit=Z3_mk_bvshl(C,bvc(1,w),fb), half=Z3_mk_bvlshr(C,unit,bvc(1,w));
  Z3_ast mant=Z3_mk_bvor(C,Z3_mk_bvand(C,M,bvc(((u128)1<<f.m)-1,w)),bvc((u128)1<<f.m,w));
  Z3_ast fr=Z3_mk_bvand(C,mant,Z3_mk_bvsub(C,unit,bvc(1,w))), up=Z3_mk_bvuge(C,fr,half);
  Z3_ast g=Z3_mk_ite(C,up,Z3_mk_bvsub(C,unit,fr),fr); // 1..2^m
  Z3_ast so=Z3_mk_ite(C,up,Z3_mk_bvnot(C,sbit),sbit), sh; unsigned n=f.m+1; Z3_ast x=norm(ex(g,f.m,0),n,sh); sh=zx(sh,n,w);
  Z3_ast eo=Z3_mk_bvsub(C,bvc(f.bias+f.m,w),Z3_mk_bvadd(C,fb,sh));
  Z3_ast r=Z3_mk_concat(C,so,Z3_mk_concat(C,ex(eo,f.e-1,0),ex(x,f.m-1,0)));
  r=Z3_mk_ite(C,Z3_mk_eq(C,fr,bvc(0,w)),bvc(0,w),r);
  return Z3_mk_ite(C,spec,cNan(w),Z3_mk_ite(C,orr(big,isZ),bvc(0,w),Z3_mk_ite(C,tiny,a,r)));
}
// float (width wi) -> integer (width w), out of range = 1<<(w-1)
static Z3_ast bToInt(Z3_ast a,unsigned wi,unsigned w,bool sg){
  FW f=fw(wi); unsigned n=std::max(std::max(w,f.m),f.e)+3;
  Z3_ast e=zx(ex(a,wi-2,f.m),f.e,n), s=sgn(a,wi); Z3_ast mant=Z3_mk_bvor(C,zx(ex(a,f.m-1,0),f.m,n),bvc((u128)1<<f.m,n));
  Z3_ast small=Z3_mk_bvult(C,e,bvc(f.bias,n)), big=Z3_mk_bvuge(C,e,bvc(f.bias+w+1,n));
  Z3_ast d=Z3_mk_bvsub(C,e,bvc(f.bias+f.m,n)); // exponent of the last mantissa bit; e-bias <= w, so a left shift stays inside n
  Z3_ast v=Z3_mk_ite(C,Z3_mk_bvsge(C,d,bvc(0,n)),Z3_mk_bvshl(C,mant,d),Z3_mk_bvlshr(C,mant,Z3_mk_bvneg(C,d)));
  v=Z3_mk_ite(C,small,bvc(0,n),v);
  Z3_ast ok, lim=bvc((u128)1<<(sg?w-1:w),n);
  if (sg) ok=Z3_mk_ite(C,s,Z3_mk_bvule(C,v,lim),Z3_mk_bvult(C,v,lim));
  else ok=Z3_mk_ite(C,s,Z3_mk_eq(C,v,bvc(0,n)),Z3_mk_bvult(C,v,lim));
  Z3_ast lo=ex(v,w-1,0); if (sg) lo=Z3_mk_ite(C,s,Z3_mk_bvneg(C,lo),lo);
  return Z3_mk_ite(C,an(nt(big),ok),lo,bvc((u128)1<<(w-1),w));
}
// integer (width wi) -> float (width w)
static Z3_ast bFromInt(Z3_ast a,unsigned wi,unsigned w,bool sg){
  FW f=fw(w); unsigned n=std::max(wi,f.m+3);
  Z3_ast s=sg? Z3_mk_eq(C,ex(a,wi-1,wi-1),bvc(1,1)) : Z3_mk_false(C);
  Z3_ast x=sg? Z3_mk_ite(C,s,Z3_mk_bvneg(C,a),a) : a, sh; x=norm(zx(x,wi,n),n,sh); // magnitude, top bit at n-1
  Z3_ast top=ex(x,n-1,n-1-f.m); unsigned r=n-1-f.m; // r dropped bits (>=2)
  Z3_ast rest=ex(x,r-1,0), hf=bvc((u128)1<<(r-1),r);
  Z3_ast inc=orr(Z3_mk_bvugt(C,rest,hf),an(Z3_mk_eq(C,rest,hf),Z3_mk_eq(C,ex(top,0,0),bvc(1,1))));
  unsigned k=std::max(n,w); Z3_ast eo=Z3_mk_bvsub(C,bvc(f.bias+n-1,k),zx(sh,n,k)); eo=ex(eo,f.e-1,0);
  Z3_ast body=Z3_mk_concat(C,eo,ex(top,f.m-1,0)); // exponent and mantissa; the increment carries into the exponent
  body=Z3_mk_ite(C,inc,Z3_mk_bvadd(C,body,bvc(1,w-1)),body);
  Z3_ast res=Z3_mk_concat(C,Z3_mk_ite(C,s,bvc(1,1),bvc(0,1)),body);
  return Z3_mk_ite(C,Z3_mk_eq(C,a,bvc(0,wi)),bvc(0,w),res);
}
static bool isFracPat(E e){ return e->op==O_FSUB && e->k[1]->op==O_FROUND && e->k[1]->aux==4 && e->k[1]->k[0]==e->k[0]; }
static std::unordered_map<E,bool> fpaMemo;
static bool needsFpa(E e) { // does the term contain floating point arithmetic that goes to the solver's own theory?
  if (!e->fp) return false; auto it=fpaMemo.find(e); if (it!=fpaMemo.end()) return it->second;
  bool r=false; switch (e->op) { case O_FADD: case O_FMUL: case O_FDIV: case O_FSQRT: case O_FPEXT: case O_FPTRUNC: r=true; break; case O_FSUB: r=!isFracPat(e); break; default: break; }
  for (E x: e->k) if (x && !r) r=needsFpa(x);
  return fpaMemo[e]=r;
}
static Z3_ast T(E e);
static Z3_ast toB(E e); // boolean
static Z3_ast fpT(E e) { // fp-sorted term
  unsigned w=e->w; Z3_sort so = w==64?F64:F32;
  switch (e->op) {
    case O_FADD: return Z3_mk_fpa_add(C,RNE,fpT(e->k[0]),fpT(e->k[1]));
    case O_FSUB: if (isFracPat(e)) break; return Z3_mk_fpa_sub(C,RNE,fpT(e->k[0]),fpT(e->k[1]));
    case O_FMUL: return Z3_mk_fpa_mul(C,RNE,fpT(e->k[0]),fpT(e->k[1]));
    case O_FDIV: return Z3_mk_fpa_div(C,RNE,fpT(e->k[0]),fpT(e->k[1]));
    case O_FSQRT: return Z3_mk_fpa_sqrt(C,RNE,fpT(e->k[0]));
    case O_FPEXT: case O_FPTRUNC: return Z3_mk_fpa_to_fp_float(C,RNE,fpT(e->k[0]),so);
    default: break;
  }
  return Z3_mk_fpa_to_fp_bv(C,T(e),so);
}
static Z3_ast fpBack(E e) {
  Z3_ast f=fpT(e); Z3_ast bv=Z3_mk_fpa_to_ieee_bv(C,f);
  return Z3_mk_ite(C,Z3_mk_fpa_is_nan(C,f),bvc(e->w==64?0x7ff8000000000000ull:0x7fc00000u,e->w),bv);
}
static Z3_ast build(E e) {
  unsigned w=e->w;
  switch (e->op) {
    case O_CONST: return bvc(e->c,w);
    case O_VAR: { if (varAst.size()<=e->aux) varAst.resize(e->aux+1,nullptr);
      char n[32]; snprintf(n,32,"v%u",e->aux); Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,n),Z3_mk_bv_sort(C,w)); Z3_inc_ref(C,a); varAst[e->aux]=a; return a; }
#define B(O,F) case O: return F(C,T(e->k[0]),T(e->k[1]));
    B(O_ADD,Z3_mk_bvadd) B(O_SUB,Z3_mk_bvsub) B(O_MUL,Z3_mk_bvmul) B(O_UDIV,Z3_mk_bvudiv) B(O_SDIV,Z3_mk_bvsdiv)
    B(O_UREM,Z3_mk_bvurem) B(O_SREM,Z3_mk_bvsrem) B(O_SHL,Z3_mk_bvshl)
    B(O_LSHR,Z3_mk_bvlshr) B(O_ASHR,Z3_mk_bvashr)
#undef B
    case O_AND: if (w==1) return b2v(toB(e)); return Z3_mk_bvand(C,T(e->k[0]),T(e->k[1]));
    case O_OR: if (w==1) return b2v(toB(e)); return Z3_mk_bvor(C,T(e->k[0]),T(e->k[1]));
    case O_XOR: if (w==1) return b2v(toB(e)); return Z3_mk_bvxor(C,T(e->k[0]),T(e->k[1]));
    case O_EQ: case O_ULT: case O_ULE: case O_SLT: case O_SLE: case O_FEQ: case O_FLT: case O_FLE: case O_FUNO: return b2v(toB(e));
    case O_CONCAT: return Z3_mk_concat(C,T(e->k[0]),T(e->k[1]));
    case O_EXTRACT: return Z3_mk_extract(C,e->aux+w-1,e->aux,T(e->k[0]));
    case O_ZEXT: return Z3_mk_zero_ext(C,w-e->k[0]->w,T(e->k[0]));
    case O_SEXT: return Z3_mk_sign_ext(C,w-e->k[0]->w,T(e->k[0]));
    case O_ITE: return Z3_mk_ite(C,toB(e->k[0]),T(e->k[1]),T(e->k[2]));
    case O_FPTOSI: return bToInt(T(e->k[0]),e->k[0]->w,w,true);
    case O_FPTOUI: return bToInt(T(e->k[0]),e->k[0]->w,w,false);
    case O_SITOFP: return bFromInt(T(e->k[0]),e->k[0]->w,w,true);
    case O_UITOFP: return bFromInt(T(e->k[0]),e->k[0]->w,w,false);
    case O_FROUND: return bRound(T(e->k[0]),e->aux,w);
    case O_FSUB: if (isFracPat(e)) return bFrac(T(e->k[0]),w); return fpBack(e);
    default: return fpBack(e);
  }
}
static Z3_ast T(E e) {
  if (e->id>=tr.size()) tr.resize(e->id+4096,nullptr);
  if (tr[e->id]) return tr[e->id];
  Z3_ast a=build(e); Z3_inc_ref(C,a); if (e->id>=tr.size()) tr.resize(e->id+4096,nullptr); tr[e->id]=a; return a;
}
static std::unordered_map<E,Z3_ast> bmemo;
static Z3_ast buildB(E e) {
  switch (e->op) {
    case O_CONST: return e->c ? Z3_mk_true(C) : Z3_mk_false(C);
    case O_AND: { Z3_ast a[2]={toB(e->k[0]),toB(e->k[1])}; return Z3_mk_and(C,2,a); }
    case O_OR: { Z3_ast a[2]={toB(e->k[0]),toB(e->k[1])}; return Z3_mk_or(C,2,a); }
    case O_XOR: if (isC(e->k[1])) return Z3_mk_not(C,toB(e->k[0])); return Z3_mk_xor(C,toB(e->k[0]),toB(e->k[1]));
    case O_EQ: return Z3_mk_eq(C,T(e->k[0]),T(e->k[1]));
    case O_ULT: return Z3_mk_bvult(C,T(e->k[0]),T(e->k[1]));
    case O_ULE: return Z3_mk_bvule(C,T(e->k[0]),T(e->k[1]));
    case O_SLT: return Z3_mk_bvslt(C,T(e->k[0]),T(e->k[1]));
    case O_SLE: return Z3_mk_bvsle(C,T(e->k[0]),T(e->k[1]));
    case O_FEQ: return bFeq(T(e->k[0]),T(e->k[1]),e->k[0]->w);
    case O_FLT: return bFlt(T(e->k[0]),T(e->k[1]),e->k[0]->w,false);
    case O_FLE: return bFlt(T(e->k[0]),T(e->k[1]),e->k[0]->w,true);
    case O_FUNO: return orr(isNan(T(e->k[0]),e->k[0]->w),isNan(T(e->k[1]),e->k[0]->w));
    case O_ITE: return Z3_mk_ite(C,toB(e->k[0]),toB(e->k[1]),toB(e->k[2]));
    default: return Z3_mk_eq(C,T(e),bvc(1,1));
  }
}
static Z3_ast toB(E e) { auto it=bmemo.find(e); if (it!=bmemo.end()) return it->second; Z3_ast a=buildB(e); Z3_inc_ref(C,a); bmemo[e]=a; return a; }

struct CR { Res r; std::vector<std::pair<u32,u128>> m; };
struct VH { size_t operator()(const std::vector<u32>& v) const { u64 h=1469598103934665603ull; for (u32 x:v) { h^=x; h*=1099511628211ull; } return h; } };
static std::unordered_map<std::vector<u32>,CR,VH> cache;

Res solve(const std::vector<E>& cs, E q, Model* m) {
  g_ss.queries++;
  if (isC(q) && !q->c) { g_ss.unsat++; return R_UNSAT; }
  // slice
  std::vector<E> sel; if (!isC(q)) sel.push_back(q);
  std::unordered_set<u32> vars(q->vs->v.begin(),q->vs->v.end());
  std::vector<char> used(cs.size(),0); bool ch=true;
  bool all = isC(q);
  while (ch) { ch=false;
    for (size_t i=0;i<cs.size();i++) if (!used[i]) {
      bool hit=all; if (!hit) for (u32 v: cs[i]->vs->v) if (vars.count(v)) { hit=true; break; }
      if (hit) { used[i]=1; sel.push_back(cs[i]); for (u32 v: cs[i]->vs->v) if (vars.insert(v).second) ch=true; }
    } }
  std::vector<u32> key; for (E e: sel) key.push_back(e->id); std::sort(key.begin(),key.end()); key.erase(std::unique(key.begin(),key.end()),key.end());
  auto it=cache.find(key);
  if (it==cache.end()) {
    bool fp=false; bool bvfp=false; for (E e: sel) { fp|=needsFpa(e); bvfp|=e->fp; }
    auto t0=std::chrono::steady_clock::now();
    Res r=R_UNKNOWN; CR cr; g_err=false;
    for (int tier=0; tier<2 && r==R_UNKNOWN; tier++) {
      Z3_solver s = tier==0 ? (fp? S_fp : bvfp ? S_bv : S_inc) : (fp||bvfp ? S_inc : S_bv);
      unsigned to = tier==0 ? (fp||bvfp ? g_timeout_ms : std::min(2000u,g_timeout_ms)) : g_timeout_ms;
      setTO(s,to);
      Z3_solver_push(C,s);
      for (E e: sel) Z3_solver_assert(C,s,toB(e));
      if (g_smtlog && tier==0) { fprintf(g_smtlog,"; query %llu\n%s(check-sat)\n",(unsigned long long)g_ss.queries,Z3_solver_to_string(C,s)); }
      Z3_lbool b=Z3_solver_check(C,s);
      if (b==Z3_L_FALSE && !g_err) r=R_UNSAT;
      else if (b==Z3_L_TRUE && !g_err) { r=R_SAT;
        Z3_model mo=Z3_solver_get_model(C,s); Z3_model_inc_ref(C,mo);
        for (u32 v: vars) { Z3_ast va = v<varAst.size()?varAst[v]:nullptr; if (!va) continue; Z3_ast o; u128 val=0;
          if (Z3_model_eval(C,mo,va,true,&o)) { std::string str=Z3_get_numeral_string(C,o); for (char ch: str) if (ch>='0'&&ch<='9') val=val*10+(ch-'0'); }
          cr.m.push_back({v,val}); }
        Z3_model_dec_ref(C,mo);
        // cross-check of the model with our own evaluator
        Model mm; if (!cr.m.empty()) { u32 mx=0; for (auto&p:cr.m) mx=std::max(mx,p.first); mm.resize(mx+1); for (auto&p:cr.m) mm[p.first]=p.second; }
        for (E e: sel) if (!evalExpr(e,mm)) { fprintf(stderr,"gcsym: model/evaluator mismatch on %s\n",exprStr(e,12).c_str()); r=R_UNKNOWN; cr.m.clear(); break; }
      }
      Z3_solver_pop(C,s,1);
    }
    double dt=std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count();
    g_ss.time+=dt; g_ss.maxTime=std::max(g_ss.maxTime,dt);
    cr.r=r; it=cache.emplace(key,std::move(cr)).first;
    if (getenv("GCSYM_QLOG")) fprintf(stderr,"Q %.4f r=%d n=%zu %s\n",dt,r,sel.size(),exprStr(q,5).c_str());
    if (getenv("GCSYM_SLOW") && dt>0.5) { fprintf(stderr,"slow query %.2fs r=%d n=%zu q=%s\n",dt,r,sel.size(),exprStr(q,8).c_str()); }
  } else g_ss.cacheHits++;
  Res r=it->second.r;
  if (r==R_SAT) { g_ss.sat++; if (m) for (auto&p: it->second.m) { if (m->size()<=p.first) m->resize(p.first+1); (*m)[p.first]=p.second; } }
  else if (r==R_UNSAT) g_ss.unsat++; else g_ss.unknown++;
  return r;
}

// proves every bit-vector lowering above equal to the solver's floating point theory
int solverSelftest() {
  int bad=0;
  auto prove=[&](const char* n, Z3_ast ne){ setTO(S_fp,600000); Z3_solver_push(C,S_fp); Z3_solver_assert(C,S_fp,ne); auto t0=std::chrono::steady_clock::now(); Z3_lbool b=Z3_solver_check(C,S_fp);
    printf("%-24s %s %.1fs\n",n,b==Z3_L_FALSE?"equal":b==Z3_L_TRUE?"DIFFERENT":"unknown",std::chrono::duration<double>(std::chrono::steady_clock::now()-t0).count()); fflush(stdout);
    if (b==Z3_L_TRUE) { bad++; Z3_model m=Z3_solver_get_model(C,S_fp); printf("%s\n",Z3_model_to_string(C,m)); } else if (b!=Z3_L_FALSE) bad++; Z3_solver_pop(C,S_fp,1); };
  for (unsigned w: {32u,64u}) { Z3_sort so=w==64?F64:F32, bs=Z3_mk_bv_sort(C,w);
    Z3_ast a=Z3_mk_const(C,Z3_mk_string_symbol(C,w==64?"a":"af"),bs), b=Z3_mk_const(C,Z3_mk_string_symbol(C,w==64?"b":"bf"),bs); Z3_ast fa=Z3_mk_fpa_to_fp_bv(C,a,so), fb=Z3_mk_fpa_to_fp_bv(C,b,so);
    auto ne=[&](Z3_ast x,Z3_ast y){ return nt(Z3_mk_eq(C,x,y)); };
    auto back=[&](Z3_ast f){ return Z3_mk_ite(C,Z3_mk_fpa_is_nan(C,f),cNan(w),Z3_mk_fpa_to_ieee_bv(C,f)); };
    prove("flt",ne(bFlt(a,b,w,false),Z3_mk_fpa_lt(C,fa,fb))); prove("fle",ne(bFlt(a,b,w,true),Z3_mk_fpa_leq(C,fa,fb))); prove("feq",ne(bFeq(a,b,w),Z3_mk_fpa_eq(C,fa,fb))); prove("nan",ne(isNan(a,w),Z3_mk_fpa_is_nan(C,fa)));
    Z3_ast rm[5]={RTN,RTP,RTZ,RNE,RNA}; const char* nm[5]={"floor","ceil","trunc","rne","rna"};
    for (int k=0;k<5;k++) prove(nm[k],ne(bRound(a,k,w),back(Z3_mk_fpa_round_to_integral(C,rm[k],fa))));
    prove("frac",ne(bFrac(a,w),back(Z3_mk_fpa_sub(C,RNE,fa,Z3_mk_fpa_round_to_integral(C,RNA,fa)))));
    for (unsigned wi: {8u,32u,64u}) { Z3_ast i=Z3_mk_const(C,Z3_mk_string_symbol(C,wi==8?"i8":wi==32?"i32":"i64"),Z3_mk_bv_sort(C,wi));
      prove("sitofp",ne(bFromInt(i,wi,w,true),back(Z3_mk_fpa_to_fp_signed(C,RNE,i,so)))); prove("uitofp",ne(bFromInt(i,wi,w,false),back(Z3_mk_fpa_to_fp_unsigned(C,RNE,i,so))));
      for (int sg=0;sg<2;sg++) { auto cD=[&](double d){ return w==64? Z3_mk_fpa_numeral_double(C,d,F64) : Z3_mk_fpa_numeral_float(C,(float)d,F32); }; double h=std::ldexp(1.0,sg?wi-1:wi); Z3_ast f=Z3_mk_fpa_round_to_integral(C,RTZ,fa);
        Z3_ast in=an(Z3_mk_fpa_geq(C,f,cD(sg?-h:0)),Z3_mk_fpa_lt(C,f,cD(h)));
        Z3_ast ref=Z3_mk_ite(C,in,sg?Z3_mk_fpa_to_sbv(C,RTZ,f,wi):Z3_mk_fpa_to_ubv(C,RTZ,f,wi),bvc((u128)1<<(wi-1),wi));
        prove(sg?"fptosi":"fptoui",ne(bToInt(a,w,wi,sg),ref)); } }
  }
  return bad;
}
