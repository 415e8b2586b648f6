#include "expr.hh"
#include <cfenv>

std::vector<VarInfo> g_vars;

namespace {
struct Key { Op op; unsigned short w; u32 aux; u128 c; E k[3]; };
struct KH { size_t operator()(const Key& a) const {
  u64 h = a.op*0x9E3779B97F4A7C15ull; auto mix=[&](u64 x){ h ^= x + 0x9E3779B97F4A7C15ull + (h<<6) + (h>>2); h*=0xff51afd7ed558ccdull; };
  mix(a.w); mix(a.aux); mix((u64)a.c); mix((u64)(a.c>>64)); for (auto e: a.k) mix((u64)e); return h; } };
struct KE { bool operator()(const Key& a, const Key& b) const {
  return a.op==b.op&&a.w==b.w&&a.aux==b.aux&&a.c==b.c&&a.k[0]==b.k[0]&&a.k[1]==b.k[1]&&a.k[2]==b.k[2]; } };
std::unordered_map<Key,E,KH,KE> tab;
u32 nextId = 0;
std::map<std::vector<u32>, VarSet*> vstab;
const VarSet* vsIntern(std::vector<u32> v) {
  auto it = vstab.find(v); if (it!=vstab.end()) return it->second;
  auto* s = new VarSet; s->v = v; s->id = vstab.size(); vstab[std::move(v)] = s; return s;
}
const VarSet* emptyVS() { static const VarSet* e = vsIntern({}); return e; }
std::unordered_map<u64,const VarSet*> vsMemo;
const VarSet* vsUnion(const VarSet* a, const VarSet* b) {
  if (a==b||b->v.empty()) return a; if (a->v.empty()) return b;
  u64 key = ((u64)std::min(a->id,b->id)<<32)|std::max(a->id,b->id);
  auto it = vsMemo.find(key); if (it!=vsMemo.end()) return it->second;
  std::vector<u32> r; std::set_union(a->v.begin(),a->v.end(),b->v.begin(),b->v.end(),std::back_inserter(r));
  return vsMemo[key] = vsIntern(r);
}
E mk(Op op, unsigned w, u32 aux, u128 c, E a, E b, E d) {
  Key k{op,(unsigned short)w,aux,c,{a,b,d}};
  auto it = tab.find(k); if (it!=tab.end()) return it->second;
  Expr* e = new Expr; e->op=op; e->w=w; e->id=nextId++; e->aux=aux; e->c=c; e->k[0]=a; e->k[1]=b; e->k[2]=d;
  e->fp = op >= O_FADD;
  const VarSet* vs = op==O_VAR ? vsIntern({aux}) : emptyVS();
  for (E x : {a,b,d}) if (x) { vs = vsUnion(vs, x->vs); e->fp |= x->fp; }
  e->vs = vs; tab[k]=e; return e;
}
i128 sx(u128 v, unsigned w) { v &= maskw(w); if (w>=128) return (i128)v; u128 s=(u128)1<<(w-1); return (i128)((v ^ s) - s) ; }
double asD(u128 v){ u64 x=(u64)v; double d; memcpy(&d,&x,8); return d; }
float asF(u128 v){ u32 x=(u32)v; float d; memcpy(&d,&x,4); return d; }
u128 fromD(double d){ if (d!=d) return 0x7ff8000000000000ull; u64 x; memcpy(&x,&d,8); return x; }
u128 fromF(float d){ if (d!=d) return 0x7fc00000u; u32 x; memcpy(&x,&d,4); return x; }

u128 foldBin(Op op, u128 a, u128 b, unsigned w, bool& ok) {
  u128 m = maskw(w); ok = true;
  switch (op) {
    case O_ADD: return (a+b)&m; case O_SUB: return (a-b)&m; case O_MUL: return (a*b)&m;
    case O_UDIV: if (!b) return m; return a/b;   // SMT-LIB semantics for /0 (engine checks /0 before)
    case O_UREM: if (!b) return a; return a%b;
    case O_SDIV: { if (!b) return sx(a,w)<0 ? 1 : m; i128 x=sx(a,w), y=sx(b,w); if (y==-1) return (u128)(-(u128)x)&m; return (u128)(x/y)&m; }
    case O_SREM: { if (!b) return a; i128 x=sx(a,w), y=sx(b,w); if (y==-1) return 0; return (u128)(x%y)&m; }
    case O_AND: return a&b; case O_OR: return a|b; case O_XOR: return a^b;
    case O_SHL: return b>=w?0:(a<<(unsigned)b)&m; case O_LSHR: return b>=w?0:a>>(unsigned)b;
    case O_ASHR: { unsigned s = b>=w? w-1 : (unsigned)b; return (u128)(sx(a,w)>>s)&m; }
    case O_EQ: return a==b; case O_ULT: return a<b; case O_ULE: return a<=b;
    case O_SLT: return sx(a,w)<sx(b,w); case O_SLE: return sx(a,w)<=sx(b,w);
    case O_FADD: return w==64? fromD(asD(a)+asD(b)) : fromF(asF(a)+asF(b));
    case O_FSUB: return w==64? fromD(asD(a)-asD(b)) : fromF(asF(a)-asF(b));
    case O_FMUL: return w==64? fromD(asD(a)*asD(b)) : fromF(asF(a)*asF(b));
    case O_FDIV: return w==64? fromD(asD(a)/asD(b)) : fromF(asF(a)/asF(b));
    case O_FEQ: return w==64? asD(a)==asD(b) : asF(a)==asF(b);
    case O_FLT: return w==64? asD(a)<asD(b) : asF(a)<asF(b);
    case O_FLE: return w==64? asD(a)<=asD(b) : asF(a)<=asF(b);
    case O_FUNO: return w==64? (asD(a)!=asD(a)||asD(b)!=asD(b)) : (asF(a)!=asF(a)||asF(b)!=asF(b));
    default: ok=false; return 0;
  }
}
u128 foldFp1(Op op, u128 a, unsigned wi, unsigned w, unsigned aux, bool& ok) {
  ok = true; u128 m = maskw(w);
  double d = wi==64 ? asD(a) : wi==32 ? asF(a) : 0;
  switch (op) {
    case O_FSQRT: return w==64? fromD(std::sqrt(d)) : fromF(std::sqrt((float)d));
    case O_FPEXT: return fromD(asF(a));
    case O_FPTRUNC: return fromF((float)d);
    case O_FPTOSI: { double lo = -std::ldexp(1.0,w-1), hi = std::ldexp(1.0,w-1); double t = std::trunc(d);
      if (!(t>=lo && t<hi)) return (u128)1<<(w-1); return (u128)(i128)t & m; }
    case O_FPTOUI: { double hi = std::ldexp(1.0,w); double t = std::trunc(d);
      if (!(t>=0 && t<hi)) return (u128)1<<(w-1); return (u128)t & m; }
    case O_SITOFP: { i128 x = sx(a,wi); return w==64 ? fromD((double)x) : fromF((float)x); }
    case O_UITOFP: return w==64 ? fromD((double)a) : fromF((float)a);
    case O_FROUND: { double r; switch(aux){case 0:r=std::floor(d);break;case 1:r=std::ceil(d);break;case 2:r=std::trunc(d);break;case 3:r=std::nearbyint(d);break;default:r=std::round(d);} return w==64?fromD(r):fromF((float)r); }
    default: ok=false; return 0;
  }
}
// pieces: LSB first list
void pieces(E e, std::vector<E>& out) {
  if (e->op==O_CONCAT) { pieces(e->k[1],out); pieces(e->k[0],out); }
  else if (e->op==O_ZEXT) { pieces(e->k[0],out); out.push_back(mkConst(0,e->w-e->k[0]->w)); }
  else out.push_back(e);
}
bool isCommut(Op o){ return o==O_ADD||o==O_MUL||o==O_AND||o==O_OR||o==O_XOR||o==O_EQ; }
E tryDisjointOr(E a, E b, bool isor) {
  auto shaped=[](E e){return e->op==O_CONCAT||e->op==O_ZEXT;};
  if (!shaped(a) && !shaped(b)) return nullptr;
  std::vector<E> pa,pb; pieces(a,pa); pieces(b,pb);
  if (pa.size()>20||pb.size()>20) return nullptr;
  std::vector<E> r; size_t i=0,j=0; unsigned oi=0,oj=0;
  while (i<pa.size()) {
    unsigned n = std::min(pa[i]->w-oi, pb[j]->w-oj);
    E x = mkExtract(pa[i],oi,n), y = mkExtract(pb[j],oj,n);
    if (isC(x)&&x->c==0) r.push_back(y); else if (isC(y)&&y->c==0) r.push_back(x);
    else if (isC(x)&&isC(y)&&(isor||!(x->c&y->c))) r.push_back(mkConst(x->c|y->c,n));
    else return nullptr;
    oi+=n; oj+=n; if (oi==pa[i]->w){i++;oi=0;} if (oj==pb[j]->w){j++;oj=0;}
  }
  E e = r[0]; for (size_t q=1;q<r.size();q++) e = mkConcat(r[q], e);
  return e;
}
}

size_t exprCount(){ return tab.size(); }
E mkConst(u128 v, unsigned w) { return mk(O_CONST,w,0,v&maskw(w),nullptr,nullptr,nullptr); }
E mkVar(const std::string& name, unsigned w, bool uninit) { g_vars.push_back({name,w,uninit}); return mk(O_VAR,w,(u32)g_vars.size()-1,0,nullptr,nullptr,nullptr); }
E mkNot(E a) { 
  if (isC(a)) return mkConst(!a->c,1);
  if (a->op==O_XOR && isC(a->k[1])) return a->k[0];
  return mk(O_XOR,1,0,0,a,mkConst(1,1),nullptr);
}
static bool isNot(E a){ return a->w==1 && a->op==O_XOR && isC(a->k[1]); }
E mkAndB(E a,E b){ return mkBin(O_AND,a,b); }
E mkOrB(E a,E b){ return mkBin(O_OR,a,b); }
E mkEq(E a,E b){ return mkBin(O_EQ,a,b); }

unsigned trailingZeros(E e) {
  switch (e->op) {
    case O_CONST: { if (!e->c) return e->w; unsigned n=0; while(!((e->c>>n)&1)) n++; return n; }
    case O_CONCAT: { unsigned n = trailingZeros(e->k[1]); return n==e->k[1]->w ? n+trailingZeros(e->k[0]) : n; }
    case O_ZEXT: case O_SEXT: { unsigned n=trailingZeros(e->k[0]); return n; }
    case O_ADD: case O_SUB: case O_OR: case O_XOR: return std::min(trailingZeros(e->k[0]),trailingZeros(e->k[1]));
    case O_MUL: return std::min<unsigned>(e->w, trailingZeros(e->k[0])+trailingZeros(e->k[1]));
    case O_ITE: return std::min(trailingZeros(e->k[1]),trailingZeros(e->k[2]));
    default: return 0;
  }
}

E mkBin(Op op, E a, E b) {
  unsigned w = a->w;
  bool cmp = op==O_EQ||op==O_ULT||op==O_ULE||op==O_SLT||op==O_SLE;
  if (isC(a)&&isC(b)) { bool ok; u128 r = foldBin(op,a->c,b->c,w,ok); if (ok) return mkConst(r, cmp?1:w); }
  if (isCommut(op) && (isC(a) || (!isC(b) && a->id > b->id))) std::swap(a,b);
  bool cb = isC(b);
  switch (op) {
    case O_ADD:
      if (cb && b->c==0) return a;
      if (cb && a->op==O_ADD && isC(a->k[1])) return mkBin(O_ADD,a->k[0],mkConst(a->k[1]->c+b->c,w));
      if (cb && a->op==O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0],mkBin(op,a->k[1],b),mkBin(op,a->k[2],b));
      if (w>1 && !cb) { if (E r = tryDisjointOr(a,b,false)) return r; }
      if (!cb && a->op==O_ADD && isC(a->k[1])) return mkBin(O_ADD,mkBin(O_ADD,a->k[0],b),a->k[1]);
      if (!cb && b->op==O_ADD && isC(b->k[1])) return mkBin(O_ADD,mkBin(O_ADD,a,b->k[0]),b->k[1]);
      break;
    case O_SUB:
      if (a==b) return mkConst(0,w);
      if (cb) return mkBin(O_ADD,a,mkConst(-b->c,w));
      break;
    case O_MUL:
      if (cb && b->c==0) return b; if (cb && b->c==1) return a;
      if (cb && (b->c & (b->c-1))==0) { unsigned n=trailingZeros(b); return mkBin(O_SHL,a,mkConst(n,w)); }
      break;
    case O_UDIV: if (cb && b->c==1) return a;
      if (cb && b->c && (b->c & (b->c-1))==0) return mkBin(O_LSHR,a,mkConst(trailingZeros(b),w)); break;
    case O_UREM: if (cb && b->c && (b->c & (b->c-1))==0) return mkBin(O_AND,a,mkConst(b->c-1,w)); break;
    case O_SDIV: if (cb && b->c==1) return a; break;
    case O_AND:
      if (a==b) return a;
      if (cb) {
        if (b->c==0) return b; if (b->c==maskw(w)) return a;
        if (a->op==O_AND && isC(a->k[1])) return mkBin(O_AND,a->k[0],mkConst(a->k[1]->c&b->c,w));
        // contiguous mask
        unsigned lo = trailingZeros(b); u128 t = b->c>>lo; 
        if ((t & (t+1))==0) { unsigned n=0; while (n<128 && ((t>>n)&1)) n++;
          E x = mkExtract(a,lo,n); if (lo) x = mkConcat(x,mkConst(0,lo)); return mkZExt(x,w); }
        if (a->op==O_CONCAT) return mkConcat(mkBin(O_AND,a->k[0],mkConst(b->c>>a->k[1]->w,a->k[0]->w)), mkBin(O_AND,a->k[1],mkConst(b->c,a->k[1]->w)));
        if (a->op==O_ZEXT) return mkZExt(mkBin(O_AND,a->k[0],mkConst(b->c,a->k[0]->w)),w);
      }
      if (w==1) { if (mkNot(a)==b) return mkConst(0,1);
        if (a->op==O_AND && (a->k[0]==b||a->k[1]==b)) return a; if (b->op==O_AND && (b->k[0]==a||b->k[1]==a)) return b; }
      break;
    case O_OR:
      if (a==b) return a;
      if (cb) { if (b->c==0) return a; if (b->c==maskw(w)) return b; }
      if (w>1) { if (E r = tryDisjointOr(a,b,true)) return r; }
      if (w==1) { if (mkNot(a)==b) return mkConst(1,1); 
        if (a->op==O_OR && (a->k[0]==b||a->k[1]==b)) return a; if (b->op==O_OR && (b->k[0]==a||b->k[1]==a)) return b; }
      break;
    case O_XOR:
      if (a==b) return mkConst(0,w);
      if (cb) { if (b->c==0) return a; if (w==1) return mkNot(a);
        if (a->op==O_XOR && isC(a->k[1])) return mkBin(O_XOR,a->k[0],mkConst(a->k[1]->c^b->c,w));
        // sign-bit flips stay as they are
      }
      if (w>1 && !cb) { if (E r = tryDisjointOr(a,b,false)) return r; }
      break;
    case O_SHL:
      if (cb) { if (b->c==0) return a; if (b->c>=w) return mkConst(0,w); unsigned s=(unsigned)b->c; return mkConcat(mkExtract(a,0,w-s),mkConst(0,s)); } break;
    case O_LSHR:
      if (cb) { if (b->c==0) return a; if (b->c>=w) return mkConst(0,w); unsigned s=(unsigned)b->c; return mkZExt(mkExtract(a,s,w-s),w); } break;
    case O_ASHR:
      if (cb) { if (b->c==0) return a; unsigned s= b->c>=w ? w-1 : (unsigned)b->c; return mkSExt(mkExtract(a,s,w-s),w); } break;
    case O_EQ:
      if (a==b) return mkConst(1,1);
      if (w==1) { if (cb) return b->c ? a : mkNot(a); if (mkNot(a)==b) return mkConst(0,1); if (isNot(a)) return mkNot(mkEq(a->k[0],b)); if (isNot(b)) return mkNot(mkEq(a,b->k[0])); }
      if (cb) {
        if (a->op==O_ZEXT) { unsigned n=a->k[0]->w; if (b->c>>n) return mkConst(0,1); return mkEq(a->k[0],mkConst(b->c,n)); }
        if (a->op==O_SEXT) { unsigned n=a->k[0]->w; if (((u128)sx(b->c,n)&maskw(w))!=b->c) return mkConst(0,1); return mkEq(a->k[0],mkConst(b->c,n)); }
        if (a->op==O_CONCAT) { unsigned n=a->k[1]->w; E l = mkEq(a->k[1],mkConst(b->c,n)); if (isC(l)&&!l->c) return l; E h = mkEq(a->k[0],mkConst(b->c>>n,w-n)); return mkAndB(h,l); }
        if (a->op==O_ADD && isC(a->k[1])) return mkEq(a->k[0],mkConst(b->c-a->k[1]->c,w));
        if (a->op==O_XOR && isC(a->k[1])) return mkEq(a->k[0],mkConst(b->c^a->k[1]->c,w));
        if (a->op==O_ITE) { 
          bool c1=isC(a->k[1]), c2=isC(a->k[2]);
          if (c1&&c2) { bool e1=a->k[1]->c==b->c, e2=a->k[2]->c==b->c; return e1? (e2?mkConst(1,1):a->k[0]) : (e2?mkNot(a->k[0]):mkConst(0,1)); }
          if (c1) { E r=mkEq(a->k[2],b); return a->k[1]->c==b->c ? mkOrB(a->k[0],r) : mkAndB(mkNot(a->k[0]),r); }
          if (c2) { E r=mkEq(a->k[1],b); return a->k[2]->c==b->c ? mkOrB(mkNot(a->k[0]),r) : mkAndB(a->k[0],r); }
        }
      }
      if (a->op==O_ZEXT && b->op==O_ZEXT && a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
      if (a->op==O_SEXT && b->op==O_SEXT && a->k[0]->w==b->k[0]->w) return mkEq(a->k[0],b->k[0]);
      if (a->op==O_CONCAT && b->op==O_CONCAT && a->k[1]->w==b->k[1]->w) return mkAndB(mkEq(a->k[0],b->k[0]),mkEq(a->k[1],b->k[1]));
      if (a->op==O_ADD && isC(a->k[1]) && a->k[0]==b) return mkConst(0,1);
      if (b->op==O_ADD && isC(b->k[1]) && b->k[0]==a) return mkConst(0,1);
      break;
    case O_ULT:
      if (a==b) return mkConst(0,1);
      if (cb && b->c==0) return mkConst(0,1); if (cb && b->c==1) return mkEq(a,mkConst(0,w));
      if (isC(a) && a->c==maskw(w)) return mkConst(0,1);
      if (isC(a) && a->c==0) return mkNot(mkEq(b,a));
      if (w==1) return mkAndB(mkNot(a),b);
      if (a->op==O_ZEXT) { unsigned n=a->k[0]->w; if (cb) { if (b->c>maskw(n)) return mkConst(1,1); return mkBin(op,a->k[0],mkConst(b->c,n)); } if (b->op==O_ZEXT && b->k[0]->w==n) return mkBin(op,a->k[0],b->k[0]); }
      if (isC(a) && b->op==O_ZEXT) { unsigned n=b->k[0]->w; if (a->c>=maskw(n)) return mkConst(0,1); return mkBin(op,mkConst(a->c,n),b->k[0]); }
      break;
    case O_ULE:
      if (a==b) return mkConst(1,1);
      return mkNot(mkBin(O_ULT,b,a));
    case O_SLT:
      if (a==b) return mkConst(0,1);
      if (w==1) return mkAndB(a,mkNot(b));
      if (a->op==O_ZEXT && (b->op==O_ZEXT || (cb && !(b->c>>(w-1))))) return mkBin(O_ULT,a,b);
      if (a->op==O_ZEXT && cb && (b->c>>(w-1))) return mkConst(0,1);
      if (isC(a) && b->op==O_ZEXT) { if (a->c>>(w-1)) return mkConst(1,1); return mkBin(O_ULT,a,b); }
      if (a->op==O_SEXT && b->op==O_SEXT && a->k[0]->w==b->k[0]->w) return mkBin(op,a->k[0],b->k[0]);
      if (a->op==O_SEXT && cb) { unsigned n=a->k[0]->w; if (((u128)sx(b->c,n)&maskw(w))==b->c) return mkBin(op,a->k[0],mkConst(b->c,n)); return mkConst(!(b->c>>(w-1)),1); }
      if (isC(a) && b->op==O_SEXT) { unsigned n=b->k[0]->w; if (((u128)sx(a->c,n)&maskw(w))==a->c) return mkBin(op,mkConst(a->c,n),b->k[0]); return mkConst((a->c>>(w-1))&1,1); }
      break;
    case O_SLE:
      if (a==b) return mkConst(1,1);
      return mkNot(mkBin(O_SLT,b,a));
    default: break;
  }
  return mk(op, cmp?1:w, 0,0,a,b,nullptr);
}

E mkExtract(E a, unsigned lo, unsigned w) {
  if (lo==0 && w==a->w) return a;
  switch (a->op) {
    case O_CONST: return mkConst(a->c>>lo,w);
    case O_EXTRACT: return mkExtract(a->k[0],a->aux+lo,w);
    case O_CONCAT: { unsigned n=a->k[1]->w; if (lo+w<=n) return mkExtract(a->k[1],lo,w); if (lo>=n) return mkExtract(a->k[0],lo-n,w);
      return mkConcat(mkExtract(a->k[0],0,lo+w-n),mkExtract(a->k[1],lo,n-lo)); }
    case O_ZEXT: { unsigned n=a->k[0]->w; if (lo>=n) return mkConst(0,w); if (lo+w<=n) return mkExtract(a->k[0],lo,w); return mkZExt(mkExtract(a->k[0],lo,n-lo),w); }
    case O_SEXT: { unsigned n=a->k[0]->w; if (lo+w<=n) return mkExtract(a->k[0],lo,w); if (lo<n) return mkSExt(mkExtract(a->k[0],lo,n-lo),w); break; }
    case O_ITE: if (isC(a->k[1])||isC(a->k[2])) return mkIte(a->k[0],mkExtract(a->k[1],lo,w),mkExtract(a->k[2],lo,w)); break;
    case O_AND: case O_OR: case O_XOR: return mkBin(a->op,mkExtract(a->k[0],lo,w),mkExtract(a->k[1],lo,w));
    case O_ADD: case O_SUB: case O_MUL: if (lo==0 && w>=8) return mkBin(a->op,mkExtract(a->k[0],0,w),mkExtract(a->k[1],0,w)); break;
    default: break;
  }
  return mk(O_EXTRACT,w,lo,0,a,nullptr,nullptr);
}
E mkConcat(E hi, E lo) {
  unsigned w = hi->w+lo->w;
  if (w>128) { fprintf(stderr,"concat too wide\n"); abort(); }
  if (isC(hi)&&isC(lo)) return mkConst((hi->c<<lo->w)|lo->c,w);
  if (isC(hi)&&hi->c==0) return mkZExt(lo,w);
  if (hi->op==O_ZEXT) return mkZExt(mkConcat(hi->k[0],lo),w);
  auto base=[](E e,E&b,unsigned&o){ if (e->op==O_EXTRACT){b=e->k[0];o=e->aux;} else {b=e;o=0;} };
  E hb,lb; unsigned ho,lo_; base(hi,hb,ho); base(lo,lb,lo_);
  if (hb==lb && hi->op==O_EXTRACT && ho==lo_+lo->w) return mkExtract(hb,lo_,w);
  if (hi->op==O_EXTRACT && ho==lo->w && (hb->op==O_ADD||hb->op==O_SUB||hb->op==O_MUL) && mkExtract(hb,0,lo->w)==lo) return mkExtract(hb,0,w); // low part was narrowed
  if (lo->op==O_CONCAT) { E mid=lo->k[0]; E mb; unsigned mo; base(mid,mb,mo); if (mb==hb && hi->op==O_EXTRACT && ho==mo+mid->w) return mkConcat(mkExtract(hb,mo,hi->w+mid->w),lo->k[1]); 
     if (isC(hi)&&isC(mid)) return mkConcat(mkConcat(hi,mid),lo->k[1]); }
  if (hi->op==O_CONCAT) return mkConcat(hi->k[0],mkConcat(hi->k[1],lo)); // right-assoc
  if (hi->op==O_ITE && lo->op==O_ITE && hi->k[0]==lo->k[0]) return mkIte(hi->k[0],mkConcat(hi->k[1],lo->k[1]),mkConcat(hi->k[2],lo->k[2]));
  if (hi->op==O_EXTRACT && lo->op==O_ITE) {}
  return mk(O_CONCAT,w,0,0,hi,lo,nullptr);
}
E mkZExt(E a, unsigned w) {
  if (w==a->w) return a;
  if (isC(a)) return mkConst(a->c,w);
  if (a->op==O_ZEXT) return mkZExt(a->k[0],w);
  if (a->op==O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0],mkConst(a->k[1]->c,w),mkConst(a->k[2]->c,w));
  return mk(O_ZEXT,w,0,0,a,nullptr,nullptr);
}
E mkSExt(E a, unsigned w) {
  if (w==a->w) return a;
  if (isC(a)) return mkConst((u128)sx(a->c,a->w),w);
  if (a->op==O_SEXT) return mkSExt(a->k[0],w);
  if (a->op==O_ZEXT) return mkZExt(a->k[0],w);
  if (a->op==O_ITE && isC(a->k[1]) && isC(a->k[2])) return mkIte(a->k[0],mkSExt(a->k[1],w),mkSExt(a->k[2],w));
  return mk(O_SEXT,w,0,0,a,nullptr,nullptr);
}
E mkIte(E c, E a, E b) {
  if (isC(c)) return c->c ? a : b;
  if (a==b) return a;
  if (isNot(c)) return mkIte(c->k[0],b,a);
  if (a->w==1) {
    if (isC(a)&&isC(b)) return a->c ? c : mkNot(c);
    if (isC(a)) return a->c ? mkOrB(c,b) : mkAndB(mkNot(c),b);
    if (isC(b)) return b->c ? mkOrB(mkNot(c),a) : mkAndB(c,a);
  }
  if (a->op==O_ITE && a->k[0]==c) return mkIte(c,a->k[1],b);
  if (b->op==O_ITE && b->k[0]==c) return mkIte(c,a,b->k[2]);
  if (b->op==O_ITE && b->k[1]==a) return mkIte(mkOrB(c,b->k[0]),a,b->k[2]);
  return mk(O_ITE,a->w,0,0,c,a,b);
}
E mkFp1(Op op, E a, unsigned w, unsigned aux) {
  if (isC(a)) { bool ok; u128 r=foldFp1(op,a->c,a->w,w,aux,ok); if (ok) return mkConst(r,w); }
  return mk(op,w,aux,0,a,nullptr,nullptr);
}
E mkFp2(Op op, E a, E b) {
  bool cmp = op==O_FEQ||op==O_FLT||op==O_FLE||op==O_FUNO;
  if (isC(a)&&isC(b)) { bool ok; u128 r=foldBin(op,a->c,b->c,a->w,ok); if (ok) return mkConst(r,cmp?1:a->w); }
  if (op==O_FUNO) { // split: uno(a,b) = nan(a) | nan(b), as bit tests
    auto nan=[&](E x)->E{ unsigned w=x->w; u128 m = w==64? 0x7fffffffffffffffull : 0x7fffffffu; u128 inf = w==64? 0x7ff0000000000000ull : 0x7f800000u;
      if (x->op==O_SITOFP||x->op==O_UITOFP) return mkConst(0,1);
      return mkBin(O_ULT,mkConst(inf&m,w-1),mkExtract(x,0,w-1)); };
    if (a==b || isC(b)) { if (isC(b)&&b!=a) { bool nb; u128 r=foldBin(O_FUNO,b->c,b->c,b->w,nb); if (r) return mkConst(1,1);} return nan(a); }
    if (isC(a)) return mkFp2(op,b,a);
    return mkOrB(nan(a),nan(b));
  }
  return mk(op,cmp?1:a->w,0,0,a,b,nullptr);
}

namespace { 
std::vector<u32> stamp; std::vector<u128> memo; u32 cur=0;
u128 ev(E e, const Model& m) {
  if (e->op==O_CONST) return e->c;
  if (e->op==O_VAR) return e->aux<m.size()? m[e->aux]&maskw(e->w) : 0;
  if (e->id>=stamp.size()) { stamp.resize(nextId+1024); memo.resize(nextId+1024); }
  if (stamp[e->id]==cur) return memo[e->id];
  u128 r; bool ok=true;
  switch (e->op) {
    case O_CONCAT: r = (ev(e->k[0],m)<<e->k[1]->w)|ev(e->k[1],m); break;
    case O_EXTRACT: r = (ev(e->k[0],m)>>e->aux)&maskw(e->w); break;
    case O_ZEXT: r = ev(e->k[0],m); break;
    case O_SEXT: r = (u128)sx(ev(e->k[0],m),e->k[0]->w)&maskw(e->w); break;
    case O_ITE: r = ev(e->k[0],m) ? ev(e->k[1],m) : ev(e->k[2],m); break;
    case O_FSQRT: case O_FPEXT: case O_FPTRUNC: case O_FPTOSI: case O_FPTOUI: case O_SITOFP: case O_UITOFP: case O_FROUND:
      r = foldFp1(e->op,ev(e->k[0],m),e->k[0]->w,e->w,e->aux,ok); break;
    default: { u128 a = ev(e->k[0],m), b = ev(e->k[1],m); r = foldBin(e->op,a,b,e->k[0]->w,ok); }
  }
  if (!ok) { fprintf(stderr,"eval: bad op %d\n",e->op); abort(); }
  stamp[e->id]=cur; memo[e->id]=r; return r;
}
}
u128 evalExpr(E e, const Model& m) { if (isC(e)) return e->c; cur++; return ev(e,m); }

std::string exprStr(E e, int d) {
  static const char* N[] = {"const","var","add","sub","mul","udiv","sdiv","urem","srem","and","or","xor","shl","lshr","ashr","eq","ult","ule","slt","sle","concat","extract","zext","sext","ite","fadd","fsub","fmul","fdiv","fsqrt","feq","flt","fle","funo","fpext","fptrunc","fptosi","fptoui","sitofp","uitofp","fround"};
  char buf[64];
  if (isC(e)) { snprintf(buf,64,"0x%llx:%u",(unsigned long long)e->c,e->w); return buf; }
  if (e->op==O_VAR) return g_vars[e->aux].name;
  if (d<=0) return "...";
  std::string s = std::string("(")+N[e->op];
  if (e->op==O_EXTRACT||e->op==O_FROUND) { snprintf(buf,64,"[%u+%u]",e->aux,e->w); s+=buf; }
  for (int i=0;i<3;i++) if (e->k[i]) s += " "+exprStr(e->k[i],d-1);
  return s+")";
}
