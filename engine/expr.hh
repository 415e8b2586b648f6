// Hash-consed bit-vector expression layer of gcsym.
#pragma once
#include <cstdint>
#include <string>
#include <vector>
#include <unordered_map>
#include <unordered_set>
#include <map>
#include <memory>
#include <cmath>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <algorithm>

typedef unsigned __int128 u128;
typedef __int128 i128;
typedef uint64_t u64;
typedef uint32_t u32;
typedef uint8_t u8;

enum Op : u8 {
  O_CONST, O_VAR,
  O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM,
  O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_EQ, O_ULT, O_ULE, O_SLT, O_SLE,
  O_CONCAT, O_EXTRACT, O_ZEXT, O_SEXT, O_ITE,
  O_FADD, O_FSUB, O_FMUL, O_FDIV, O_FSQRT,
  O_FEQ, O_FLT, O_FLE, O_FUNO,
  O_FPEXT, O_FPTRUNC, O_FPTOSI, O_FPTOUI, O_SITOFP, O_UITOFP,
  O_FROUND // aux: 0 floor 1 ceil 2 trunc 3 rint(RNE) 4 round(RNA)
};

struct VarSet { std::vector<u32> v; u32 id; };

struct Expr {
  Op op; bool fp; unsigned short w; u32 id; u32 aux;
  u128 c;
  const Expr* k[3];
  const VarSet* vs;
};
typedef const Expr* E;

static inline u128 maskw(unsigned w) { return w >= 128 ? ~(u128)0 : (((u128)1 << w) - 1); }

struct VarInfo { std::string name; unsigned w; bool uninit; };
extern std::vector<VarInfo> g_vars;

E mkConst(u128 v, unsigned w);
E mkVar(const std::string& name, unsigned w, bool uninit=false);
E mkBin(Op op, E a, E b);
E mkNot(E a);             // width 1
E mkEq(E a, E b);
E mkExtract(E a, unsigned lo, unsigned w);
E mkConcat(E hi, E lo);
E mkZExt(E a, unsigned w);
E mkSExt(E a, unsigned w);
E mkIte(E c, E a, E b);
E mkFp1(Op op, E a, unsigned w, unsigned aux=0);
E mkFp2(Op op, E a, E b);
E mkAndB(E a, E b);
E mkOrB(E a, E b);
size_t exprCount();
std::string exprStr(E e, int depth=4);

typedef std::vector<u128> Model;            // index: var id (missing => 0)
u128 evalExpr(E e, const Model& m);

static inline bool isC(E e) { return e->op == O_CONST; }
unsigned trailingZeros(E e);
