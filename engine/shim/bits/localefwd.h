#pragma once
namespace std { class locale; 
  struct ctype_base { typedef unsigned short mask; static constexpr mask upper=1,lower=2,alpha=4,digit=8,xdigit=16,space=32,print=64,graph=12|128,cntrl=256,punct=512,alnum=12,blank=1024; };
  template<class C> class ctype : public ctype_base { public: bool is(mask m, C c) const { int k=(unsigned char)c; if ((m&space)&&(k==32||(k>=9&&k<=13))) return true; if ((m&digit)&&k>='0'&&k<='9') return true; if ((m&upper)&&k>='A'&&k<='Z') return true; if ((m&lower)&&k>='a'&&k<='z') return true; if ((m&alpha)&&((k>='A'&&k<='Z')||(k>='a'&&k<='z'))) return true; return false; } C tolower(C c) const { return c>='A'&&c<='Z'?c+32:c; } C toupper(C c) const { return c>='a'&&c<='z'?c-32:c; } C widen(char c) const { return (C)c; } char narrow(C c,char) const { return (char)c; } };
  template<class F> const F& use_facet(const locale&) { static F f; return f; }
  template<class F> bool has_facet(const locale&) noexcept { return true; }
}
