// Models of the non-template part of libstdc++/libc that the encoded code calls.
// Compiled to bitcode together with /repo, only for gcsym.
#include <stdexcept>
#include <new>
#include <string>
#include <system_error>
#include <typeinfo>
#include <map>
#include <list>
#include <unordered_map>
#include <iostream>
#include <cstdarg>
#include <cstring>
#include <optional>
#include <variant>
#include <functional>
#include <charconv>

namespace std {
  exception::~exception() noexcept {}
  const char* exception::what() const noexcept { return "std::exception"; }
  bad_exception::~bad_exception() noexcept {} const char* bad_exception::what() const noexcept { return "std::bad_exception"; }
  bad_alloc::~bad_alloc() noexcept {} const char* bad_alloc::what() const noexcept { return "std::bad_alloc"; }
  bad_array_new_length::~bad_array_new_length() noexcept {} const char* bad_array_new_length::what() const noexcept { return "std::bad_array_new_length"; }
  bad_cast::~bad_cast() noexcept {} const char* bad_cast::what() const noexcept { return "std::bad_cast"; }
  bad_typeid::~bad_typeid() noexcept {} const char* bad_typeid::what() const noexcept { return "std::bad_typeid"; }
  bad_function_call::~bad_function_call() noexcept {} const char* bad_function_call::what() const noexcept { return "bad_function_call"; }
  type_info::~type_info() {}

  // the message of logic_error/runtime_error: one heap copy (strdup-like), shared by copies through a count
  static char* gcm_dup(const char* s, size_t n) { char* r=(char*)malloc(n+9); *(long*)r=1; memcpy(r+8,s,n); r[8+n]=0; return r; }
  static char* gcm_share(char* r) { if (r) ++*(long*)r; return r; }
  static void gcm_drop(char* r) { if (r && --*(long*)r==0) free(r); }
  __cow_string::__cow_string() { _M_p=nullptr; }
  __cow_string::__cow_string(const string& s) { _M_p=gcm_dup(s.data(),s.size()); }
  __cow_string::__cow_string(const char* s, size_t n) { _M_p=gcm_dup(s,n); }
  __cow_string::__cow_string(const __cow_string& o) noexcept { _M_p=gcm_share((char*)o._M_p); }
  __cow_string& __cow_string::operator=(const __cow_string& o) noexcept { char* p=gcm_share((char*)o._M_p); gcm_drop((char*)_M_p); _M_p=p; return *this; }
  __cow_string::~__cow_string() { gcm_drop((char*)_M_p); }
  __cow_string::__cow_string(__cow_string&& o) noexcept { _M_p=o._M_p; o._M_p=nullptr; }
  __cow_string& __cow_string::operator=(__cow_string&& o) noexcept { const char* t=_M_p; _M_p=o._M_p; o._M_p=t; return *this; }
  static const char* gcm_str(const __cow_string& c) { const char* p=*(const char* const*)&c; return p? p+8 : ""; }

  logic_error::logic_error(const string& s) : _M_msg(s) {} logic_error::logic_error(const char* s) : _M_msg(s,strlen(s)) {}
  logic_error::logic_error(const logic_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} logic_error& logic_error::operator=(const logic_error& o) noexcept { _M_msg=o._M_msg; return *this; }
  logic_error::logic_error(logic_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {} logic_error& logic_error::operator=(logic_error&& o) noexcept { _M_msg=std::move(o._M_msg); return *this; }
  logic_error::~logic_error() noexcept {} const char* logic_error::what() const noexcept { return gcm_str(_M_msg); }
  runtime_error::runtime_error(const string& s) : _M_msg(s) {} runtime_error::runtime_error(const char* s) : _M_msg(s,strlen(s)) {}
  runtime_error::runtime_error(const runtime_error& o) noexcept : exception(o), _M_msg(o._M_msg) {} runtime_error& runtime_error::operator=(const runtime_error& o) noexcept { _M_msg=o._M_msg; return *this; }
  runtime_error::runtime_error(runtime_error&& o) noexcept : exception(o), _M_msg(std::move(o._M_msg)) {} runtime_error& runtime_error::operator=(runtime_error&& o) noexcept { _M_msg=std::move(o._M_msg); return *this; }
  runtime_error::~runtime_error() noexcept {} const char* runtime_error::what() const noexcept { return gcm_str(_M_msg); }
#define GCM(N,B) N::N(const string& s) : B(s) {} N::N(const char* s) : B(s) {} N::~N() noexcept {}
  GCM(domain_error,logic_error) GCM(invalid_argument,logic_error) GCM(length_error,logic_error) GCM(out_of_range,logic_error) GCM(range_error,runtime_error) GCM(overflow_error,runtime_error) GCM(underflow_error,runtime_error)
#undef GCM
  void __throw_bad_exception() { throw bad_exception(); } void __throw_bad_alloc() { throw bad_alloc(); } void __throw_bad_array_new_length() { throw bad_array_new_length(); } void __throw_bad_cast() { throw bad_cast(); } void __throw_bad_typeid() { throw bad_typeid(); } void __throw_logic_error(const char* s) { throw logic_error(s); } void __throw_domain_error(const char* s) { throw domain_error(s); } void __throw_invalid_argument(const char* s) { throw invalid_argument(s); } void __throw_length_error(const char* s) { throw length_error(s); } void __throw_out_of_range(const char* s) { throw out_of_range(s); } void __throw_out_of_range_fmt(const char* s, ...) { throw out_of_range(s); } void __throw_runtime_error(const char* s) { throw runtime_error(s); } void __throw_range_error(const char* s) { throw range_error(s); } void __throw_overflow_error(const char* s) { throw overflow_error(s); } void __throw_underflow_error(const char* s) { throw underflow_error(s); } void __throw_bad_function_call() { throw bad_function_call(); } void __throw_ios_failure(const char* s) { throw runtime_error(s); } void __throw_system_error(int) { throw runtime_error("system_error"); }

  // error categories: only what the shim's ios_base::failure needs
  struct gcm_cat : error_category { const char* name() const noexcept override { return "generic"; } string message(int) const override { return "error"; } };
  error_category::~error_category() {} error_condition error_category::default_error_condition(int i) const noexcept { return error_condition(i,*this); } bool error_category::equivalent(int i, const error_condition& c) const noexcept { return default_error_condition(i)==c; } bool error_category::equivalent(const error_code& c, int i) const noexcept { return *this==c.category() && c.value()==i; }
  __cow_string error_category::_M_message(int) const { return __cow_string(); }
  namespace _V2 { const error_category& system_category() noexcept { static gcm_cat c; return c; } const error_category& generic_category() noexcept { static gcm_cat c; return c; } }
  system_error::~system_error() noexcept {}

  // red-black trees: same interface, unbalanced-but-correct ordering is not enough for erase(), so a faithful port
  static bool R(_Rb_tree_node_base* n) { return n->_M_color==_S_red; }
  static void rl(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* y=x->_M_right; x->_M_right=y->_M_left; if (y->_M_left) y->_M_left->_M_parent=x; y->_M_parent=x->_M_parent; if (x==root) root=y; else if (x==x->_M_parent->_M_left) x->_M_parent->_M_left=y; else x->_M_parent->_M_right=y; y->_M_left=x; x->_M_parent=y; }
  static void rr(_Rb_tree_node_base* const x, _Rb_tree_node_base*& root) { _Rb_tree_node_base* y=x->_M_left; x->_M_left=y->_M_right; if (y->_M_right) y->_M_right->_M_parent=x; y->_M_parent=x->_M_parent; if (x==root) root=y; else if (x==x->_M_parent->_M_right) x->_M_parent->_M_right=y; else x->_M_parent->_M_left=y; y->_M_right=x; x->_M_parent=y; }
  _Rb_tree_node_base* _Rb_tree_increment(_Rb_tree_node_base* x) noexcept { if (x->_M_right) { x=x->_M_right; while (x->_M_left) x=x->_M_left; } else { auto y=x->_M_parent; while (x==y->_M_right) { x=y; y=y->_M_parent; } if (x->_M_right!=y) x=y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_increment(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_increment(const_cast<_Rb_tree_node_base*>(x)); }
  _Rb_tree_node_base* _Rb_tree_decrement(_Rb_tree_node_base* x) noexcept { if (R(x) && x->_M_parent->_M_parent==x) x=x->_M_right; else if (x->_M_left) { auto y=x->_M_left; while (y->_M_right) y=y->_M_right; x=y; } else { auto y=x->_M_parent; while (x==y->_M_left) { x=y; y=y->_M_parent; } x=y; } return x; }
  const _Rb_tree_node_base* _Rb_tree_decrement(const _Rb_tree_node_base* x) noexcept { return _Rb_tree_decrement(const_cast<_Rb_tree_node_base*>(x)); }
  void _Rb_tree_insert_and_rebalance(const bool left, _Rb_tree_node_base* x, _Rb_tree_node_base* p, _Rb_tree_node_base& h) noexcept {
    _Rb_tree_node_base*& root=h._M_parent; x->_M_parent=p; x->_M_left=x->_M_right=nullptr; x->_M_color=_S_red;
    if (left) { p->_M_left=x; if (p==&h) { h._M_parent=x; h._M_right=x; } else if (p==h._M_left) h._M_left=x; } else { p->_M_right=x; if (p==h._M_right) h._M_right=x; }
    while (x!=root && R(x->_M_parent)) { auto xpp=x->_M_parent->_M_parent; if (x->_M_parent==xpp->_M_left) { auto y=xpp->_M_right; if (y && R(y)) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if (x==x->_M_parent->_M_right) { x=x->_M_parent; rl(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rr(xpp,root); } } else { auto y=xpp->_M_left; if (y && R(y)) { x->_M_parent->_M_color=_S_black; y->_M_color=_S_black; xpp->_M_color=_S_red; x=xpp; } else { if (x==x->_M_parent->_M_left) { x=x->_M_parent; rr(x,root); } x->_M_parent->_M_color=_S_black; xpp->_M_color=_S_red; rl(xpp,root); } } }
    root->_M_color=_S_black; }
  _Rb_tree_node_base* _Rb_tree_rebalance_for_erase(_Rb_tree_node_base* const z, _Rb_tree_node_base& h) noexcept {
    _Rb_tree_node_base*& root=h._M_parent; _Rb_tree_node_base*& leftmost=h._M_left; _Rb_tree_node_base*& rightmost=h._M_right; _Rb_tree_node_base* y=z; _Rb_tree_node_base* x=nullptr; _Rb_tree_node_base* xp=nullptr;
    if (!y->_M_left) x=y->_M_right; else if (!y->_M_right) x=y->_M_left; else { y=y->_M_right; while (y->_M_left) y=y->_M_left; x=y->_M_right; }
    if (y!=z) { z->_M_left->_M_parent=y; y->_M_left=z->_M_left; if (y!=z->_M_right) { xp=y->_M_parent; if (x) x->_M_parent=y->_M_parent; y->_M_parent->_M_left=x; y->_M_right=z->_M_right; z->_M_right->_M_parent=y; } else xp=y; if (root==z) root=y; else if (z->_M_parent->_M_left==z) z->_M_parent->_M_left=y; else z->_M_parent->_M_right=y; y->_M_parent=z->_M_parent; std::swap(y->_M_color,z->_M_color); y=z; }
    else { xp=y->_M_parent; if (x) x->_M_parent=y->_M_parent; if (root==z) root=x; else if (z->_M_parent->_M_left==z) z->_M_parent->_M_left=x; else z->_M_parent->_M_right=x; if (leftmost==z) { if (!z->_M_right) leftmost=z->_M_parent; else { auto q=x; while (q->_M_left) q=q->_M_left; leftmost=q; } } if (rightmost==z) { if (!z->_M_left) rightmost=z->_M_parent; else { auto q=x; while (q->_M_right) q=q->_M_right; rightmost=q; } } }
    if (y->_M_color!=_S_red) { while (x!=root && (!x || !R(x))) { if (x==xp->_M_left) { auto w=xp->_M_right; if (R(w)) { w->_M_color=_S_black; xp->_M_color=_S_red; rl(xp,root); w=xp->_M_right; } if ((!w->_M_left||!R(w->_M_left)) && (!w->_M_right||!R(w->_M_right))) { w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if (!w->_M_right||!R(w->_M_right)) { w->_M_left->_M_color=_S_black; w->_M_color=_S_red; rr(w,root); w=xp->_M_right; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if (w->_M_right) w->_M_right->_M_color=_S_black; rl(xp,root); break; } }
      else { auto w=xp->_M_left; if (R(w)) { w->_M_color=_S_black; xp->_M_color=_S_red; rr(xp,root); w=xp->_M_left; } if ((!w->_M_right||!R(w->_M_right)) && (!w->_M_left||!R(w->_M_left))) { w->_M_color=_S_red; x=xp; xp=xp->_M_parent; } else { if (!w->_M_left||!R(w->_M_left)) { w->_M_right->_M_color=_S_black; w->_M_color=_S_red; rl(w,root); w=xp->_M_left; } w->_M_color=xp->_M_color; xp->_M_color=_S_black; if (w->_M_left) w->_M_left->_M_color=_S_black; rr(xp,root); break; } } } if (x) x->_M_color=_S_black; }
    return y; }
  namespace __detail {
    void _List_node_base::_M_hook(_List_node_base* p) noexcept { _M_next=p; _M_prev=p->_M_prev; p->_M_prev->_M_next=this; p->_M_prev=this; }
    void _List_node_base::_M_unhook() noexcept { _M_prev->_M_next=_M_next; _M_next->_M_prev=_M_prev; }
    void _List_node_base::_M_transfer(_List_node_base* f, _List_node_base* l) noexcept { if (this!=l) { l->_M_prev->_M_next=this; f->_M_prev->_M_next=l; _M_prev->_M_next=f; auto t=_M_prev; _M_prev=l->_M_prev; l->_M_prev=f->_M_prev; f->_M_prev=t; } }
    void _List_node_base::swap(_List_node_base& a, _List_node_base& b) noexcept { if (a._M_next!=&a) { if (b._M_next!=&b) { std::swap(a._M_next,b._M_next); std::swap(a._M_prev,b._M_prev); a._M_next->_M_prev=a._M_prev->_M_next=&a; b._M_next->_M_prev=b._M_prev->_M_next=&b; } else { b._M_next=a._M_next; b._M_prev=a._M_prev; b._M_next->_M_prev=b._M_prev->_M_next=&b; a._M_next=a._M_prev=&a; } } else if (b._M_next!=&b) swap(b,a); }
    size_t _Prime_rehash_policy::_M_next_bkt(size_t n) const { size_t k=n<3?3:(n|1); _M_next_resize=k; return k; }
    pair<bool,size_t> _Prime_rehash_policy::_M_need_rehash(size_t nb, size_t ne, size_t ni) const { if (ne+ni>_M_next_resize) { size_t k=_M_next_bkt((ne+ni)*2+1); if (k>nb) return {true,k}; } return {false,0}; }
  }
  size_t _Hash_bytes(const void* p, size_t n, size_t seed) { size_t h=seed; const unsigned char* q=(const unsigned char*)p; for (size_t i=0;i<n;i++) h=h*131+q[i]; return h; }

  struct gcm_nullbuf : streambuf { int overflow(int c) override { return c==-1?0:c; } streamsize xsputn(const char*, streamsize n) override { return n; } };
  static gcm_nullbuf gcm_nb;
  ostream cout(&gcm_nb), cerr(&gcm_nb), clog(&gcm_nb); istream cin(&gcm_nb);

  from_chars_result from_chars(const char* f, const char* l, double& v, chars_format) noexcept { char b[128]; int n=0; while (f+n<l && n<127) { b[n]=f[n]; n++; } b[n]=0; if (n==0 || b[0]=='+' || b[0]==' ') return {f,errc::invalid_argument}; char* e; v=strtod(b,&e); if (e==b) return {f,errc::invalid_argument}; return {f+(e-b),errc()}; }
  to_chars_result to_chars(char* f, char* l, double v) noexcept { char b[64]; int n=sym_fmt_double(b,v,17,0); if (l-f<n) return {l,errc::value_too_large}; memcpy(f,b,n); return {f+n,errc()}; }
}
extern "C" {
  void gcm_throw_bad_alloc() { throw std::bad_alloc(); }
  void __cxa_throw_bad_array_new_length() { throw std::bad_array_new_length(); }
  void __cxa_bad_cast() { throw std::bad_cast(); }
  char __libc_single_threaded = 1;
  int strcmp(const char* a, const char* b) noexcept { while (*a && *a==*b) { a++; b++; } return (int)(unsigned char)*a-(int)(unsigned char)*b; }
  int strncmp(const char* a, const char* b, size_t n) noexcept { while (n && *a && *a==*b) { a++; b++; n--; } return n? (int)(unsigned char)*a-(int)(unsigned char)*b : 0; }
  size_t strlen(const char* s) noexcept { const char* p=s; while (*p) p++; return (size_t)(p-s); }
  char* strcpy(char* d, const char* s) noexcept { char* r=d; while ((*d++=*s++)) ; return r; }
  char* strncpy(char* d, const char* s, size_t n) noexcept { size_t i=0; for (;i<n&&s[i];i++) d[i]=s[i]; for (;i<n;i++) d[i]=0; return d; }
  char* strcat(char* d, const char* s) noexcept { strcpy(d+strlen(d),s); return d; }
  int isspace(int c) noexcept { return (c==' ')|((c>=9)&(c<=13)); }
  int isdigit(int c) noexcept { return (c>='0')&(c<='9'); }
  int isalpha(int c) noexcept { return ((c>='a')&(c<='z'))|((c>='A')&(c<='Z')); }
  int isalnum(int c) noexcept { return isalpha(c)|isdigit(c); }
  int isxdigit(int c) noexcept { return isdigit(c)|((c>='a')&(c<='f'))|((c>='A')&(c<='F')); }
  int isupper(int c) noexcept { return (c>='A')&(c<='Z'); } int islower(int c) noexcept { return (c>='a')&(c<='z'); }
  int isprint(int c) noexcept { return (c>=32)&(c<127); } int iscntrl(int c) noexcept { return ((c>=0)&(c<32))|(c==127); } int isgraph(int c) noexcept { return (c>32)&(c<127); } int ispunct(int c) noexcept { return isgraph(c)&&!isalnum(c); }
  int tolower(int c) noexcept { return isupper(c)? c+32 : c; } int toupper(int c) noexcept { return islower(c)? c-32 : c; }
  double nan(const char*) noexcept { return __builtin_nan(""); }
  int abs(int x) noexcept { return x<0?-x:x; }
}
extern "C" void* gcm_memchr(const void* p, int c, size_t n) asm("memchr");
extern "C" void* gcm_memchr(const void* p, int c, size_t n) { const unsigned char* q=(const unsigned char*)p; for (size_t i=0;i<n;i++) if (q[i]==(unsigned char)c) return (void*)(q+i); return nullptr; }
extern "C" char* gcm_strchr(const char* p, int c) asm("strchr");
extern "C" char* gcm_strchr(const char* p, int c) { for (;;p++) { if (*p==(char)c) return (char*)p; if (!*p) return nullptr; } }
extern "C" char* gcm_strstr(const char* p, const char* q) asm("strstr");
extern "C" char* gcm_strstr(const char* p, const char* q) { size_t n=strlen(q); for (;;p++) { if (strncmp(p,q,n)==0) return (char*)p; if (!*p) return nullptr; } }
static int gcm_errno = 0;
extern "C" int* gcm_errno_location() asm("__errno_location");
extern "C" int* gcm_errno_location() { return &gcm_errno; }
// digits of strtol & co: sign, optional prefix, magnitude (saturated), end
static unsigned long long gcm_digits(const char* s, char** e, int b, bool& neg, bool& big) {
  const char* p=s; neg=false; big=false; while (isspace((unsigned char)*p)) p++;
  if (*p=='-') { neg=true; p++; } else if (*p=='+') p++;
  if ((b==0||b==16) && *p=='0' && (p[1]=='x'||p[1]=='X') && isxdigit((unsigned char)p[2])) { p+=2; b=16; } else if (b==0) b= *p=='0'?8:10;
  unsigned long long u=0; bool any=false;
  for (;;p++) {
    int c=(unsigned char)*p, d; if (c>='0'&&c<='9') d=c-'0'; else if (c>='a'&&c<='z') d=c-'a'+10; else if (c>='A'&&c<='Z') d=c-'A'+10; else break;
    if (d>=b) break; any=true; unsigned long long lim=~0ull/(unsigned)b; if ((u>lim)|((u==lim)&((unsigned long long)d>~0ull%(unsigned)b))) big=true; u=u*(unsigned)b+(unsigned)d;
  }
  if (e) *e=(char*)(any?p:s); if (!any) { u=0; neg=false; } return u;
}
static long long gcm_sl(const char* s, char** e, int b) { bool neg, big; unsigned long long u=gcm_digits(s,e,b,neg,big); unsigned long long lim=0x7fffffffffffffffull+(neg?1:0); if (big|(u>lim)) { gcm_errno=34; return neg? (-0x7fffffffffffffffll-1) : 0x7fffffffffffffffll; } return neg? (long long)(0-u) : (long long)u; }
static unsigned long long gcm_ul(const char* s, char** e, int b) { bool neg, big; unsigned long long u=gcm_digits(s,e,b,neg,big); if (big) { gcm_errno=34; return ~0ull; } return neg? 0-u : u; }
#define GCM_SL(n,a) extern "C" long long n(const char* s, char** e, int b) asm(a); extern "C" long long n(const char* s, char** e, int b) { return gcm_sl(s,e,b); }
#define GCM_UL(n,a) extern "C" unsigned long long n(const char* s, char** e, int b) asm(a); extern "C" unsigned long long n(const char* s, char** e, int b) { return gcm_ul(s,e,b); }
GCM_SL(gcm_sl1,"strtol") GCM_SL(gcm_sl2,"strtoll") GCM_SL(gcm_sl3,"__isoc23_strtol") GCM_SL(gcm_sl4,"__isoc23_strtoll")
GCM_UL(gcm_ul1,"strtoul") GCM_UL(gcm_ul2,"strtoull") GCM_UL(gcm_ul3,"__isoc23_strtoul") GCM_UL(gcm_ul4,"__isoc23_strtoull")
extern "C" double gcm_hypot_raw(double, double) asm("gcm_hypot_raw");
extern "C" double gcm_hypot(double x, double y) asm("hypot");
extern "C" double gcm_hypot(double x, double y) { x=__builtin_fabs(x); y=__builtin_fabs(y); if (y==0) return x; if (x==0) return y; return gcm_hypot_raw(x,y); }
extern "C" double gcm_cabs(double x, double y) asm("cabs");
extern "C" double gcm_cabs(double x, double y) { return gcm_hypot(x,y); }
extern "C" double frexp(double, int*) noexcept;
// rounding to integers: the value when it fits, the limit otherwise (as glibc on x86-64)
static long gcm_tol(double r) { return (r>=-9223372036854775808.0 && r<9223372036854775808.0)? (long)r : (-0x7fffffffffffffffl-1); }
extern "C" {
  double gcm_carg(double, double) asm("carg"); double atan2(double, double) noexcept; double gcm_carg(double r, double i) { return atan2(i,r); }
  long gcm_lround(double) asm("lround"); long gcm_lround(double x) { return gcm_tol(__builtin_round(x)); }
  long long gcm_llround(double) asm("llround"); long long gcm_llround(double x) { return gcm_tol(__builtin_round(x)); }
  long gcm_lrint(double) asm("lrint"); long gcm_lrint(double x) { return gcm_tol(__builtin_rint(x)); }
  long long gcm_llrint(double) asm("llrint"); long long gcm_llrint(double x) { return gcm_tol(__builtin_rint(x)); }
  double gcm_modf(double, double*) asm("modf"); double gcm_modf(double x, double* i) { double t=__builtin_trunc(x); *i=t; return __builtin_copysign(__builtin_isinf(x)? 0.0 : x-t, x); }
  float gcm_strtof(const char*, char**) asm("strtof"); float gcm_strtof(const char* s, char** e) { return (float)strtod(s,e); }
  double gcm_atof(const char*) asm("atof"); double gcm_atof(const char* s) { return strtod(s,nullptr); }
  int gcm_atoi(const char*) asm("atoi"); int gcm_atoi(const char* s) { return (int)gcm_sl(s,nullptr,10); }
  long gcm_atol(const char*) asm("atol"); long gcm_atol(const char* s) { return (long)gcm_sl(s,nullptr,10); }
  long long gcm_atoll(const char*) asm("atoll"); long long gcm_atoll(const char* s) { return gcm_sl(s,nullptr,10); }
  void gcm_qsort(void*, size_t, size_t, int(*)(const void*,const void*)) asm("qsort");
  void gcm_qsort(void* b, size_t n, size_t z, int(*f)(const void*,const void*)) { char* p=(char*)b; for (size_t i=1;i<n;i++) for (size_t j=i; j>0 && f(p+(j-1)*z,p+j*z)>0; j--) for (size_t k=0;k<z;k++) { char t=p[(j-1)*z+k]; p[(j-1)*z+k]=p[j*z+k]; p[j*z+k]=t; } }
  void* gcm_bsearch(const void*, const void*, size_t, size_t, int(*)(const void*,const void*)) asm("bsearch");
  void* gcm_bsearch(const void* k, const void* b, size_t n, size_t z, int(*f)(const void*,const void*)) { size_t l=0,h=n; while (l<h) { size_t m=l+(h-l)/2; const char* q=(const char*)b+m*z; int c=f(k,q); if (c==0) return (void*)q; if (c<0) h=m; else l=m+1; } return nullptr; }
  char* gcm_strtok_r(char*, const char*, char**) asm("strtok_r");
  char* gcm_strtok_r(char* s, const char* d, char** v) { if (!s) s=*v; if (!s) return nullptr; while (*s && gcm_strchr(d,*s)) s++; if (!*s) { *v=s; return nullptr; } char* r=s; while (*s && !gcm_strchr(d,*s)) s++; if (*s) *s++=0; *v=s; return r; }
  char* gcm_strtok(char*, const char*) asm("strtok"); char* gcm_strtok(char* s, const char* d) { static char* v; return gcm_strtok_r(s,d,&v); }
  int gcm_once(int*, void(*)()) asm("pthread_once"); int gcm_once(int* o, void(*f)()) { if (!*o) { *o=2; f(); } return 0; }
  wchar_t* gcm_wmemcpy(wchar_t*, const wchar_t*, size_t) asm("wmemcpy"); wchar_t* gcm_wmemcpy(wchar_t* d, const wchar_t* s, size_t n) { for (size_t i=0;i<n;i++) d[i]=s[i]; return d; }
  // quotient of complex numbers, as compiler-rt computes it
  struct gcm_cx { double re, im; };
  double gcm_scalbn(double, int) asm("scalbn"); double gcm_logb(double) asm("logb");
  double gcm_scalbn(double x, int n) { return __builtin_ldexp(x,n); }
  int gcm_ilogb(double) asm("ilogb"); int gcm_ilogb(double x) { if (x==0||x!=x) return -2147483647-1; if (__builtin_isinf(x)) return 2147483647; int e; frexp(x,&e); return e-1; }
  double gcm_logb(double x) { if (x==0) return -__builtin_inf(); if (x!=x) return x; if (__builtin_isinf(x)) return __builtin_inf(); return gcm_ilogb(x); }
  gcm_cx gcm_divdc3(double, double, double, double) asm("__divdc3");
  gcm_cx gcm_divdc3(double a, double b, double c, double d) {
    int lb=0; double m=__builtin_fmax(__builtin_fabs(c),__builtin_fabs(d)), l=gcm_logb(m); if (__builtin_isfinite(l)) { lb=(int)l; c=gcm_scalbn(c,-lb); d=gcm_scalbn(d,-lb); }
    double q=c*c+d*d; gcm_cx z={ gcm_scalbn((a*c+b*d)/q,-lb), gcm_scalbn((b*c-a*d)/q,-lb) };
    if (z.re!=z.re && z.im!=z.im) {
      if (q==0 && (a==a || b==b)) { z.re=__builtin_copysign(__builtin_inf(),c)*a; z.im=__builtin_copysign(__builtin_inf(),c)*b; }
      else if ((__builtin_isinf(a)||__builtin_isinf(b)) && __builtin_isfinite(c) && __builtin_isfinite(d)) { a=__builtin_copysign(__builtin_isinf(a)?1.0:0.0,a); b=__builtin_copysign(__builtin_isinf(b)?1.0:0.0,b); z.re=__builtin_inf()*(a*c+b*d); z.im=__builtin_inf()*(b*c-a*d); }
      else if (__builtin_isinf(l) && l>0 && __builtin_isfinite(a) && __builtin_isfinite(b)) { c=__builtin_copysign(__builtin_isinf(c)?1.0:0.0,c); d=__builtin_copysign(__builtin_isinf(d)?1.0:0.0,d); z.re=0*(a*c+b*d); z.im=0*(b*c-a*d); }
    }
    return z; }
  div_t gcm_div(int, int) asm("div"); div_t gcm_div(int a, int b) { div_t r; r.quot=a/b; r.rem=a%b; return r; }
  ldiv_t gcm_ldiv(long, long) asm("ldiv"); ldiv_t gcm_ldiv(long a, long b) { ldiv_t r; r.quot=a/b; r.rem=a%b; return r; }
  int gcm_sscanf(const char*, const char*, ...) asm("sscanf"); int gcm_sscanf2(const char*, const char*, ...) asm("__isoc23_sscanf"); int gcm_sscanf3(const char*, const char*, ...) asm("__isoc99_sscanf");
}
static int gcm_vsscanf(const char* s, const char* f, va_list a) {
  const char* s0=s; int n=0;
  for (; *f; f++) {
    if (isspace((unsigned char)*f)) { while (isspace((unsigned char)*s)) s++; continue; }
    if (*f!='%') { if (*s!=*f) return *s||n? n : -1; s++; continue; }
    f++; bool skip=false; if (*f=='*') { skip=true; f++; } int w=0; while (isdigit((unsigned char)*f)) w=w*10+*f++-'0'; int L=0; while (*f=='l'||*f=='h'||*f=='z'||*f=='j') { L+= *f=='h'? -1 : *f=='l'? 1 : 2; f++; }
    if (*f=='%') { if (*s!='%') return n; s++; continue; }
    if (*f=='n') { *va_arg(a,int*)=(int)(s-s0); continue; }
    if (*f!='c' && *f!='[') while (isspace((unsigned char)*s)) s++;
    if (!*s) return n? n : -1;
    char* e=nullptr;
    if (*f=='d'||*f=='i'||*f=='u'||*f=='x') { if (w) sym_unsupported("sscanf width"); long long v= *f=='u'||*f=='x'? (long long)gcm_ul(s,&e,*f=='x'?16:10) : gcm_sl(s,&e,*f=='i'?0:10); if (e==s) return n; s=e; if (!skip) { if (L>=1) *va_arg(a,long long*)=v; else if (L==0) *va_arg(a,int*)=(int)v; else if (L==-1) *va_arg(a,short*)=(short)v; else *va_arg(a,signed char*)=(signed char)v; n++; } }
    else if (*f=='f'||*f=='g'||*f=='e') { if (w) sym_unsupported("sscanf width"); double v=strtod(s,&e); if (e==s) return n; s=e; if (!skip) { if (L==1) *va_arg(a,double*)=v; else *va_arg(a,float*)=(float)v; n++; } }
    else if (*f=='s') { char* d= skip? nullptr : va_arg(a,char*); int k=0; while (*s && !isspace((unsigned char)*s) && (!w||k<w)) { if (d) d[k]=*s; k++; s++; } if (d) { d[k]=0; n++; } }
    else if (*f=='c') { char* d= skip? nullptr : va_arg(a,char*); for (int k=0;k<(w?w:1);k++) { if (!*s) return n; if (d) d[k]=*s; s++; } if (d) n++; }
    else sym_unsupported("sscanf conversion");
  }
  return n;
}
#define GCM_SCAN(n) extern "C" int n(const char* s, const char* f, ...) { va_list a; va_start(a,f); int r=gcm_vsscanf(s,f,a); va_end(a); return r; }
GCM_SCAN(gcm_sscanf) GCM_SCAN(gcm_sscanf2) GCM_SCAN(gcm_sscanf3)
#include <chrono>
namespace std { namespace chrono { inline namespace _V2 {
  static long long gcm_tick;
  steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(++gcm_tick)); }
  system_clock::time_point system_clock::now() noexcept { return time_point(duration(++gcm_tick)); }
} } }
#include <mutex>
namespace std { __thread void* __once_callable; __thread void (*__once_call)(); }
extern "C" void __once_proxy() { if (std::__once_call) std::__once_call(); }
