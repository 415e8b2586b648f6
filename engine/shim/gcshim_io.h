// Light-weight iostream layer used only when /repo is compiled to bitcode for gcsym.
// Same names and (for the features provided) same behaviour as the standard streams.
#pragma once
#define GCSHIM_IO 1
#include <iosfwd>
#include <limits>
#include <bits/localefwd.h>
#include <string>
#include <stdexcept>
#include <exception>
#include <system_error>
#include <cstring>
#include <cstdint>
#include <cstdio>
#include <cwchar>
#include <bits/char_traits.h>
#include <type_traits>
extern "C" {
  int sym_fmt_double(char*, double, int, int);
  int sym_fmt_int(char*, long long, int, int);
  double strtod(const char*, char**) noexcept(true);
  void sym_unsupported(const char*);
}
namespace std {
  class locale {
  public:
    class facet { public: virtual ~facet(){} }; class id {}; typedef int category;
    static const category none=0, ctype=1, numeric=2, collate=4, time=8, monetary=16, messages=32, all=63;
    locale() noexcept {} locale(const locale&) noexcept {} explicit locale(const char*) {} explicit locale(const string&) {} locale(const locale&, const char*, category) {} locale(const locale&, const locale&, category) {}
    template<class F> locale(const locale&, F*) {}
    locale& operator=(const locale&) noexcept { return *this; } string name() const { return "C"; }
    bool operator==(const locale&) const { return true; } bool operator!=(const locale&) const { return false; }
    static const locale& classic() { static locale l; return l; } static locale global(const locale&) { return locale(); }
  };
  template<class C> bool isspace(C c, const locale&) { return c==' '||(c>=9&&c<=13); }
  template<class C> bool isdigit(C c, const locale&) { return c>='0'&&c<='9'; }
  template<class C> bool isupper(C c, const locale&) { return c>='A'&&c<='Z'; }
  template<class C> bool islower(C c, const locale&) { return c>='a'&&c<='z'; }
  template<class C> bool isalpha(C c, const locale&) { return (c>='A'&&c<='Z')||(c>='a'&&c<='z'); }
  template<class C> bool isalnum(C c, const locale&) { return (c>='A'&&c<='Z')||(c>='a'&&c<='z')||(c>='0'&&c<='9'); }
  template<class C> bool isxdigit(C c, const locale&) { return (c>='A'&&c<='F')||(c>='a'&&c<='f')||(c>='0'&&c<='9'); }
  template<class C> bool iscntrl(C c, const locale&) { return (c>=0&&c<32)||c==127; }
  template<class C> bool isprint(C c, const locale&) { return c>=32&&c<127; }
  template<class C> bool isgraph(C c, const locale&) { return c>32&&c<127; }
  template<class C> bool isblank(C c, const locale&) { return c==' '||c=='\t'; }
  template<class C> bool ispunct(C c, const locale&) { return (c>32&&c<48)||(c>57&&c<65)||(c>90&&c<97)||(c>122&&c<127); }
  template<class C> C tolower(C c, const locale&) { return c>='A'&&c<='Z'? c+32 : c; }
  template<class C> C toupper(C c, const locale&) { return c>='a'&&c<='z'? c-32 : c; }

  class ios_base {
  public:
    typedef unsigned fmtflags; typedef unsigned iostate; typedef unsigned openmode; typedef int seekdir; enum event { erase_event, imbue_event, copyfmt_event }; typedef void (*event_callback)(event, ios_base&, int);
    static constexpr fmtflags boolalpha=1, dec=2, fixed=4, hex=8, internal=16, left=32, oct=64, right=128, scientific=256, showbase=512, showpoint=1024, showpos=2048, skipws=4096, unitbuf=8192, uppercase=16384, adjustfield=left|right|internal, basefield=dec|oct|hex, floatfield=scientific|fixed;
    static constexpr iostate badbit=1, eofbit=2, failbit=4, goodbit=0;
    static constexpr openmode app=1, ate=2, binary=4, in=8, out=16, trunc=32;
    static constexpr seekdir beg=0, cur=1, end=2;
    class failure : public system_error { public: explicit failure(const string& s, const error_code& e=error_code()) : system_error(e,s) {} explicit failure(const char* s, const error_code& e=error_code()) : system_error(e,s) {} };
    class Init { public: Init(){} ~Init(){} };
    fmtflags flags() const { return _f; } fmtflags flags(fmtflags f) { fmtflags o=_f; _f=f; return o; }
    fmtflags setf(fmtflags f) { fmtflags o=_f; _f|=f; return o; } fmtflags setf(fmtflags f, fmtflags m) { fmtflags o=_f; _f=(_f&~m)|(f&m); return o; } void unsetf(fmtflags m) { _f&=~m; }
    streamsize precision() const { return _p; } streamsize precision(streamsize p) { streamsize o=_p; _p=p; return o; }
    streamsize width() const { return _w; } streamsize width(streamsize w) { streamsize o=_w; _w=w; return o; }
    locale imbue(const locale&) { return locale(); } locale getloc() const { return locale(); }
    static bool sync_with_stdio(bool=true) { return true; }
    static int xalloc() noexcept { static int k; return k++; }
    virtual ~ios_base() {}
  protected:
    ios_base() {} fmtflags _f=dec|skipws; streamsize _p=6,_w=0;
  };
  inline ios_base& boolalpha(ios_base& s){s.setf(ios_base::boolalpha);return s;} inline ios_base& noboolalpha(ios_base& s){s.unsetf(ios_base::boolalpha);return s;}
  inline ios_base& hex(ios_base& s){s.setf(ios_base::hex,ios_base::basefield);return s;} inline ios_base& dec(ios_base& s){s.setf(ios_base::dec,ios_base::basefield);return s;} inline ios_base& oct(ios_base& s){s.setf(ios_base::oct,ios_base::basefield);return s;}
  inline ios_base& fixed(ios_base& s){s.setf(ios_base::fixed,ios_base::floatfield);return s;} inline ios_base& scientific(ios_base& s){s.setf(ios_base::scientific,ios_base::floatfield);return s;} inline ios_base& defaultfloat(ios_base& s){s.unsetf(ios_base::floatfield);return s;} inline ios_base& hexfloat(ios_base& s){s.setf(ios_base::floatfield,ios_base::floatfield);return s;}
  inline ios_base& left(ios_base& s){s.setf(ios_base::left,ios_base::adjustfield);return s;} inline ios_base& right(ios_base& s){s.setf(ios_base::right,ios_base::adjustfield);return s;} inline ios_base& internal(ios_base& s){s.setf(ios_base::internal,ios_base::adjustfield);return s;}
  inline ios_base& showpos(ios_base& s){s.setf(ios_base::showpos);return s;} inline ios_base& noshowpos(ios_base& s){s.unsetf(ios_base::showpos);return s;} inline ios_base& showbase(ios_base& s){s.setf(ios_base::showbase);return s;} inline ios_base& noshowbase(ios_base& s){s.unsetf(ios_base::showbase);return s;} inline ios_base& showpoint(ios_base& s){s.setf(ios_base::showpoint);return s;} inline ios_base& noshowpoint(ios_base& s){s.unsetf(ios_base::showpoint);return s;}
  inline ios_base& skipws(ios_base& s){s.setf(ios_base::skipws);return s;} inline ios_base& noskipws(ios_base& s){s.unsetf(ios_base::skipws);return s;} inline ios_base& uppercase(ios_base& s){s.setf(ios_base::uppercase);return s;} inline ios_base& nouppercase(ios_base& s){s.unsetf(ios_base::uppercase);return s;} inline ios_base& unitbuf(ios_base& s){return s;} inline ios_base& nounitbuf(ios_base& s){return s;}
  enum class io_errc { stream = 1 };

  template<class C,class T> class basic_streambuf {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    virtual ~basic_streambuf() {}
    int_type sgetc() { return _g<_ge? T::to_int_type(*_g) : underflow(); }
    int_type sbumpc() { if (_g<_ge) return T::to_int_type(*_g++); return uflow(); }
    int_type snextc() { if (T::eq_int_type(sbumpc(),T::eof())) return T::eof(); return sgetc(); }
    streamsize sgetn(C* s, streamsize n) { return xsgetn(s,n); }
    int_type sputbackc(C c) { if (_g>_gb && _g[-1]==c) { --_g; return T::to_int_type(c); } return pbackfail(T::to_int_type(c)); }
    int_type sungetc() { if (_g>_gb) { --_g; return T::to_int_type(*_g); } return pbackfail(); }
    int_type sputc(C c) { if (_q<_qe) { *_q++=c; return T::to_int_type(c); } return overflow(T::to_int_type(c)); }
    streamsize sputn(const C* s, streamsize n) { return xsputn(s,n); }
    streamsize in_avail() { return _g<_ge? _ge-_g : showmanyc(); }
    int pubsync() { return sync(); } pos_type pubseekoff(off_type o, ios_base::seekdir d, ios_base::openmode m=ios_base::in|ios_base::out) { return seekoff(o,d,m); } pos_type pubseekpos(pos_type p, ios_base::openmode m=ios_base::in|ios_base::out) { return seekpos(p,m); }
    basic_streambuf* pubsetbuf(C* s, streamsize n) { return setbuf(s,n); } locale pubimbue(const locale&) { return locale(); } locale getloc() const { return locale(); }
  protected:
    basic_streambuf() {} basic_streambuf(const basic_streambuf&)=default; basic_streambuf& operator=(const basic_streambuf&)=default;
    C* eback() const { return _gb; } C* gptr() const { return _g; } C* egptr() const { return _ge; } void gbump(int n) { _g+=n; } void setg(C* a,C* b,C* c) { _gb=a;_g=b;_ge=c; }
    C* pbase() const { return _qb; } C* pptr() const { return _q; } C* epptr() const { return _qe; } void pbump(int n) { _q+=n; } void setp(C* a,C* b) { _qb=_q=a;_qe=b; }
    virtual int_type underflow() { return T::eof(); } virtual int_type uflow() { if (T::eq_int_type(underflow(),T::eof())) return T::eof(); return T::to_int_type(*_g++); }
    virtual int_type overflow(int_type=T::eof()) { return T::eof(); } virtual int_type pbackfail(int_type=T::eof()) { return T::eof(); }
    virtual streamsize xsputn(const C* s, streamsize n) { streamsize k=0; for (;k<n;k++) if (T::eq_int_type(sputc(s[k]),T::eof())) break; return k; }
    virtual streamsize xsgetn(C* s, streamsize n) { streamsize k=0; for (;k<n;k++) { int_type c=sbumpc(); if (T::eq_int_type(c,T::eof())) break; s[k]=T::to_char_type(c); } return k; }
    virtual int sync() { return 0; } virtual streamsize showmanyc() { return 0; } virtual pos_type seekoff(off_type, ios_base::seekdir, ios_base::openmode=ios_base::in|ios_base::out) { return pos_type(off_type(-1)); } virtual pos_type seekpos(pos_type, ios_base::openmode=ios_base::in|ios_base::out) { return pos_type(off_type(-1)); }
    virtual basic_streambuf* setbuf(C*, streamsize) { return this; } virtual void imbue(const locale&) {}
  private: C *_gb=nullptr,*_g=nullptr,*_ge=nullptr,*_qb=nullptr,*_q=nullptr,*_qe=nullptr;
  };

  template<class C,class T> class basic_ios : public ios_base {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type;
    explicit basic_ios(basic_streambuf<C,T>* b) : _b(b) {}
    explicit operator bool() const { return !fail(); } bool operator!() const { return fail(); }
    iostate rdstate() const { return _s; } void clear(iostate s=goodbit) { _s= _b? s : s|badbit; if (_s&_ex) throw failure("basic_ios::clear"); } void setstate(iostate s) { clear(_s|s); } void _M_setstate(iostate s) { _s|=s; }
    bool good() const { return _s==0; } bool eof() const { return _s&eofbit; } bool fail() const { return _s&(badbit|failbit); } bool bad() const { return _s&badbit; }
    iostate exceptions() const { return _ex; } void exceptions(iostate e) { _ex=e; clear(_s); }
    basic_streambuf<C,T>* rdbuf() const { return _b; } basic_streambuf<C,T>* rdbuf(basic_streambuf<C,T>* b) { auto o=_b; _b=b; clear(); return o; }
    C fill() const { return _fill; } C fill(C c) { C o=_fill; _fill=c; return o; } basic_ostream<C,T>* tie() const { return nullptr; } basic_ostream<C,T>* tie(basic_ostream<C,T>*) { return nullptr; }
    char narrow(C c,char) const { return (char)c; } C widen(char c) const { return (C)c; }
    basic_ios& copyfmt(const basic_ios& o) { _f=o._f; _p=o._p; _w=o._w; _fill=o._fill; return *this; }
  protected: basic_ios() {} void init(basic_streambuf<C,T>* b) { _b=b; _s= b?goodbit:badbit; } 
    basic_streambuf<C,T>* _b=nullptr; iostate _s=0,_ex=0; C _fill=(C)' ';
  };

  template<class C,class T> class basic_ostream : virtual public basic_ios<C,T> {
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; typedef basic_ios<C,T> __ios_type;
    explicit basic_ostream(basic_streambuf<C,T>* b) { this->init(b); }
    virtual ~basic_ostream() {}
    class sentry { bool _ok; public: explicit sentry(basic_ostream& o) : _ok(o.good()) {} explicit operator bool() const { return _ok; } };
    basic_ostream& put(C c) { if (this->_b && T::eq_int_type(this->_b->sputc(c),T::eof())) this->setstate(ios_base::badbit); return *this; }
    basic_ostream& write(const C* s, streamsize n) { if (this->good() && this->_b && this->_b->sputn(s,n)!=n) this->setstate(ios_base::badbit); return *this; }
    void _M_write(const C* s, streamsize n) { write(s,n); }
    basic_ostream& flush() { if (this->_b) this->_b->pubsync(); return *this; }
    pos_type tellp() { return this->_b? this->_b->pubseekoff(0,ios_base::cur,ios_base::out) : pos_type(off_type(-1)); } basic_ostream& seekp(pos_type p) { if (this->_b) this->_b->pubseekpos(p,ios_base::out); return *this; } basic_ostream& seekp(off_type o, ios_base::seekdir d) { if (this->_b) this->_b->pubseekoff(o,d,ios_base::out); return *this; }
    // padded insertion
    basic_ostream& _ins(const C* s, streamsize n) {
      if (!this->good()) return *this; streamsize w=this->width(0); 
      if (w>n) { bool l=(this->flags()&ios_base::adjustfield)==ios_base::left; if (!l) for (streamsize i=n;i<w;i++) this->_b->sputc(this->fill()); this->_b->sputn(s,n); if (l) for (streamsize i=n;i<w;i++) this->_b->sputc(this->fill()); }
      else if (this->_b->sputn(s,n)!=n) this->setstate(ios_base::badbit);
      return *this; }
    basic_ostream& _i(long long v, bool un) { char b[80]; unsigned f=this->flags(); int base= (f&ios_base::basefield)==ios_base::hex?16:(f&ios_base::basefield)==ios_base::oct?8:10; int o=0; if (base==16&&(f&ios_base::showbase)) { b[0]='0'; b[1]='x'; o=2; } if ((f&ios_base::showpos)&&!un&&base==10&&v>=0) { b[0]='+'; o=1; } int n=sym_fmt_int(b+o,v,un||base!=10,base); return _insn(b,n+o); }
    basic_ostream& _insn(const char* b, int n) { if constexpr (sizeof(C)==1) return _ins((const C*)b,n); else { C t[600]; for (int i=0;i<n;i++) t[i]=(C)b[i]; return _ins(t,n); } }
    basic_ostream& _d(double v) { char b[540]; unsigned f=this->flags()&ios_base::floatfield; int n=sym_fmt_double(b,v,(int)this->precision()<0?6:(int)this->precision(),(f==ios_base::fixed?1:f==ios_base::scientific?2:0)|((this->flags()&ios_base::showpos)?4:0)); return _insn(b,n); }
    basic_ostream& operator<<(bool v) { if (this->flags()&ios_base::boolalpha) return v? _insn("true",4) : _insn("false",5); return _i(v,false); }
    basic_ostream& operator<<(short v) { unsigned f=this->flags()&ios_base::basefield; return _i((f==ios_base::hex||f==ios_base::oct)? (long long)(unsigned short)v : v,false); } basic_ostream& operator<<(unsigned short v) { return _i(v,true); } basic_ostream& operator<<(int v) { unsigned f=this->flags()&ios_base::basefield; return _i((f==ios_base::hex||f==ios_base::oct)? (long long)(unsigned)v : v,false); } basic_ostream& operator<<(unsigned v) { return _i(v,true); } basic_ostream& operator<<(long v) { return _i(v,false); } basic_ostream& operator<<(unsigned long v) { return _i((long long)v,true); } basic_ostream& operator<<(long long v) { return _i(v,false); } basic_ostream& operator<<(unsigned long long v) { return _i((long long)v,true); }
    basic_ostream& operator<<(double v) { return _d(v); } basic_ostream& operator<<(float v) { return _d(v); } basic_ostream& operator<<(long double v) { return _d((double)v); }
    basic_ostream& operator<<(const void* p) { char b[80]; b[0]='0'; b[1]='x'; if (!p) return _insn("0",1); int n=sym_fmt_int(b+2,(long long)(uintptr_t)p,1,16); return _insn(b,n+2); }
    basic_ostream& operator<<(nullptr_t) { return _insn("nullptr",7); }
    basic_ostream& operator<<(basic_streambuf<C,T>* b) { if (!b) { this->setstate(ios_base::badbit); return *this; } typename T::int_type c; bool any=false; try { while (!T::eq_int_type(c=b->sbumpc(),T::eof())) { put(T::to_char_type(c)); any=true; } } catch (...) { this->_M_setstate(ios_base::failbit); if (this->exceptions()&ios_base::failbit) throw; return *this; } if (!any) this->setstate(ios_base::failbit); return *this; }
    basic_ostream& operator<<(basic_ostream&(*f)(basic_ostream&)) { return f(*this); } basic_ostream& operator<<(basic_ios<C,T>&(*f)(basic_ios<C,T>&)) { f(*this); return *this; } basic_ostream& operator<<(ios_base&(*f)(ios_base&)) { f(*this); return *this; }
  protected: basic_ostream() {} 
  };
  template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o, C c) { return o._ins(&c,1); }
  template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o, char c) { C k=(C)c; return o._ins(&k,1); }
  template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, char c) { return o._ins(&c,1); }
  template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, signed char c) { char k=(char)c; return o._ins(&k,1); }
  template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, unsigned char c) { char k=(char)c; return o._ins(&k,1); }
  template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o, const C* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._ins(s,(streamsize)T::length(s)); }
  template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o, const char* s) { return o._insn(s,(int)strlen(s)); }
  template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, const char* s) { if (!s) { o.setstate(ios_base::badbit); return o; } return o._ins(s,(streamsize)strlen(s)); }
  template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, const signed char* s) { return o<<(const char*)s; }
  template<class T> basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o, const unsigned char* s) { return o<<(const char*)s; }
  template<class C,class T> basic_ostream<C,T>& __ostream_insert(basic_ostream<C,T>& o, const C* s, streamsize n) { return o._ins(s,n); }
  template<class C,class T> void __ostream_write(basic_ostream<C,T>& o, const C* s, streamsize n) { o.write(s,n); }
  template<class C,class T> basic_ostream<C,T>& endl(basic_ostream<C,T>& o) { o.put((C)'\n'); return o; } template<class C,class T> basic_ostream<C,T>& ends(basic_ostream<C,T>& o) { o.put(C()); return o; } template<class C,class T> basic_ostream<C,T>& flush(basic_ostream<C,T>& o) { return o.flush(); }
  template<class O,class V> typename enable_if<!is_lvalue_reference<O>::value && is_base_of<ios_base,O>::value, O&&>::type operator<<(O&& o, const V& v) { o<<v; return std::move(o); }

#define GCS_BAD catch (...) { this->_M_setstate(ios_base::badbit); if (this->exceptions()&ios_base::badbit) throw; }
  template<class C,class T> class basic_istream : virtual public basic_ios<C,T> {
  protected: streamsize _gc=0; basic_istream() {}
    bool _prep(bool nows=false) { if (!this->good()) { this->setstate(ios_base::failbit); return false; } if (!nows && (this->flags()&ios_base::skipws)) { typename T::int_type c=this->_b->sgetc(); while (!T::eq_int_type(c,T::eof()) && _sp(c)) c=this->_b->snextc(); if (T::eq_int_type(c,T::eof())) { this->setstate(ios_base::eofbit|ios_base::failbit); return false; } } return true; }
    static bool _sp(int c) { return c==' '||(c>=9&&c<=13); }
    template<class V> basic_istream& _rdi(V& v) { if (!_prep()) { v=0; return *this; } bool neg=false; auto c=this->_b->sgetc(); if (c=='-'||c=='+') { neg=c=='-'; c=this->_b->snextc(); } bool any=false,ovf=false; unsigned long long x=0; unsigned long long lim= is_signed<V>::value? (unsigned long long)numeric_limits<V>::max()+(neg?1:0) : (unsigned long long)numeric_limits<V>::max(); while (c>='0'&&c<='9') { any=true; unsigned d=c-'0'; if (x>(lim-d)/10) ovf=true; else x=x*10+d; c=this->_b->snextc(); } if (T::eq_int_type(c,T::eof())) this->setstate(ios_base::eofbit); if (!any) { v=0; this->setstate(ios_base::failbit); } else if (ovf) { v= (neg&&is_signed<V>::value)? numeric_limits<V>::min() : numeric_limits<V>::max(); this->setstate(ios_base::failbit); } else v= neg? (V)(0-x) : (V)x; return *this; }
  public:
    typedef C char_type; typedef T traits_type; typedef typename T::int_type int_type; typedef typename T::pos_type pos_type; typedef typename T::off_type off_type; typedef basic_ios<C,T> __ios_type; typedef basic_streambuf<C,T> __streambuf_type;
    explicit basic_istream(basic_streambuf<C,T>* b) { this->init(b); } virtual ~basic_istream() {}
    class sentry { bool _ok; public: explicit sentry(basic_istream& i, bool nows=false) : _ok(i._prep(nows)) {} explicit operator bool() const { return _ok; } };
    friend class sentry;
    streamsize gcount() const { return _gc; }
    int_type get() { _gc=0; if (!_prep(true)) return T::eof(); int_type c=T::eof(); try { c=this->_b->sbumpc(); } GCS_BAD if (T::eq_int_type(c,T::eof())) this->setstate(this->bad()?ios_base::failbit:ios_base::eofbit|ios_base::failbit); else _gc=1; return c; }
    basic_istream& get(C& c) { int_type k=get(); if (!T::eq_int_type(k,T::eof())) c=T::to_char_type(k); return *this; }
    int_type peek() { _gc=0; if (!this->good()) { this->setstate(ios_base::failbit); return T::eof(); } int_type c=T::eof(); try { c=this->_b->sgetc(); } GCS_BAD if (T::eq_int_type(c,T::eof()) && !this->bad()) this->setstate(ios_base::eofbit); return c; }
    basic_istream& read(C* s, streamsize n) { _gc=0; if (_prep(true)) { try { _gc=this->_b->sgetn(s,n); } GCS_BAD if (_gc<n && !this->bad()) this->setstate(ios_base::eofbit|ios_base::failbit); } return *this; }
    streamsize readsome(C* s, streamsize n) { streamsize a=this->_b->in_avail(); _gc= a>0? this->_b->sgetn(s,a<n?a:n) : 0; return _gc; }
    basic_istream& unget() { this->clear(this->rdstate()&~ios_base::eofbit); _gc=0; if (T::eq_int_type(this->_b->sungetc(),T::eof())) this->setstate(ios_base::badbit); return *this; }
    basic_istream& putback(C c) { this->clear(this->rdstate()&~ios_base::eofbit); _gc=0; if (T::eq_int_type(this->_b->sputbackc(c),T::eof())) this->setstate(ios_base::badbit); return *this; }
    basic_istream& ignore(streamsize n=1, int_type d=T::eof()) { _gc=0; if (_prep(true)) try { while (n==numeric_limits<streamsize>::max() || _gc<n) { int_type c=this->_b->sbumpc(); if (T::eq_int_type(c,T::eof())) { this->setstate(ios_base::eofbit); break; } _gc++; if (T::eq_int_type(c,d)) break; } } GCS_BAD return *this; }
    basic_istream& getline(C* s, streamsize n, C d='\n') { _gc=0; if (_prep(true)) { streamsize k=0; for (;;) { int_type c=this->_b->sgetc(); if (T::eq_int_type(c,T::eof())) { this->setstate(_gc?ios_base::eofbit:ios_base::eofbit|ios_base::failbit); break; } if (T::to_char_type(c)==d) { this->_b->sbumpc(); _gc++; break; } if (k+1>=n) { this->setstate(ios_base::failbit); break; } s[k++]=T::to_char_type(c); this->_b->sbumpc(); _gc++; } if (n>0) s[k]=C(); } else if (n>0) s[0]=C(); return *this; }
    pos_type tellg() { if (this->fail()) return pos_type(off_type(-1)); return this->_b->pubseekoff(0,ios_base::cur,ios_base::in); } basic_istream& seekg(pos_type p) { this->clear(this->rdstate()&~ios_base::eofbit); if (!this->fail()) { if (this->_b->pubseekpos(p,ios_base::in)==pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; } basic_istream& seekg(off_type o, ios_base::seekdir d) { this->clear(this->rdstate()&~ios_base::eofbit); if (!this->fail()) { if (this->_b->pubseekoff(o,d,ios_base::in)==pos_type(off_type(-1))) this->setstate(ios_base::failbit); } return *this; }
    int sync() { return 0; }
    basic_istream& operator>>(bool& v) { if (this->flags()&ios_base::boolalpha) { v=false; if (!_prep()) return *this; const char* w=T::eq_int_type(this->_b->sgetc(),T::to_int_type((C)'t'))?"true":"false"; const char* q=w; auto k=this->_b->sgetc(); while (*q && T::eq_int_type(k,T::to_int_type((C)*q))) { q++; k= *q? this->_b->snextc() : (this->_b->sbumpc(), k); } if (T::eq_int_type(k,T::eof())) this->setstate(ios_base::eofbit); if (*q) this->setstate(ios_base::failbit); else v= *w=='t'; return *this; } long x=0; _rdi(x); v=x!=0; if (x!=0&&x!=1) this->setstate(ios_base::failbit); return *this; } basic_istream& operator>>(short& v) { return _rdi(v); } basic_istream& operator>>(unsigned short& v) { return _rdi(v); } basic_istream& operator>>(int& v) { return _rdi(v); } basic_istream& operator>>(unsigned& v) { return _rdi(v); } basic_istream& operator>>(long& v) { return _rdi(v); } basic_istream& operator>>(unsigned long& v) { return _rdi(v); } basic_istream& operator>>(long long& v) { return _rdi(v); } basic_istream& operator>>(unsigned long long& v) { return _rdi(v); }
    basic_istream& operator>>(double& v) { if (!_prep()) { v=0; return *this; } char b[64]; int n=0; auto c=this->_b->sgetc(); bool e=false,dot=false; while (n<63 && !T::eq_int_type(c,T::eof()) && ((c>='0'&&c<='9')||((c=='-'||c=='+')&&(n==0||b[n-1]=='e'||b[n-1]=='E'))||(c=='.'&&!dot&&!e)||((c=='e'||c=='E')&&!e&&n>0))) { if (c=='.') dot=true; if (c=='e'||c=='E') e=true; b[n++]=(char)c; c=this->_b->snextc(); } b[n]=0; if (T::eq_int_type(c,T::eof())) this->setstate(ios_base::eofbit); char* q; v=strtod(b,&q); if (q==b || *q) { this->setstate(ios_base::failbit); if (q==b) v=0; } return *this; }
    basic_istream& operator>>(float& v) { double d; *this>>d; v=(float)d; return *this; } basic_istream& operator>>(long double& v) { double d; *this>>d; v=d; return *this; }
    basic_istream& operator>>(basic_istream&(*f)(basic_istream&)) { return f(*this); } basic_istream& operator>>(ios_base&(*f)(ios_base&)) { f(*this); return *this; } basic_istream& operator>>(basic_ios<C,T>&(*f)(basic_ios<C,T>&)) { f(*this); return *this; }
    bool _wsprep() { return _prep(); }
  };
  template<class C,class T> basic_istream<C,T>& operator>>(basic_istream<C,T>& i, C& c) { if (i._wsprep()) c=T::to_char_type(i.rdbuf()->sbumpc()); return i; }
  template<class C,class T> basic_istream<C,T>& ws(basic_istream<C,T>& i) { auto c=i.rdbuf()->sgetc(); while (!T::eq_int_type(c,T::eof()) && (c==' '||(c>=9&&c<=13))) c=i.rdbuf()->snextc(); if (T::eq_int_type(c,T::eof())) i.setstate(ios_base::eofbit); return i; }
  template<> inline basic_istream<char>& getline(basic_istream<char>& i, basic_string<char>& s, char d) { typedef char_traits<char> T; if (!i.good()) { i.setstate(ios_base::failbit); return i; } s.clear(); /* not cleared when the stream is not good */ bool any=false; for (;;) { auto c=T::eof(); try { c=i.rdbuf()->sbumpc(); } catch (...) { i._M_setstate(ios_base::badbit); if (i.exceptions()&ios_base::badbit) throw; if (!any) i.setstate(ios_base::failbit); break; } if (T::eq_int_type(c,T::eof())) { i.setstate(any?ios_base::eofbit:ios_base::eofbit|ios_base::failbit); break; } any=true; if (T::to_char_type(c)==d) break; s.push_back(T::to_char_type(c)); } return i; }
  template<> inline basic_istream<char>& operator>>(basic_istream<char>& i, basic_string<char>& s) { typedef char_traits<char> T; if (!i._wsprep()) return i; s.clear(); streamsize w=i.width(0); for (;;) { auto c=i.rdbuf()->sgetc(); if (T::eq_int_type(c,T::eof())) { i.setstate(ios_base::eofbit); break; } if (c==' '||(c>=9&&c<=13)) break; s.push_back(T::to_char_type(c)); i.rdbuf()->sbumpc(); if (w>0 && (streamsize)s.size()>=w) break; } if (s.empty()) i.setstate(ios_base::failbit); return i; }
  template<class I,class V> typename enable_if<!is_lvalue_reference<I>::value && is_base_of<ios_base,I>::value, I&&>::type operator>>(I&& i, V&& v) { i>>v; return std::move(i); }
  template<class C,class T> class basic_iostream : public basic_istream<C,T>, public basic_ostream<C,T> { public: explicit basic_iostream(basic_streambuf<C,T>* b) { this->init(b); } virtual ~basic_iostream() {} protected: basic_iostream() {} };

_GLIBCXX_BEGIN_NAMESPACE_CXX11
  template<class C,class T,class A> class basic_stringbuf : public basic_streambuf<C,T> {
    basic_string<C,T,A> _s; size_t _gp=0; ios_base::openmode _m;
    typedef typename T::int_type I; typedef typename T::pos_type P; typedef typename T::off_type OFF;
  public:
    explicit basic_stringbuf(ios_base::openmode m=ios_base::in|ios_base::out) : _m(m) {} explicit basic_stringbuf(const basic_string<C,T,A>& s, ios_base::openmode m=ios_base::in|ios_base::out) : _s(s), _m(m) {}
    basic_string<C,T,A> str() const { return _s; } void str(const basic_string<C,T,A>& s) { _s=s; _gp=0; _pos=0; _sync(); } 
    size_t _pos=0;
  protected:
    void _sync() { this->setg(nullptr,nullptr,nullptr); }
    size_t _cur() const { return this->gptr()? _gp+(this->gptr()-this->eback()) : _gp; }
    I underflow() override { _gp=_cur(); this->setg(nullptr,nullptr,nullptr); if (_gp<_s.size()) { C* b=&_s[0]; size_t k=_gp; _gp=0; this->setg(b,b+k,b+_s.size()); return T::to_int_type(b[k]); } return T::eof(); }
    I pbackfail(I c) override { size_t k=_cur(); if (k==0) return T::eof(); k--; C* b=&_s[0]; if (!T::eq_int_type(c,T::eof())) { if (b[k]!=T::to_char_type(c)) { if (!(_m&ios_base::out)) return T::eof(); b[k]=T::to_char_type(c); } } _gp=0; this->setg(b,b+k,b+_s.size()); return T::to_int_type(b[k]); }
    I overflow(I c) override { if (T::eq_int_type(c,T::eof())) return T::not_eof(c); _gp=_cur(); _sync(); C k=T::to_char_type(c); xsputn(&k,1); return c; }
    streamsize xsputn(const C* s, streamsize n) override { _gp=_cur(); _sync(); if (_pos==_s.size() || (_m&ios_base::app)) { _s.append(s,(size_t)n); _pos=_s.size(); } else { for (streamsize i=0;i<n;i++) { if (_pos<_s.size()) _s[_pos]=s[i]; else _s.push_back(s[i]); _pos++; } } return n; }
    P seekoff(OFF o, ios_base::seekdir d, ios_base::openmode m) override { OFF base= d==ios_base::beg?0 : d==ios_base::end? (OFF)_s.size() : (m&ios_base::in)? (OFF)_cur() : (OFF)_pos; OFF t=base+o; if (t<0||t>(OFF)_s.size()) return P(OFF(-1)); if (m&ios_base::in) { _sync(); _gp=(size_t)t; } if ((m&ios_base::out)&&!(m&ios_base::in)) _pos=(size_t)t; return P(t); }
    P seekpos(P p, ios_base::openmode m) override { return seekoff(OFF(p),ios_base::beg,m); }
    streamsize showmanyc() override { return (streamsize)(_s.size()-_cur()); }
  public:
    void _ate() { _pos=_s.size(); }
  };
  template<class C,class T,class A> class basic_ostringstream : public basic_ostream<C,T> { basic_stringbuf<C,T,A> _sb; public: typedef basic_string<C,T,A> S; explicit basic_ostringstream(ios_base::openmode m=ios_base::out) : _sb(m|ios_base::out) { this->init(&_sb); } explicit basic_ostringstream(const S& s, ios_base::openmode m=ios_base::out) : _sb(s,m|ios_base::out) { if (m&(ios_base::ate|ios_base::app)) _sb._ate(); this->init(&_sb); } S str() const { return _sb.str(); } void str(const S& s) { _sb.str(s); } basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&_sb); } };
  template<class C,class T,class A> class basic_istringstream : public basic_istream<C,T> { basic_stringbuf<C,T,A> _sb; public: typedef basic_string<C,T,A> S; explicit basic_istringstream(ios_base::openmode m=ios_base::in) : _sb(m|ios_base::in) { this->init(&_sb); } explicit basic_istringstream(const S& s, ios_base::openmode m=ios_base::in) : _sb(s,m|ios_base::in) { this->init(&_sb); } S str() const { return _sb.str(); } void str(const S& s) { _sb.str(s); } basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&_sb); } };
  template<class C,class T,class A> class basic_stringstream : public basic_iostream<C,T> { basic_stringbuf<C,T,A> _sb; public: typedef basic_string<C,T,A> S; explicit basic_stringstream(ios_base::openmode m=ios_base::in|ios_base::out) : _sb(m) { this->init(&_sb); } explicit basic_stringstream(const S& s, ios_base::openmode m=ios_base::in|ios_base::out) : _sb(s,m) { if (m&(ios_base::ate|ios_base::app)) _sb._ate(); this->init(&_sb); } S str() const { return _sb.str(); } void str(const S& s) { _sb.str(s); } basic_stringbuf<C,T,A>* rdbuf() const { return const_cast<basic_stringbuf<C,T,A>*>(&_sb); } };
_GLIBCXX_END_NAMESPACE_CXX11
  // files never open in the model
  // files: only those declared by a harness (harness/files.hh) exist; fail is the position where reading fails (-1: never)
  struct _GcFile { const char* name; const char* data; long n, fail; }; inline _GcFile _gcfiles[8]; inline int _gcnfiles = 0;
  inline _GcFile* _gcfind(const char* name) { for (int k=0;k<_gcnfiles;k++) if (strcmp(_gcfiles[k].name,name)==0) return &_gcfiles[k]; return nullptr; }
  template<class C,class T> class basic_filebuf : public basic_streambuf<C,T> { _GcFile* _fl=nullptr; C* _d=nullptr; long _p=0; typedef typename T::pos_type P; typedef typename T::off_type OFF;
    long _cur() const { return this->gptr()? _p+(this->gptr()-this->eback()) : _p; } long _end() const { return _fl->fail>=0&&_fl->fail<_fl->n? _fl->fail : _fl->n; }
  public: ~basic_filebuf() { close(); } bool is_open() const { return _fl!=nullptr; } basic_filebuf* open(const string& n, ios_base::openmode m) { return open(n.c_str(),m); }
    basic_filebuf* open(const char* name, ios_base::openmode m) { if (_fl || (m&ios_base::out)) return nullptr; _fl=_gcfind(name); if (!_fl) return nullptr; _d=new C[_fl->n+1]; for (long k=0;k<_fl->n;k++) _d[k]=(C)_fl->data[k]; _p= (m&ios_base::ate)? _fl->n : 0; this->setg(nullptr,nullptr,nullptr); return this; }
    basic_filebuf* close() { if (!_fl) return nullptr; delete[] _d; _d=nullptr; _fl=nullptr; this->setg(nullptr,nullptr,nullptr); return this; }
  protected:
    typename T::int_type underflow() override { if (!_fl) return T::eof(); _p=_cur(); this->setg(nullptr,nullptr,nullptr); if (_p<_end()) { this->setg(_d+_p,_d+_p,_d+_end()); return T::to_int_type(_d[_p]); } if (_fl->fail>=0 && _p>=_fl->fail) throw ios_base::failure("basic_filebuf::underflow error reading the file"); return T::eof(); }
    typename T::int_type pbackfail(typename T::int_type c) override { if (!_fl) return T::eof(); long k=_cur(); if (k==0) return T::eof(); --k; if (!T::eq_int_type(c,T::eof()) && _d[k]!=T::to_char_type(c)) return T::eof(); _p=k; this->setg(_d+k,_d+k,_d+_end()); return T::to_int_type(_d[k]); }
    P seekoff(OFF o, ios_base::seekdir d, ios_base::openmode) override { if (!_fl) return P(OFF(-1)); OFF t= o + (d==ios_base::beg? 0 : d==ios_base::end? (OFF)_fl->n : (OFF)_cur()); if (t<0) return P(OFF(-1)); this->setg(nullptr,nullptr,nullptr); _p=t; return P(t); }
    P seekpos(P p, ios_base::openmode m) override { return seekoff(OFF(p),ios_base::beg,m); }
    streamsize showmanyc() override { return _fl? _end()-_cur() : -1; }
  };
#define GCSHIM_F(NAME,BASE,DEF) template<class C,class T> class NAME : public BASE<C,T> { basic_filebuf<C,T> _fb; public: NAME() { this->init(&_fb); } explicit NAME(const char* n, ios_base::openmode m=DEF) { this->init(&_fb); open(n,m); } explicit NAME(const string& n, ios_base::openmode m=DEF) { this->init(&_fb); open(n,m); } bool is_open() const { return _fb.is_open(); } void open(const char* n, ios_base::openmode m=DEF) { if (_fb.open(n,m|DEF)) this->clear(); else this->setstate(ios_base::failbit); } void open(const string& n, ios_base::openmode m=DEF) { open(n.c_str(),m); } void close() { if (!_fb.close()) this->setstate(ios_base::failbit); } basic_filebuf<C,T>* rdbuf() const { return const_cast<basic_filebuf<C,T>*>(&_fb); } };
  GCSHIM_F(basic_ifstream,basic_istream,ios_base::in) GCSHIM_F(basic_ofstream,basic_ostream,ios_base::out) GCSHIM_F(basic_fstream,basic_iostream,(ios_base::in|ios_base::out))
#undef GCSHIM_F
  extern ostream cout, cerr, clog; extern istream cin;
  // manipulators
  struct _Setw { int n; }; inline _Setw setw(int n) { return {n}; } struct _Setprecision { int n; }; inline _Setprecision setprecision(int n) { return {n}; } template<class C> struct _Setfill { C c; }; template<class C> _Setfill<C> setfill(C c) { return {c}; } struct _Setbase { int n; }; inline _Setbase setbase(int n) { return {n}; } struct _Setiosflags { ios_base::fmtflags f; }; inline _Setiosflags setiosflags(ios_base::fmtflags f) { return {f}; } struct _Resetiosflags { ios_base::fmtflags f; }; inline _Resetiosflags resetiosflags(ios_base::fmtflags f) { return {f}; }
  template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o,_Setw w) { o.width(w.n); return o; } template<class C,class T> basic_istream<C,T>& operator>>(basic_istream<C,T>& o,_Setw w) { o.width(w.n); return o; } template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o,_Setprecision w) { o.precision(w.n); return o; } template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o,_Setfill<C> w) { o.fill(w.c); return o; }
  template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o,_Setbase w) { o.setf(w.n==16?ios_base::hex:w.n==8?ios_base::oct:ios_base::dec,ios_base::basefield); return o; } template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o,_Setiosflags w) { o.setf(w.f); return o; } template<class C,class T> basic_ostream<C,T>& operator<<(basic_ostream<C,T>& o,_Resetiosflags w) { o.unsetf(w.f); return o; }
  template<class S> struct _Quoted { S s; char d,e; }; inline _Quoted<const string&> quoted(const string& s,char d='"',char e='\\') { return {s,d,e}; } inline _Quoted<const char*> quoted(const char* s,char d='"',char e='\\') { return {s,d,e}; }
  template<class T,class S> basic_ostream<char,T>& operator<<(basic_ostream<char,T>& o,const _Quoted<S>& q) { string r; r+=q.d; for (char c: string(q.s)) { if (c==q.d||c==q.e) r+=q.e; r+=c; } r+=q.d; return o<<r; }
}
#include <algorithm>
#include <memory>
#include <iterator>
#include <functional>
#include <utility>
#include <vector>
#include <map>
