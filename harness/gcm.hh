#pragma once
// Shadow model of a GenericContainer: an independent, plain representation of type and content, with
//   make()  arbitrary (symbolic) content of a given type and size,
//   build() store it through the public setters,
//   same()  assert that a container holds exactly this type and content (bit-exact).
#include "GenericContainer/GenericContainer.hh"
#include "sym.h"
#include <string>
#include <vector>
#include <map>
#include <sstream>
#include <cstring>
using namespace GC_namespace;
typedef GenericContainer G;
typedef GC_type T;
typedef std::complex<double> C;

struct M {
  T t = T::NOTYPE;
  void * p = nullptr; bool b = false; int32_t i = 0; int64_t l = 0; double r = 0, im = 0; std::string s;
  std::vector<void*> vp; std::vector<char> vb; std::vector<int32_t> vi; std::vector<int64_t> vl; std::vector<double> vr; std::vector<C> vc; std::vector<std::string> vs;
  unsigned nr = 0, nc = 0;
  std::vector<M> v;
  std::vector<std::pair<std::string,M>> m; // unique keys, any order
};

inline bool   sbool( char const * n ) { return (sym<unsigned char>( n ) & 1) != 0; }
inline std::string sstr( unsigned len, char const * n ) { std::string s( len, 'x' ); if ( len ) sym_bytes( &s[0], len, n ); return s; }
inline bool   isScalar( T t ) { return t >= T::POINTER && t <= T::STRING; }
inline bool   isVec( T t ) { return t >= T::VEC_POINTER && t <= T::VEC_STRING; }
inline bool   isMat( T t ) { return t >= T::MAT_INTEGER && t <= T::MAT_COMPLEX; }
inline T      anyType( char const * n ) { return static_cast<T>( sym_choose( 21, n ) ); }

// lengths of strings cross the small-string boundary (15) and include empty; the long ones have three symbolic bytes
inline unsigned slen( unsigned k ) { static unsigned const L[] = { 0, 1, 3, 17 }; return k < 4 ? L[k] : k; }
// sizes: 0 .. nb-1 and then large ones; large contents hold distinct concrete values with three symbolic elements
#ifndef BIGS
#define BIGS 9, 34, 270
#endif
inline unsigned pick( int nb, char const * n ) { static unsigned const B[] = { BIGS }; int k = sym_choose( nb + int(sizeof(B)/sizeof(B[0])), n ); return k < nb ? unsigned(k) : B[k-nb]; }
inline unsigned pick2( unsigned n1, int nb, char const * n ) { return n1 > 4 ? 1u + unsigned(sym_choose( 2, n )) : pick( nb, n ); } // second dimension of a matrix
inline bool & conc() { static bool c = false; return c; } // concrete content wanted
inline bool at3( unsigned k, unsigned n ) { return !conc() && ( n <= 4 || k == 0 || k == n/2 || k == n-1 ); }
template <class X> inline X ev( char const * nm, unsigned k, unsigned n ) { if ( at3( k, n ) ) return sym<X>( nm ); return X( k*37u+11u ); }
template <> inline void * ev<void*>( char const * nm, unsigned k, unsigned n ) { if ( at3( k, n ) ) return sym<void*>( nm ); return reinterpret_cast<void*>( size_t(k)*64+16 ); }
inline bool eb( char const * nm, unsigned k, unsigned n ) { if ( at3( k, n ) ) return sbool( nm ); return ( k*k/3 ) & 1; }
inline std::string es( unsigned len, char const * nm ) { if ( len <= 17 && !conc() ) return sstr( len, nm ); std::string s( len, 'x' ); for ( unsigned k=0;k<len;++k ) s[k] = char( 'a' + k%23 ); if ( !conc() ) { std::string t = sstr( 3, nm ); s[0] = t[0]; s[len/2] = t[1]; s[len-1] = t[2]; } return s; }
inline C ec( char const * n1, char const * n2, unsigned k, unsigned n ) { double a = ev<double>( n1, k, n ), b = ev<double>( n2, k, n ); return C( a, b ); }
struct Conc { bool old; explicit Conc( bool c ) : old( conc() ) { conc() = old || c; } ~Conc() { conc() = old; } };

// n: elements of a vector / length selector of a string; matrices are n x n2
inline M make( T t, unsigned n, unsigned n2 = 2, unsigned strk = 1 ) {
  M m; m.t = t;
  switch ( t ) {
  case T::NOTYPE: break;
  case T::POINTER: m.p = ev<void*>("p",5,1); break;
  case T::BOOL: m.b = eb("b",5,1); break;
  case T::INTEGER: m.i = ev<int32_t>("i",5,1); break;
  case T::LONG: m.l = ev<int64_t>("l",5,1); break;
  case T::REAL: m.r = ev<double>("r",5,1); break;
  case T::COMPLEX: m.r = ev<double>("re",5,1); m.im = ev<double>("im",7,1); break;
  case T::STRING: m.s = es( slen(n), "s" ); break;
  case T::VEC_POINTER: for ( unsigned k=0;k<n;++k ) m.vp.push_back( ev<void*>("vp",k,n) ); break;
  case T::VEC_BOOL:    for ( unsigned k=0;k<n;++k ) m.vb.push_back( eb("vb",k,n) ); break;
  case T::VEC_INTEGER: for ( unsigned k=0;k<n;++k ) m.vi.push_back( ev<int32_t>("vi",k,n) ); break;
  case T::VEC_LONG:    for ( unsigned k=0;k<n;++k ) m.vl.push_back( ev<int64_t>("vl",k,n) ); break;
  case T::VEC_REAL:    for ( unsigned k=0;k<n;++k ) m.vr.push_back( ev<double>("vr",k,n) ); break;
  case T::VEC_COMPLEX: for ( unsigned k=0;k<n;++k ) m.vc.push_back( ec("vcr","vci",k,n) ); break;
  case T::VEC_STRING:  for ( unsigned k=0;k<n;++k ) { Conc z( n > 4 && !at3( k, n ) ); m.vs.push_back( es( slen((strk+k)%4), "vs" ) ); if ( conc() ) m.vs.back() += std::to_string( k ); } break;
  case T::MAT_INTEGER: m.nr=n; m.nc=n2; for ( unsigned k=0;k<n*n2;++k ) m.vi.push_back( ev<int32_t>("mi",k,n*n2) ); break;
  case T::MAT_LONG:    m.nr=n; m.nc=n2; for ( unsigned k=0;k<n*n2;++k ) m.vl.push_back( ev<int64_t>("ml",k,n*n2) ); break;
  case T::MAT_REAL:    m.nr=n; m.nc=n2; for ( unsigned k=0;k<n*n2;++k ) m.vr.push_back( ev<double>("mr",k,n*n2) ); break;
  case T::MAT_COMPLEX: m.nr=n; m.nc=n2; for ( unsigned k=0;k<n*n2;++k ) m.vc.push_back( ec("mcr","mci",k,n*n2) ); break;
  case T::VECTOR: // heterogeneous: int, string, real vector, ...
    for ( unsigned k=0;k<n;++k ) { static T const K[] = { T::INTEGER, T::STRING, T::VEC_REAL, T::COMPLEX }; Conc z( n > 4 && !at3( k, n ) ); m.v.push_back( make( K[k%4], 1, 1 ) ); }
    break;
  case T::MAP:
    for ( unsigned k=0;k<n;++k ) { static T const K[] = { T::REAL, T::STRING, T::VEC_INTEGER, T::BOOL }; static char const * KN[] = { "a", "bb", "c c", "d" }; Conc z( n > 4 && !at3( k, n ) );
      m.m.push_back( std::make_pair( k < 4 ? std::string(KN[k]) : "k" + std::to_string( k ), make( K[k%4], 1, 1 ) ) ); }
    break;
  }
  return m;
}

template <class MT,class V> inline void fillMat( MT & x, V const & v ) { for ( size_t k=0;k<v.size();++k ) x[k] = v[k]; }

inline void build( M const & m, G & g ) {
  switch ( m.t ) {
  case T::NOTYPE: g.clear(); break;
  case T::POINTER: g.set_pointer( m.p ); break;
  case T::BOOL: g.set_bool( m.b ); break;
  case T::INTEGER: g.set_int( m.i ); break;
  case T::LONG: g.set_long( m.l ); break;
  case T::REAL: g.set_real( m.r ); break;
  case T::COMPLEX: g.set_complex( m.r, m.im ); break;
  case T::STRING: g.set_string( m.s ); break;
  case T::VEC_POINTER: g.clear(); { auto & x = g.set_vec_pointer( unsigned(m.vp.size()) ); for ( size_t k=0;k<m.vp.size();++k ) x[k]=m.vp[k]; } break;
  case T::VEC_BOOL:    g.clear(); { auto & x = g.set_vec_bool( unsigned(m.vb.size()) ); for ( size_t k=0;k<m.vb.size();++k ) x[k]=m.vb[k]!=0; } break;
  case T::VEC_INTEGER: g.clear(); { auto & x = g.set_vec_int( unsigned(m.vi.size()) ); for ( size_t k=0;k<m.vi.size();++k ) x[k]=m.vi[k]; } break;
  case T::VEC_LONG:    g.clear(); { auto & x = g.set_vec_long( unsigned(m.vl.size()) ); for ( size_t k=0;k<m.vl.size();++k ) x[k]=m.vl[k]; } break;
  case T::VEC_REAL:    g.clear(); { auto & x = g.set_vec_real( unsigned(m.vr.size()) ); for ( size_t k=0;k<m.vr.size();++k ) x[k]=m.vr[k]; } break;
  case T::VEC_COMPLEX: g.clear(); { auto & x = g.set_vec_complex( unsigned(m.vc.size()) ); for ( size_t k=0;k<m.vc.size();++k ) x[k]=m.vc[k]; } break;
  case T::VEC_STRING:  g.clear(); { auto & x = g.set_vec_string( unsigned(m.vs.size()) ); for ( size_t k=0;k<m.vs.size();++k ) x[k]=m.vs[k]; } break;
  case T::MAT_INTEGER: g.clear(); fillMat( g.set_mat_int( m.nr, m.nc ), m.vi ); break;
  case T::MAT_LONG:    g.clear(); fillMat( g.set_mat_long( m.nr, m.nc ), m.vl ); break;
  case T::MAT_REAL:    g.clear(); fillMat( g.set_mat_real( m.nr, m.nc ), m.vr ); break;
  case T::MAT_COMPLEX: g.clear(); fillMat( g.set_mat_complex( m.nr, m.nc ), m.vc ); break;
  case T::VECTOR:      g.clear(); { auto & x = g.set_vector( unsigned(m.v.size()) ); for ( size_t k=0;k<m.v.size();++k ) build( m.v[k], x[k] ); } break;
  case T::MAP:         g.clear(); { auto & x = g.set_map(); for ( auto const & e : m.m ) build( e.second, x[e.first] ); } break;
  }
}

inline int deq( double a, double b ) { return sym_eq( &a, &b, 8 ); }
inline int ceq( C const & a, C const & b ) { return deq( a.real(), b.real() ) & deq( a.imag(), b.imag() ); }
inline int streq( std::string const & a, std::string const & b ) { return a.size() == b.size() && sym_eq( a.data(), b.data(), a.size() ); }
inline int sveq( string_view a, std::string const & b ) { return a.size() == b.size() && sym_eq( a.data(), b.data(), a.size() ); }

#define SAME(c) sym_assert( (c) ? 1 : 0, msg )
inline void same( G const & g, M const & m, char const * msg ) {
  SAME( g.get_type() == m.t );
  switch ( m.t ) {
  case T::NOTYPE: break;
  case T::POINTER: { void * p = g.get_pvoid(); SAME( p == m.p ); } break;
  case T::BOOL: SAME( g.get_bool() == m.b ); break;
  case T::INTEGER: SAME( g.get_int() == m.i ); break;
  case T::LONG: SAME( g.get_long() == m.l ); break;
  case T::REAL: SAME( deq( g.get_real(), m.r ) ); break;
  case T::COMPLEX: SAME( ceq( g.get_complex(), C(m.r,m.im) ) ); break;
  case T::STRING: SAME( sveq( g.get_string(), m.s ) ); break;
  case T::VEC_POINTER: { auto & x = g.get_vec_pointer(); SAME( x.size() == m.vp.size() ); for ( size_t k=0;k<m.vp.size();++k ) SAME( x[k] == m.vp[k] ); } break;
  case T::VEC_BOOL:    { auto & x = g.get_vec_bool(); SAME( x.size() == m.vb.size() ); for ( size_t k=0;k<m.vb.size();++k ) SAME( (bool)x[k] == (m.vb[k]!=0) ); } break;
  case T::VEC_INTEGER: { auto & x = g.get_vec_int(); SAME( x.size() == m.vi.size() ); for ( size_t k=0;k<m.vi.size();++k ) SAME( x[k] == m.vi[k] ); } break;
  case T::VEC_LONG:    { auto & x = g.get_vec_long(); SAME( x.size() == m.vl.size() ); for ( size_t k=0;k<m.vl.size();++k ) SAME( x[k] == m.vl[k] ); } break;
  case T::VEC_REAL:    { auto & x = g.get_vec_real(); SAME( x.size() == m.vr.size() ); for ( size_t k=0;k<m.vr.size();++k ) SAME( deq( x[k], m.vr[k] ) ); } break;
  case T::VEC_COMPLEX: { auto & x = g.get_vec_complex(); SAME( x.size() == m.vc.size() ); for ( size_t k=0;k<m.vc.size();++k ) SAME( ceq( x[k], m.vc[k] ) ); } break;
  case T::VEC_STRING:  { auto & x = g.get_vec_string(); SAME( x.size() == m.vs.size() ); for ( size_t k=0;k<m.vs.size();++k ) SAME( streq( x[k], m.vs[k] ) ); } break;
  case T::MAT_INTEGER: { auto & x = g.get_mat_int(); SAME( x.num_rows()==m.nr && x.num_cols()==m.nc && x.size() == m.vi.size() ); for ( size_t k=0;k<m.vi.size();++k ) SAME( x[k] == m.vi[k] ); } break;
  case T::MAT_LONG:    { auto & x = g.get_mat_long(); SAME( x.num_rows()==m.nr && x.num_cols()==m.nc && x.size() == m.vl.size() ); for ( size_t k=0;k<m.vl.size();++k ) SAME( x[k] == m.vl[k] ); } break;
  case T::MAT_REAL:    { auto & x = g.get_mat_real(); SAME( x.num_rows()==m.nr && x.num_cols()==m.nc && x.size() == m.vr.size() ); for ( size_t k=0;k<m.vr.size();++k ) SAME( deq( x[k], m.vr[k] ) ); } break;
  case T::MAT_COMPLEX: { auto & x = g.get_mat_complex(); SAME( x.num_rows()==m.nr && x.num_cols()==m.nc && x.size() == m.vc.size() ); for ( size_t k=0;k<m.vc.size();++k ) SAME( ceq( x[k], m.vc[k] ) ); } break;
  case T::VECTOR: { auto & x = g.get_vector(); SAME( x.size() == m.v.size() ); for ( size_t k=0;k<m.v.size();++k ) same( x[k], m.v[k], msg ); } break;
  case T::MAP: { auto & x = g.get_map(); SAME( x.size() == m.m.size() );
      for ( auto const & e : m.m ) { auto it = x.find( e.first ); SAME( it != x.end() ); if ( it != x.end() ) same( it->second, e.second, msg ); } } break;
  }
}

// the content of a container as a model (through the read-only accessors)
inline M readM( G const & g ) {
  M m; m.t = g.get_type();
  switch ( m.t ) {
  case T::NOTYPE: break;
  case T::POINTER: m.p = g.get_pvoid(); break;
  case T::BOOL: m.b = g.get_bool(); break;
  case T::INTEGER: m.i = g.get_int(); break;
  case T::LONG: m.l = g.get_long(); break;
  case T::REAL: m.r = g.get_real(); break;
  case T::COMPLEX: m.r = g.get_complex().real(); m.im = g.get_complex().imag(); break;
  case T::STRING: m.s = g.get_string(); break;
  case T::VEC_POINTER: for ( auto x : g.get_vec_pointer() ) m.vp.push_back( x ); break;
  case T::VEC_BOOL: for ( bool x : g.get_vec_bool() ) m.vb.push_back( x ); break;
  case T::VEC_INTEGER: m.vi = g.get_vec_int(); break;
  case T::VEC_LONG: m.vl = g.get_vec_long(); break;
  case T::VEC_REAL: m.vr = g.get_vec_real(); break;
  case T::VEC_COMPLEX: m.vc = g.get_vec_complex(); break;
  case T::VEC_STRING: m.vs = g.get_vec_string(); break;
  case T::MAT_INTEGER: { auto & x = g.get_mat_int(); m.nr = x.num_rows(); m.nc = x.num_cols(); m.vi = x; } break;
  case T::MAT_LONG: { auto & x = g.get_mat_long(); m.nr = x.num_rows(); m.nc = x.num_cols(); m.vl = x; } break;
  case T::MAT_REAL: { auto & x = g.get_mat_real(); m.nr = x.num_rows(); m.nc = x.num_cols(); m.vr = x; } break;
  case T::MAT_COMPLEX: { auto & x = g.get_mat_complex(); m.nr = x.num_rows(); m.nc = x.num_cols(); m.vc = x; } break;
  case T::VECTOR: for ( auto const & x : g.get_vector() ) m.v.push_back( readM( x ) ); break;
  case T::MAP: for ( auto const & x : g.get_map() ) m.m.push_back( { x.first, readM( x.second ) } ); break;
  }
  return m;
}

// 1 when f throws a std::exception, 0 when it returns
template <class F> inline int throws( F f ) { try { f(); } catch ( std::exception const & ) { return 1; } return 0; }

// one level deeper: containers of containers
inline unsigned & live() { static unsigned l = 9; return l; } // the part (0..4) of the many elements that is symbolic; 9: all
enum { NKINDS = 29 }; // 21 types and 8 nested shapes
inline M makeDeep( unsigned k ) {
  M m;
  if ( k == 0 ) { m.t = T::VECTOR; m.v.push_back( make( T::MAP, 2 ) ); m.v.push_back( make( T::VECTOR, 2 ) ); m.v.push_back( make( T::NOTYPE, 0 ) ); }
  else if ( k == 1 ) { m.t = T::MAP; m.m.push_back( { "x", make( T::VECTOR, 2 ) } ); m.m.push_back( { "y", make( T::MAP, 1 ) } ); m.m.push_back( { "", make( T::MAT_REAL, 2, 1 ) } ); }
  else if ( k == 2 ) { m.t = T::MAP; M in; in.t = T::MAP; in.m.push_back( { "q", make( T::VEC_STRING, 2 ) } ); in.m.push_back( { "r", make( T::VEC_POINTER, 2 ) } ); m.m.push_back( { "x", in } ); m.m.push_back( { "z", make( T::MAT_COMPLEX, 1, 1 ) } ); }
  else if ( k == 3 ) { m.t = T::VECTOR; M in; in.t = T::VECTOR; in.v.push_back( make( T::VEC_BOOL, 2 ) ); in.v.push_back( make( T::MAT_LONG, 1, 2 ) ); m.v.push_back( in ); m.v.push_back( make( T::VEC_LONG, 2 ) ); m.v.push_back( make( T::LONG, 0 ) ); m.v.push_back( make( T::MAT_INTEGER, 1, 1 ) ); m.v.push_back( make( T::POINTER, 1 ) ); }
  else if ( k == 4 || k == 5 ) { // 6 or 24 levels of vectors and maps, each with a second element before or after
    unsigned depth = k == 4 ? 6 : 24; m = make( T::VEC_COMPLEX, 2 );
    for ( unsigned d=0;d<depth;++d ) { M o, side; { Conc z( d != 1 ); side = make( d%3 ? T::INTEGER : T::VEC_LONG, 2 ); }
      if ( d%4 == 0 || d%4 == 3 ) { o.t = T::MAP; o.m.push_back( { d%8 ? "b" : "kid", m } ); o.m.push_back( { "c" + std::to_string( d ), side } ); } else { o.t = T::VECTOR; if ( d%4 == 1 ) o.v.push_back( side ); o.v.push_back( m ); if ( d%4 == 2 ) o.v.push_back( side ); } m = o; }
  } else if ( k == 6 ) { m.t = T::VECTOR; for ( int t=0;t<19;++t ) { Conc z( live() != 9 && live() != unsigned(t%5) ); m.v.push_back( make( T(t), 2, 1 ) ); } } // every type as element
  else { m.t = T::MAP; for ( int t=0;t<19;++t ) { Conc z( live() != 9 && live() != unsigned(t%5) ); m.m.push_back( { std::string( size_t(1+t%3), char('a'+t) ), make( T(t), 2, 1 ) } ); } } // and as entry
  return m;
}

// change, in place and through references, every leaf stored in g
inline void scramble( G & g ) {
  switch ( g.get_type() ) {
  case T::NOTYPE: g.set_int( 7 ); break;
  case T::POINTER: g.get_pointer<char*>() += 1; break;
  case T::BOOL: g.get_bool() = !g.get_bool(); break;
  case T::INTEGER: g.get_int() ^= 0x55; break;
  case T::LONG: g.get_long() ^= 0x55; break;
  case T::REAL: { uint64_t u; std::memcpy( &u, &g.get_real(), 8 ); u ^= 0x55; std::memcpy( &g.get_real(), &u, 8 ); } break;
  case T::COMPLEX: { uint64_t u[2]; std::memcpy( u, &g.get_complex(), 16 ); u[0] ^= 1; u[1] ^= 2; std::memcpy( (void*)&g.get_complex(), u, 16 ); } break;
  case T::STRING: { std::string & s = g.get_string(); for ( auto & c : s ) c ^= 1; s += "+"; } break;
  case T::VEC_POINTER: for ( auto & p : g.get_vec_pointer() ) p = (char*)p + 1; break;
  case T::VEC_BOOL: { auto & v = g.get_vec_bool(); for ( size_t k=0;k<v.size();++k ) v[k] = !v[k]; } break;
  case T::VEC_INTEGER: for ( auto & x : g.get_vec_int() ) x ^= 1; break;
  case T::VEC_LONG: for ( auto & x : g.get_vec_long() ) x ^= 1; break;
  case T::VEC_REAL: for ( auto & x : g.get_vec_real() ) { uint64_t u; std::memcpy( &u, &x, 8 ); u ^= 1; std::memcpy( &x, &u, 8 ); } break;
  case T::VEC_COMPLEX: for ( auto & x : g.get_vec_complex() ) { uint64_t u[2]; std::memcpy( u, &x, 16 ); u[0]^=1; u[1]^=1; std::memcpy( (void*)&x, u, 16 ); } break;
  case T::VEC_STRING: for ( auto & x : g.get_vec_string() ) { for ( auto & c : x ) c ^= 1; x += "+"; } break;
  case T::MAT_INTEGER: for ( auto & x : g.get_mat_int() ) x ^= 1; break;
  case T::MAT_LONG: for ( auto & x : g.get_mat_long() ) x ^= 1; break;
  case T::MAT_REAL: for ( auto & x : g.get_mat_real() ) { uint64_t u; std::memcpy( &u, &x, 8 ); u ^= 1; std::memcpy( &x, &u, 8 ); } break;
  case T::MAT_COMPLEX: for ( auto & x : g.get_mat_complex() ) { uint64_t u[2]; std::memcpy( u, &x, 16 ); u[0]^=1; u[1]^=1; std::memcpy( (void*)&x, u, 16 ); } break;
  case T::VECTOR: for ( auto & x : g.get_vector() ) scramble( x ); g.get_vector().resize( g.get_vector().size()+1 ); break;
  case T::MAP: for ( auto & x : g.get_map() ) scramble( x.second ); g["new key"] = 1; break;
  }
}

// any container of type t, or (t==NOTYPE slot beyond the enum) a deep one; kinds 0..20 flat types, 21..24 deep
inline M anyM( int kind, unsigned n, unsigned n2 ) { return kind < 21 ? make( static_cast<T>(kind), n, n2 ) : makeDeep( unsigned(kind-21) ); }
inline bool sizedKind( int kind ) { return kind == 7 || ( kind > 7 && kind < 21 ); }
