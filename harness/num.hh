#pragma once
// Oracle for numeric conversions: "exact, or refused".
#include "gcm.hh"
#include <cfloat>
#include <climits>
// a number below the smallest normal magnitude counts as zero (documented tolerance of the library)
inline bool tiny( double x ) { return x > -DBL_MIN && x < DBL_MIN; }
// IEEE-exact comparison of a double with the integer type's range
inline bool isInt( double x ) { return x == std::trunc( x ); } // false for NaN, true for inf
struct Num { bool numeric; bool isReal; int64_t l; double r, im; }; // value held by a scalar model
inline Num numOf( M const & m ) {
  switch ( m.t ) {
  case T::BOOL: return { true, false, m.b ? 1 : 0, 0, 0 };
  case T::INTEGER: return { true, false, m.i, 0, 0 };
  case T::LONG: return { true, false, m.l, 0, 0 };
  case T::REAL: return { true, true, 0, m.r, 0 };
  case T::COMPLEX: return { true, true, 0, m.r, m.im };
  default: return { false, false, 0, 0, 0 };
  }
}
// must the conversion succeed / with which exact value: lo,hi bounds as (double lo inclusive, double hi exclusive)
template <class I> struct Rng;
template <> struct Rng<int32_t>  { static bool inD( double x ) { return x >= -2147483648.0 && x < 2147483648.0; } static bool inL( int64_t x ) { return x >= INT32_MIN && x <= INT32_MAX; } };
template <> struct Rng<uint32_t> { static bool inD( double x ) { return x >= 0 && x < 4294967296.0; } static bool inL( int64_t x ) { return x >= 0 && x <= int64_t(UINT32_MAX); } };
template <> struct Rng<int64_t>  { static bool inD( double x ) { return x >= -9223372036854775808.0 && x < 9223372036854775808.0; } static bool inL( int64_t ) { return true; } };
template <> struct Rng<uint64_t> { static bool inD( double x ) { return x >= 0 && x < 18446744073709551616.0; } static bool inL( int64_t x ) { return x >= 0; } };
// ok: the conversion was performed and gave v
template <class I> inline void ckInt( Num const & q, bool ok, I v, char const * msg ) {
  if ( !q.numeric ) { sym_assert( !ok, msg ); return; }
  if ( !q.isReal ) {
    sym_assert( ok == Rng<I>::inL( q.l ), msg );
    if ( ok ) sym_assert( v == I(q.l), msg );
    return;
  }
  if ( ok ) {
    sym_assert( tiny( q.im ), msg );
    sym_assert( tiny( q.r ) ? v == 0 : Rng<I>::inD( q.r ) && double(v) == q.r, msg );
  } else
    sym_assert( !( q.im == 0 && Rng<I>::inD( q.r ) && isInt( q.r ) ), msg );
}
inline void ckReal( Num const & q, bool ok, double v, char const * msg, bool complexOk ) {
  if ( !q.numeric ) { sym_assert( !ok, msg ); return; }
  if ( !q.isReal ) { sym_assert( ok && v == double(q.l), msg ); return; }
  if ( ok ) sym_assert( complexOk ? tiny( q.im ) && deq( v, q.r ) : deq( v, q.r ), msg );
  else      sym_assert( !( q.im == 0 ), msg );
}
inline void ckCplx( Num const & q, bool ok, double re, double im, char const * msg ) {
  if ( !q.numeric ) { sym_assert( !ok, msg ); return; }
  if ( !q.isReal ) sym_assert( ok && re == double(q.l) && im == 0, msg );
  else sym_assert( ok && deq( re, q.r ) && deq( im, q.im ), msg );
}

// numeric content of any scalar / vector / matrix model, element by element (column major)
inline bool numeric( T t ) { return ( t >= T::BOOL && t <= T::COMPLEX ) || ( t >= T::VEC_BOOL && t <= T::VEC_COMPLEX ) || isMat( t ); }
inline std::vector<Num> numsOf( M const & m ) {
  std::vector<Num> o;
  if ( m.t >= T::BOOL && m.t <= T::COMPLEX ) o.push_back( numOf( m ) );
  else if ( m.t == T::VEC_BOOL ) for ( char b : m.vb ) o.push_back( { true, false, b ? 1 : 0, 0, 0 } );
  else if ( m.t == T::VEC_INTEGER || m.t == T::MAT_INTEGER ) for ( int32_t x : m.vi ) o.push_back( { true, false, x, 0, 0 } );
  else if ( m.t == T::VEC_LONG || m.t == T::MAT_LONG ) for ( int64_t x : m.vl ) o.push_back( { true, false, x, 0, 0 } );
  else if ( m.t == T::VEC_REAL || m.t == T::MAT_REAL ) for ( double x : m.vr ) o.push_back( { true, true, 0, x, 0 } );
  else if ( m.t == T::VEC_COMPLEX || m.t == T::MAT_COMPLEX ) for ( C const & x : m.vc ) o.push_back( { true, true, 0, x.real(), x.imag() } );
  return o;
}
// element class of a numeric type: 0 bool 1 int 2 long 3 real 4 complex
inline int elemClass( T t ) {
  switch ( t ) { case T::BOOL: case T::VEC_BOOL: return 0; case T::INTEGER: case T::VEC_INTEGER: case T::MAT_INTEGER: return 1; case T::LONG: case T::VEC_LONG: case T::MAT_LONG: return 2; case T::REAL: case T::VEC_REAL: case T::MAT_REAL: return 3; case T::COMPLEX: case T::VEC_COMPLEX: case T::MAT_COMPLEX: return 4; default: return -1; }
}
inline T withClass( int shape, int cls ) { // shape 0 scalar 1 vector 2 matrix
  static T const S[3][5] = { { T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX }, { T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX }, { T::NOTYPE, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX } };
  return S[shape][cls];
}
// the model of the value-preserving widening of m to the numeric type t (vectors become one-column matrices)
inline M widened( M const & m, T t ) {
  M o; o.t = t; std::vector<Num> q = m.t == T::NOTYPE ? std::vector<Num>( 1, Num{ true, false, 0, 0, 0 } ) : numsOf( m );
  if ( isMat( t ) ) { if ( isMat( m.t ) ) { o.nr = m.nr; o.nc = m.nc; } else { o.nr = unsigned(q.size()); o.nc = 1; } }
  for ( Num const & x : q ) {
    double r = x.isReal ? x.r : double( x.l );
    switch ( elemClass( t ) ) {
    case 0: o.b = x.l != 0; o.vb.push_back( x.l != 0 ); break;
    case 1: o.i = int32_t(x.l); o.vi.push_back( int32_t(x.l) ); break;
    case 2: o.l = x.l; o.vl.push_back( x.l ); break;
    case 3: o.r = r; o.vr.push_back( r ); break;
    case 4: o.r = r; o.im = x.im; o.vc.push_back( C( r, x.im ) ); break;
    }
  }
  return o;
}
// the vector of containers holding the same elements
inline M spread( M const & m ) {
  if ( m.t == T::VECTOR ) return m;
  M o; o.t = T::VECTOR; M e; 
  if ( m.t == T::NOTYPE || isScalar( m.t ) ) { o.v.push_back( m ); return o; }
  for ( auto x : m.vp ) { e = M(); e.t = T::POINTER; e.p = x; o.v.push_back( e ); }
  for ( auto x : m.vb ) { e = M(); e.t = T::BOOL; e.b = x != 0; o.v.push_back( e ); }
  for ( auto x : m.vi ) { e = M(); e.t = T::INTEGER; e.i = x; o.v.push_back( e ); }
  for ( auto x : m.vl ) { e = M(); e.t = T::LONG; e.l = x; o.v.push_back( e ); }
  for ( auto x : m.vr ) { e = M(); e.t = T::REAL; e.r = x; o.v.push_back( e ); }
  for ( auto x : m.vc ) { e = M(); e.t = T::COMPLEX; e.r = x.real(); e.im = x.imag(); o.v.push_back( e ); }
  for ( auto const & x : m.vs ) { e = M(); e.t = T::STRING; e.s = x; o.v.push_back( e ); }
  return o;
}
// what collapse() must give (oracle): vectors of scalars -> typed vector, vectors of equally long numeric vectors -> matrix, else unchanged
inline M col( M const & m ) {
  if ( m.t == T::MAP ) { M o = m; for ( auto & e : o.m ) e.second = col( e.second ); return o; }
  if ( m.t != T::VECTOR || m.v.empty() ) return m;
  M o = m; for ( auto & e : o.v ) e = col( e );
  bool str = true, sc = true, ve = true; int k = 0; size_t len = 0; bool first = true;
  for ( auto const & e : o.v ) {
    if ( e.t != T::STRING ) str = false;
    if ( !( isScalar( e.t ) && numeric( e.t ) ) ) sc = false;
    if ( !( isVec( e.t ) && numeric( e.t ) ) ) ve = false;
    if ( elemClass( e.t ) > k ) k = elemClass( e.t );
    if ( ve ) { size_t q = numsOf( e ).size(); if ( !first && q != len ) ve = false; len = q; }
    first = false;
  }
  M r;
  if ( str ) { r.t = T::VEC_STRING; for ( auto const & e : o.v ) r.vs.push_back( e.s ); sym_cover( "strings" ); return r; }
  if ( !sc && !( ve && k >= 1 ) ) { sym_cover( "kept" ); return o; }
  r.t = withClass( sc ? 1 : 2, k );
  for ( auto const & e : o.v ) { M w = widened( e, withClass( sc ? 0 : 1, k ) ); if ( sc && k == 0 ) r.vb.push_back( w.vb[0] ); r.vi.insert( r.vi.end(), w.vi.begin(), w.vi.end() ); r.vl.insert( r.vl.end(), w.vl.begin(), w.vl.end() ); r.vr.insert( r.vr.end(), w.vr.begin(), w.vr.end() ); r.vc.insert( r.vc.end(), w.vc.begin(), w.vc.end() ); }
  if ( !sc ) { r.nr = unsigned(len); r.nc = unsigned(o.v.size()); sym_cover( "mat" ); } else sym_cover( "vec" );
  return r;
}
