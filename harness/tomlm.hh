#pragma once
// what a container written as TOML denotes when read back (oracle)
#include "num.hh"
static M const NOPE = []{ M m; m.t = T::NOTYPE; return m; }();
inline M tInt( int64_t v ) { M m; if ( v >= -2147483648ll && v <= 2147483647ll ) { m.t = T::INTEGER; m.i = int32_t(v); } else { m.t = T::LONG; m.l = v; } return m; }
inline M tReal( double v ) { M m; m.t = T::REAL; m.r = v; return m; }
inline M tStr( std::string const & s ) { M m; m.t = T::STRING; m.s = s; return m; }
inline std::string ptrText( void * p ) { std::ostringstream o; o << p; return o.str(); }
// an array of already normalised elements
inline M tArr( std::vector<M> const & e ) {
  M r; bool s = true, i = true, f = true; for ( auto const & x : e ) { if ( x.t != T::STRING ) s = false; if ( x.t != T::INTEGER && x.t != T::LONG ) i = false; if ( x.t != T::REAL ) f = false; }
  if ( s ) { r.t = T::VEC_STRING; for ( auto const & x : e ) r.vs.push_back( x.s ); return r; } // an empty array too
  if ( i ) { bool l = false; for ( auto const & x : e ) if ( x.t == T::LONG ) l = true; if ( l ) { r.t = T::VEC_LONG; for ( auto const & x : e ) r.vl.push_back( x.t == T::LONG ? x.l : x.i ); } else { r.t = T::VEC_INTEGER; for ( auto const & x : e ) r.vi.push_back( x.i ); } return r; }
  if ( f ) { r.t = T::VEC_REAL; for ( auto const & x : e ) r.vr.push_back( x.r ); return r; }
  r.t = T::VECTOR; r.v = e; return col( r );
}
inline M tMat( char const * tag, M const & m, std::vector<M> const & data, std::vector<M> const * im = nullptr ) {
  M b; b.t = T::MAP; b.m.push_back( { "$nrows", tInt( m.nr ) } ); b.m.push_back( { "$ncols", tInt( m.nc ) } );
  if ( im ) { b.m.push_back( { "$data_real", tArr( data ) } ); b.m.push_back( { "$data_imag", tArr( *im ) } ); } else b.m.push_back( { "$data", tArr( data ) } );
  M o; o.t = T::MAP; o.m.push_back( { tag, b } ); return o;
}
inline M tNorm( M const & m, bool & bad ) {
  std::vector<M> e, f;
  switch ( m.t ) {
  case T::NOTYPE: bad = true; return m;
  case T::POINTER: return tStr( ptrText( m.p ) );
  case T::BOOL: case T::REAL: case T::STRING: return m;
  case T::INTEGER: return tInt( m.i );
  case T::LONG: return tInt( m.l );
  case T::COMPLEX: return tArr( { tReal( m.r ), tReal( m.im ) } );
  case T::VEC_POINTER: for ( auto x : m.vp ) e.push_back( tStr( ptrText( x ) ) ); return tArr( e );
  case T::VEC_BOOL: for ( auto x : m.vb ) { M b; b.t = T::BOOL; b.b = x != 0; e.push_back( b ); } return tArr( e );
  case T::VEC_INTEGER: for ( auto x : m.vi ) e.push_back( tInt( x ) ); return tArr( e );
  case T::VEC_LONG: for ( auto x : m.vl ) e.push_back( tInt( x ) ); return tArr( e );
  case T::VEC_REAL: for ( auto x : m.vr ) e.push_back( tReal( x ) ); return tArr( e );
  case T::VEC_COMPLEX: for ( auto x : m.vc ) e.push_back( tArr( { tReal( x.real() ), tReal( x.imag() ) } ) ); return tArr( e );
  case T::VEC_STRING: for ( auto const & x : m.vs ) e.push_back( tStr( x ) ); return tArr( e );
  case T::MAT_INTEGER: for ( auto x : m.vi ) e.push_back( tInt( x ) ); return tMat( "$mat_integer", m, e );
  case T::MAT_LONG: for ( auto x : m.vl ) e.push_back( tInt( x ) ); return tMat( "$mat_long", m, e );
  case T::MAT_REAL: for ( auto x : m.vr ) e.push_back( tReal( x ) ); return tMat( "$mat_real", m, e );
  case T::MAT_COMPLEX: for ( auto x : m.vc ) { e.push_back( tReal( x.real() ) ); f.push_back( tReal( x.imag() ) ); } return tMat( "$mat_complex", m, e, &f );
  case T::VECTOR: for ( auto const & x : m.v ) e.push_back( tNorm( x, bad ) ); return tArr( e );
  case T::MAP: { M o; o.t = T::MAP; for ( auto const & x : m.m ) o.m.push_back( { x.first, tNorm( x.second, bad ) } ); return o; }
  }
  return m;
}
