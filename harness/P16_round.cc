//@ modules: core yaml
//@ split: 35
//@ bounds: any type at top level, or as the value of a map entry beside a second entry (vectors 0..2, thorough 0..3, and 9, 34, thorough 130, elements; matrices 0..2 x 0..2 and 9, 34 x 1..2; strings also of 40 and 300 bytes with an arbitrary one in the middle), nested maps / vectors of depth 3, 6 and 20 in four forms, maps and vectors with an element of every type; 81 words that look like other values as key, string and element; strings and keys of 0..1 (thorough 0..3) arbitrary ASCII bytes, also one arbitrary byte beside one of 6 special characters; booleans symbolic, numbers concrete (incl. infinities and NaN)
//@ quick: -DNB=3 -DNS=3 -DPAIRS -DBIGS=9,34 time=100
//@ thorough: -DNB=4 -DNS=4 -DBIGS=9,34,130 time=850
//@ covers: done key word deep
#include "txtm.hh"
static M null_() { return M(); }
static M cstr( C const & c ) { std::ostringstream o; o.precision( 12 ); o << c.real(); if ( c.imag() > 0 ) o << '+' << c.imag() << 'i'; if ( c.imag() < 0 ) o << '-' << -c.imag() << 'i'; M m; m.t = T::STRING; m.s = o.str(); return m; }
static M num( int64_t v ) { M m; if ( v >= -2147483648ll && v <= 2147483647ll ) { m.t = T::INTEGER; m.i = int32_t(v); } else { m.t = T::LONG; m.l = v; } return m; }
static M rl( double v ) { M m; m.t = T::REAL; m.r = v; if ( v == 3.0 || v == -2.0 ) m = num( int64_t(v) ); return m; } // printed without a point
static M seq( std::vector<M> const & e ) { M r; r.t = T::VECTOR; r.v = e; return col( r ); }
template <class F> static M cols( M const & m, F f ) { std::vector<M> c; for ( unsigned j=0;j<m.nc;++j ) { std::vector<M> e; for ( unsigned i=0;i<m.nr;++i ) e.push_back( f( i+j*m.nr ) ); c.push_back( seq( e ) ); } return c.empty() ? null_() : seq( c ); }
static M norm( M const & m ) {
  std::vector<M> e;
  switch ( m.t ) {
  case T::NOTYPE: case T::BOOL: case T::STRING: return m;
  case T::POINTER: return num( int64_t( reinterpret_cast<uintptr_t>( m.p ) ) );
  case T::INTEGER: return num( m.i ); case T::LONG: return num( m.l ); case T::REAL: return rl( m.r ); case T::COMPLEX: return cstr( C(m.r,m.im) );
  case T::VEC_POINTER: for ( auto x : m.vp ) e.push_back( num( int64_t( reinterpret_cast<uintptr_t>( x ) ) ) ); return e.empty() ? null_() : seq( e );
  case T::VEC_BOOL: for ( auto x : m.vb ) { M b; b.t = T::BOOL; b.b = x != 0; e.push_back( b ); } return seq( e );
  case T::VEC_INTEGER: for ( auto x : m.vi ) e.push_back( num( x ) ); return seq( e );
  case T::VEC_LONG: for ( auto x : m.vl ) e.push_back( num( x ) ); return seq( e );
  case T::VEC_REAL: for ( auto x : m.vr ) e.push_back( rl( x ) ); return seq( e );
  case T::VEC_COMPLEX: for ( auto const & x : m.vc ) e.push_back( cstr( x ) ); return seq( e );
  case T::VEC_STRING: for ( auto const & x : m.vs ) { M s; s.t = T::STRING; s.s = x; e.push_back( s ); } return seq( e );
  case T::MAT_INTEGER: return cols( m, [&]( unsigned k ){ return num( m.vi[k] ); } );
  case T::MAT_LONG: return cols( m, [&]( unsigned k ){ return num( m.vl[k] ); } );
  case T::MAT_REAL: return cols( m, [&]( unsigned k ){ return rl( m.vr[k] ); } );
  case T::MAT_COMPLEX: return cols( m, [&]( unsigned k ){ return cstr( m.vc[k] ); } );
  case T::VECTOR: for ( auto const & x : m.v ) e.push_back( norm( x ) ); return e.empty() ? null_() : seq( e );
  case T::MAP: { if ( m.m.empty() ) return null_(); M o; o.t = T::MAP; for ( auto const & x : m.m ) o.m.push_back( { x.first, norm( x.second ) } ); return o; }
  }
  return m;
}
extern "C" int harness_main() {
  int k = sym_choose( 35, "kind" );
  M v; std::string key = "a"; int ctx = sym_choose( 2, "ctx" );
  if ( k < 21 ) { T t = static_cast<T>( k ); unsigned n = 0, n2 = 1, sl = 1; if ( isVec( t ) || isMat( t ) || t == T::VECTOR || t == T::MAP ) n = pick( NB, "n" ); else if ( t == T::REAL || t == T::LONG || t == T::INTEGER ) n = unsigned( sym_choose( 5, "n" ) ); if ( isMat( t ) ) n2 = pick2( n, NB, "n2" ); if ( t == T::STRING ) { sl = unsigned( sym_choose( NS+2, "sl" ) ); if ( sl >= NS ) sl = sl == NS ? 40 : 300; } else if ( t == T::VEC_STRING ) sl = unsigned( sym_choose( NS-1, "sl" ) ); v = txt( t, n, n2, sl ); }
  else if ( k == 21 ) { unsigned kl = unsigned( sym_choose( NS, "kl" ) ); key = asciiStr( kl, "key" ); v = txt( T::BOOL, 0, 0, 0 ); ctx = 1; sym_cover( "key" ); }
  else if ( k == 22 || k == 27 || k == 28 ) { std::string w = WORDS[sym_choose( NWORDS, "words" )]; ctx = 1; if ( k == 22 ) { key = w; v = txt( T::STRING, 0, 0, 1 ); } else { M x; x.t = T::STRING; x.s = w; if ( k == 27 ) v = x; else { v.t = T::VECTOR; v.v.push_back( x ); v.v.push_back( txt( T::BOOL, 0, 0, 0 ) ); M i; i.t = T::MAP; i.m.push_back( { w, x } ); i.m.push_back( { w + w, txt( T::VEC_BOOL, 2, 1, 0 ) } ); v.v.push_back( i ); } } sym_cover( "word" ); }
  else if ( k == 23 ) { M in; in.t = T::MAP; in.m.push_back( { asciiStr( 1, "key" ), txt( T::VEC_STRING, 1, 1, 0 ) } ); in.m.push_back( { "zz", txt( T::MAP, 2, 1, 0 ) } ); v = in; }
  else if ( k == 24 ) { v.t = T::VECTOR; v.v.push_back( txt( T::MAP, 2, 1, 1 ) ); v.v.push_back( txt( T::MAP, 1, 1, 0 ) ); }
  else if ( k == 25 ) { v.t = T::VECTOR; v.v.push_back( txt( T::VECTOR, 2, 1, 1 ) ); v.v.push_back( txt( T::INTEGER, 0, 1, 0 ) ); v.v.push_back( txt( T::VEC_LONG, 2, 2, 0 ) ); v.v.push_back( txt( T::NOTYPE, 0, 0, 0 ) ); v.v.push_back( txt( T::MAT_REAL, 2, 1, 0 ) ); }
  else if ( k > 28 ) { int f = k - 29; unsigned depth = 0; if ( f < 4 ) depth = sym_choose( 2, "depth" ) ? 20 : 6; int leaf = sym_choose( 4, "leaf" ); v = deepTxt( depth, f, leaf ); sym_cover( "deep" ); }
  else { static double const R[] = { 1.0/0.0, -1.0/0.0, 0.0/0.0 }; v.t = T::VEC_REAL; v.vr.push_back( R[sym_choose( 3, "nf" )] ); v.vr.push_back( 1.5 ); }
  M m; if ( ctx ) { m.t = T::MAP; m.m.push_back( { key, v } ); if ( key != "q" ) { M x; x.t = T::REAL; x.r = 2.5; m.m.push_back( { "q", x } ); } } else m = v;
  G g; build( m, g ); G const & cg = g;
  std::ostringstream o, ref;
  int th = throws( [&]{ cg.to_yaml( o ); } );
  sym_assert( !th, "writing YAML never throws" );
  sym_assert( o.flags() == ref.flags() && o.precision() == ref.precision() && o.good(), "writing leaves the formatting of the stream" );
  same( g, m, "writing does not change the container" );
  G h; build( make( T::MAP, 1 ), h ); std::istringstream is( o.str() ); bool rok = false;
  th = throws( [&]{ rok = h.from_yaml( is ); } );
  sym_assert( !th && rok, "what was written is valid YAML" );
  M w = norm( m );
  if ( k == 26 ) { G const & e = ctx ? h( "a" ) : h; sym_assert( e.get_type() == T::VEC_REAL && e.get_vec_real().size() == 2, "non-finite reals are read back as reals" ); double x = e.get_vec_real()[0], y = v.vr[0]; sym_assert( x != x ? y != y : x == y, "non-finite reals are read back" ); return 0; }
  same( h, w, "what was written is read back with the same content" ); sym_cover( "done" );
  return 0;
}
