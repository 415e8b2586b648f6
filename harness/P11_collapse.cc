//@ modules: core
//@ split: 24
//@ bounds: vectors of 0..3 (thorough 0..4) elements of any mix of 17 element kinds (all scalar types, vectors of every element type with 1..2 elements, matrices, empty, nested vectors and maps), vectors of 9, 40 (thorough 270) elements of one kind with one element of another kind in the middle and three symbolic elements, vectors of vectors of 36..37 elements, such vectors inside a map or inside a vector; all bits of all values symbolic; collapsing twice
//@ quick: -DNB=4 -DBIGS=9,40 time=90
//@ thorough: -DNB=5 -DBIGS=9,40,270 time=800
//@ covers: vec mat strings kept nested
#include "num.hh"
static M elem( int k, unsigned L = 0 ) { // L: further elements in the vectors
  switch ( k ) {
  case 0: return make( T::BOOL, 1 ); case 1: return make( T::INTEGER, 1 ); case 2: return make( T::LONG, 1 ); case 3: return make( T::REAL, 1 ); case 4: return make( T::COMPLEX, 1 ); case 5: return make( T::STRING, 1 );
  case 6: return make( T::VEC_BOOL, 1+L ); case 7: return make( T::VEC_INTEGER, 1+L ); case 8: return make( T::VEC_INTEGER, 2+L ); case 9: return make( T::VEC_LONG, 2+L ); case 10: return make( T::VEC_REAL, 1+L ); case 11: return make( T::VEC_REAL, 2+L ); case 12: return make( T::VEC_COMPLEX, 2+L );
  case 13: return make( T::VEC_STRING, 1+L ); case 14: return make( T::NOTYPE, 1 ); case 15: return make( T::MAT_INTEGER, 1+L, 1 ); case 16: { M v; v.t = T::VECTOR; v.v.push_back( make( T::INTEGER, 1 ) ); return v; }
  case 17: return make( T::POINTER, 1 ); case 18: return make( T::VEC_POINTER, 1+L ); case 19: return make( T::VEC_LONG, 1+L ); case 20: return make( T::VEC_COMPLEX, 1+L ); case 21: return make( T::VEC_BOOL, 2+L ); case 22: { M v; v.t = T::VECTOR; v.v.push_back( make( T::INTEGER, 1 ) ); v.v.push_back( make( T::REAL, 1 ) ); return v; }
  default: { M v; v.t = T::VECTOR; return v; }
  }
}
extern "C" int harness_main() {
  int first = sym_choose( 24, "e0" ); unsigned n = pick( NB, "n" ), L = 0; int ctx = n <= 2 ? sym_choose( 4, "ctx" ) : 0; if ( ctx == 3 ) { L = 35; ctx = 0; }
  if ( n == 0 && first ) sym_skip();
  long live0 = sym_live();
  {
    M m; m.t = T::VECTOR;
    // the third and later elements repeat the kind of one of the first two, or are a 1-element integer vector or real
    int k1 = 0;
    if ( n > 4 ) { int mid = sym_choose( 24, "emid" ); for ( unsigned k=0;k<n;++k ) { Conc z( !at3( k, n ) ); m.v.push_back( elem( k == n/2 ? mid : first ) ); } }
    else for ( unsigned k=0;k<n;++k ) { int e = first; if ( k == 1 ) e = k1 = sym_choose( 24, "e1" ); else if ( k >= 2 ) { int q = sym_choose( 4, "e2" ); e = q == 0 ? first : q == 1 ? k1 : q == 2 ? 7 : 3; } m.v.push_back( elem( e, L ) ); }
    if ( ctx == 1 ) { M o; o.t = T::MAP; o.m.push_back( { "x", m } ); o.m.push_back( { "y", make( T::STRING, 1 ) } ); m = o; sym_cover( "nested" ); }
    if ( ctx == 2 ) { M o; o.t = T::VECTOR; o.v.push_back( m ); o.v.push_back( m ); m = o; }
    G g; build( m, g );
    bool ok = !throws( [&]{ g.collapse(); } );
    sym_assert( ok, "collapsing never fails" );
    M w = col( m );
    same( g, w, "collapsing keeps every value and position" );
    ok = !throws( [&]{ g.collapse(); } ); sym_assert( ok, "collapsing never fails" );
    same( g, w, "collapsing twice changes nothing more" );
  }
  sym_assert( sym_live() == live0, "collapsing leaks nothing" );
  return 0;
}
