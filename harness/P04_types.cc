//@ modules: core
//@ split: 58
//@ bounds: two (thorough three) operations out of 46 on any of 29 containers (every type with 0 or 2 elements, matrices 2 x 2, strings of 17 bytes, 8 nested shapes), with a second container of 3 kinds, then copying, reading and destruction; the operations are symbolic, and so are all bits of the content (of nested shapes: concrete)
//@ quick: -DLEN=2 time=100
//@ thorough: -DLEN=3 time=850
//@ covers: done refused
#include "ops.hh"
extern "C" int harness_main() {
  long live0 = sym_live(); int z = sym_choose( 2*NKINDS, "kind" ); int k = z % NKINDS; unsigned n = z < NKINDS ? 2 : 0; if ( n == 0 && k >= 21 ) return 0;
  int w = sym_choose( 3, "second" );
  { G g, h; { M m, s; { Conc c( k >= 21 ); m = k < 21 ? make( T(k), n, n, 3 ) : makeDeep( unsigned(k-21) ); Conc c2( true ); s = w == 0 ? makeDeep( 0 ) : w == 1 ? make( T::MAP, 2 ) : make( T::MAT_LONG, 2, 2 ); } build( m, g ); build( s, h ); }
    if ( k == int( T::MAP ) && n == 0 ) g.set_map();
    std::vector<uint8_t> b; h.serialize( b );
    for ( int q=0;q<LEN;++q ) { unsigned char ob = sym<unsigned char>( "op" ); sym_assume( ob < 46 ); int o = ob; if ( w && !( ( o >= 15 && o <= 20 ) || o == 38 || o == 42 ) ) sym_skip(); if ( LEN == 3 && q == 1 && o % 3 ) sym_skip(); try { op( g, h, o, b ); } catch ( std::exception const & ) { sym_cover( "refused" ); } }
    M now = readM( g ); same( g, now, "every content stays readable" ); { G t( g ); same( t, now, "every content stays readable" ); } sym_cover( "done" ); }
  sym_assert( sym_live() == live0, "everything allocated is released" );
  return 0;
}
