//@ modules: core
//@ split: 14
//@ bounds: every value constructor, set() and operator=() overload of a single value (bool, unsigned/signed 32/64-bit, float, double, complex<float>, complex<double>, char pointer, string, string_view, pointer); all bits symbolic; strings of length 0,1,3,17 (NUL-terminated texts for char pointers); prior content: nothing, a string, a map
//@ engine: --fpcast
//@ quick: time=60
//@ thorough: time=300
//@ covers: ctor assigned
#include "gcm.hh"
template <class X> static void put( int way, int prior, X const & x, M const & m ) {
  if ( way == 0 ) { G g( x ); same( g, m, "a container constructed from a value holds exactly that value" ); sym_cover( "ctor" ); return; }
  G g; if ( prior == 1 ) g.set_string( "a rather long prior content" ); else if ( prior == 2 ) g["k"] = 1;
  if ( way == 1 ) { G & r = ( g = x ); CHECK( &r == &g ); } else g.set( x );
  same( g, m, "an assigned value is read back identical, whatever was stored before" ); sym_cover( "assigned" );
}
extern "C" int harness_main() {
  int k = sym_choose( 14, "kind" ), way = sym_choose( 3, "way" ), prior = way ? sym_choose( 3, "prior" ) : 0;
  M m; m.s = "";
  switch ( k ) {
  case 0: m = make( T::BOOL, 0 ); put( way, prior, m.b, m ); break;
  case 1: m = make( T::INTEGER, 0 ); put( way, prior, m.i, m ); break;
  case 2: m = make( T::INTEGER, 0 ); put( way, prior, uint_type(m.i), m ); break;
  case 3: m = make( T::LONG, 0 ); put( way, prior, m.l, m ); break;
  case 4: m = make( T::LONG, 0 ); put( way, prior, ulong_type(m.l), m ); break;
  case 5: m = make( T::REAL, 0 ); put( way, prior, m.r, m ); break;
  case 6: { float f = sym<float>("f"); sym_assume( f == f ); m.t = T::REAL; m.r = f; put( way, prior, f, m ); } break;
  case 7: m = make( T::COMPLEX, 0 ); put( way, prior, C(m.r,m.im), m ); break;
  case 8: { float a = sym<float>("fr"), b = sym<float>("fi"); sym_assume( a == a && b == b ); m.t = T::COMPLEX; m.r = a; m.im = b; put( way, prior, std::complex<float>(a,b), m ); } break;
  case 9: case 10: case 11: { m = make( T::STRING, pick( 4, "len" ) );
      if ( k == 9 ) { for ( char c : m.s ) sym_assume( c != 0 ); char const * p = m.s.c_str(); put( way, prior, p, m ); }
      else if ( k == 10 ) put( way, prior, m.s, m ); else put( way, prior, string_view( m.s ), m ); } break;
  case 12: { m = make( T::POINTER, 0 ); put( way, prior, m.p, m ); } break;
  case 13: { // an empty container, and swapping the pointed object out
      G g; same( g, M(), "a new container is empty" ); m = make( T::POINTER, 0 ); g.set_pointer( m.p ); g.free_pointer(); CHECK( g.get_type() == T::NOTYPE ); } break;
  }
  return 0;
}
