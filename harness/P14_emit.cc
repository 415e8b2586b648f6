//@ modules: core json
//@ split: 30
//@ bounds: every type (vectors 0..2, thorough 0..3, elements; matrices 0..2 x 0..2, thorough 0..3; strings of 0, 1 and 3 arbitrary bytes and of 40 and 300 bytes, three of them arbitrary; vectors and maps of 9, 34, thorough 270, elements, three of them symbolic), 8 nested shapes (every type as element and entry, 6 and 24 levels deep), maps of two keys of 0..2 arbitrary bytes; all bits of numbers symbolic; number text is an opaque injective function of value, base and precision; streams with default and other precision, with and without indentation prefix
//@ quick: -DNB=3 -DBIGS=9,34 time=80
//@ thorough: -DNB=4 -DBIGS=9,34,270 time=700
//@ covers: done null escaped
//@ stubs: the digits of a printed number are an uninterpreted injective token (value, base, precision)
#include "jsontext.hh"
extern "C" int harness_main() {
  int k = sym_choose( NKINDS+1, "kind" ); if ( k >= 27 && k < NKINDS ) live() = 0;
  M m;
  if ( k < 21 ) { T t = static_cast<T>( k ); unsigned n = 0, n2 = 2; if ( t == T::STRING ) { static unsigned const SL[] = { 0, 1, 2, 40, 300 }; n = SL[sym_choose( 5, "n" )]; } else if ( isVec( t ) || isMat( t ) || t == T::VECTOR || t == T::MAP ) n = pick( NB, "n" ); if ( isMat( t ) ) n2 = pick2( n, NB, "n2" ); m = make( t, n, n2, 0 ); }
  else if ( k < NKINDS ) { m = makeDeep( unsigned(k-21) ); }
  else {
    m.t = T::MAP; unsigned l0 = unsigned( sym_choose( 3, "l0" ) ), l1 = unsigned( sym_choose( NB-1, "l1" ) );
    std::string k0 = sstr( l0, "key0" ), k1 = sstr( l1, "key1" ); sym_assume( !streq( k0, k1 ) );
    m.m.push_back( { k0, make( T::MAP, 0 ) } ); m.m.push_back( { k1, make( T::VECTOR, 0 ) } ); sym_cover( "escaped" );
  }
  int how = sym_choose( 2, "how" );
  G g; build( m, g ); G const & cg = g;
  std::ostringstream ref, o;
  if ( how ) { o.precision( 15 ); ref.precision( 15 ); cg.to_json( o, "    " ); } else cg.to_json( o );
  sym_assert( o.flags() == ref.flags() && o.precision() == ref.precision() && o.good(), "emission leaves the formatting of the stream" );
  std::string t = o.str();
  JsonText j( t, ref, "the emitted text denotes the stored value" );
  j.val( m ); j.end(); sym_cover( "done" ); if ( m.t == T::NOTYPE ) sym_cover( "null" );
  same( g, m, "emission does not change the container" );
  return 0;
}
