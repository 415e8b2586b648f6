//@ modules: core json2
//@ split: 16
//@ bounds: trees of arrays and objects of every shape (0..2 elements, depth up to 4, up to NN inner choices), with and without white space; arrays and objects of 9, 34 and 270 (thorough also 1100) elements, strings and keys up to 4320 (thorough 17600) bytes, nesting of 9, 34 and 40 levels, with an arbitrary digit or character inside
//@ quick: -DNN=4 -DBIGS=9,34,270 time=100
//@ thorough: -DNN=5 -DBIGS=9,34,270,1100 time=850 steps=100000000
//@ covers: done refused
#include "jsonnest.hh"
extern "C" int harness_main() {
  std::string t = nestText(); int pre = sym_choose( 2, "pre" );
  M old; if ( pre ) { old.t = T::MAP; old.m.push_back( { "a", make( T::INTEGER, 1 ) } ); }
  G g; build( old, g );
  std::istringstream is( t ); bool ok = false;
  int th = throws( [&]{ ok = g.from_json2( is ); } );
  if ( th ) ok = false; // a text that is no JSON is refused with an exception
  JsonRef r( t ); M m = r.all();
  sym_assert( ok == r.ok, "exactly the valid JSON texts are accepted" );
  if ( !ok ) { same( g, old, "refused text leaves the container as it was" ); sym_cover( "refused" ); return 0; }
  same( g, col( m ), "the container holds the value the text denotes" ); sym_cover( "done" );
  return 0;
}
