//@ modules: core toml
//@ split: 35
//@ bounds: a map with one entry of any type (vectors 0..2, thorough 0..3, and 9, 34, thorough 130, elements; matrices 0..2 x 0..2 and 9, 34 x 1..2; strings also of 40 and 300 bytes with an arbitrary one in the middle) or nested maps / vectors of depth 3, 6 and 20 in four forms, maps and vectors with an element of every type, 81 words that look like other values as key, string and element, beside a second entry; strings and keys of 0..1 (thorough 0..3) arbitrary ASCII bytes, also one arbitrary byte beside one of 6 special characters; booleans symbolic; integers written as map values: any of -99..99, other numbers concrete
//@ quick: -DNB=3 -DNS=3 -DPAIRS -DBIGS=9,34 time=100
//@ thorough: -DNB=4 -DNS=4 -DBIGS=9,34,130 time=850
//@ covers: done refused int key word deep
#include "tomlm.hh"
#include "txtm.hh"
extern "C" int harness_main() {
  int k = sym_choose( 35, "kind" );
  M v; std::string key = "a";
  if ( k < 21 ) { T t = static_cast<T>( k ); unsigned n = 0, n2 = 1, sl = 1; if ( isVec( t ) || isMat( t ) || t == T::VECTOR || t == T::MAP ) n = pick( NB, "n" ); else if ( t == T::REAL || t == T::LONG || t == T::INTEGER ) n = unsigned( sym_choose( 5, "n" ) ); if ( isMat( t ) ) n2 = pick2( n, NB, "n2" ); if ( t == T::STRING ) { sl = unsigned( sym_choose( NS+2, "sl" ) ); if ( sl >= NS ) sl = sl == NS ? 40 : 300; } else if ( t == T::VEC_STRING ) sl = unsigned( sym_choose( NS-1, "sl" ) ); v = txt( t, n, n2, sl ); }
  else if ( k == 21 ) { v.t = T::INTEGER; v.i = sym<int32_t>( "i" ); sym_assume( (v.i > -100) & (v.i < 100) ); sym_cover( "int" ); }
  else if ( k == 22 ) { unsigned kl = unsigned( sym_choose( NS, "kl" ) ); key = asciiStr( kl, "key" ); v = txt( T::BOOL, 0, 0, 0 ); sym_cover( "key" ); }
  else if ( k == 23 ) { M in; in.t = T::MAP; in.m.push_back( { asciiStr( 1, "key" ), txt( T::VEC_STRING, 1, 1, 0 ) } ); in.m.push_back( { "zz", txt( T::MAP, 2, 1, 0 ) } ); v = in; }
  else if ( k == 24 ) { v.t = T::VECTOR; v.v.push_back( txt( T::MAP, 2, 1, 1 ) ); v.v.push_back( txt( T::MAP, 1, 1, 0 ) ); } // an array of tables
  else if ( k == 25 ) { v.t = T::VECTOR; v.v.push_back( txt( T::VECTOR, 2, 1, 1 ) ); v.v.push_back( txt( T::INTEGER, 0, 1, 0 ) ); v.v.push_back( txt( T::VEC_LONG, 2, 2, 0 ) ); }
  else if ( k == 27 || k == 28 ) { std::string w = WORDS[sym_choose( NWORDS, "words" )]; M x = tStr( w ); if ( k == 27 ) { key = w; v = x; } else { v.t = T::VECTOR; v.v.push_back( x ); v.v.push_back( txt( T::BOOL, 0, 0, 0 ) ); M i; i.t = T::MAP; i.m.push_back( { w, x } ); v.v.push_back( i ); } sym_cover( "word" ); }
  else if ( k > 28 ) { int f = k - 29; unsigned depth = 0; if ( f < 4 ) depth = sym_choose( 2, "depth" ) ? 20 : 6; int leaf = sym_choose( 4, "leaf" ); if ( depth == 20 ? leaf%2 == 0 : ( f > 3 && leaf%2 == 1 ) ) sym_skip(); v = deepTxt( depth, f, leaf ); sym_cover( "deep" ); }
  else { v.t = T::MAP; v.m.push_back( { "n", txt( T::NOTYPE, 0, 0, 0 ) } ); v.m.push_back( { "b", txt( T::BOOL, 0, 0, 0 ) } ); }
  M m; m.t = T::MAP; m.m.push_back( { key, v } ); if ( key != "q" ) m.m.push_back( { "q", tReal( 2.5 ) } );
  G g; build( m, g ); G const & cg = g;
  std::ostringstream o; bool ok = false; bool bad = false; M want = tNorm( m, bad );
  int th = throws( [&]{ ok = cg.to_toml( o ); } );
  sym_assert( !th, "writing TOML never throws" );
  same( g, m, "writing does not change the container" );
  if ( bad ) { sym_assert( !ok, "content that TOML cannot represent is refused" ); sym_cover( "refused" ); return 0; }
  sym_assert( ok, "a map of representable content can be written" );
  G h; build( make( T::MAP, 1 ), h ); std::istringstream is( o.str() ); bool rok = false;
  th = throws( [&]{ rok = h.from_toml( is ); } );
  sym_assert( !th && rok, "what was written is valid TOML" );
  same( h, want, "what was written is read back with the same content" ); sym_cover( "done" );
  return 0;
}
