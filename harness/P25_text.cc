//@ modules: core json2
//@ split: 16
//@ bounds: every text of 0..NT bytes (quick 4, thorough 5) without a zero byte, read into an empty container or over other content; real numbers: only the type is compared (conversion of digits to binary is the C library's); blank texts and bytes that are no valid UTF-8 may be accepted or refused
//@ quick: -DNT=4 time=100
//@ thorough: -DNT=5 time=850
//@ covers: valid refused array object string
#include "jsonref.hh"
extern "C" int harness_main() {
  unsigned k = unsigned( sym_choose( 16, "low" ) ); unsigned n = unsigned( sym_choose( NT+1, "len" ) ); int pre = sym_choose( 2, "pre" );
  if ( n == 0 && k ) sym_skip();
  std::string t = sstr( n, "text" );
  if ( n ) sym_assume( (unsigned char)( t[0] & 15 ) == k );
  for ( char c : t ) sym_assume( c != 0 );
  M old; if ( pre ) { old.t = T::MAP; old.m.push_back( { "a", make( T::INTEGER, 1 ) } ); }
  G g; build( old, g );
  std::istringstream is( t ); bool ok = false;
  int th = throws( [&]{ ok = g.from_json2( is ); } );
  if ( th ) ok = false; // a text that is no JSON is refused with an exception
  JsonRef r( t ); M m = r.all();
  bool blank = true, ascii = true; for ( char c : t ) { blank = blank & ( (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') ); ascii = ascii & ( (unsigned char)c < 0x80 ); }
  bool fine = ok ? r.ok : !r.ok; sym_assert( fine | blank | ( !ascii & !ok ), "exactly the valid JSON texts are accepted (bytes outside ASCII may be refused)" );
  if ( !ok ) { sym_cover( "refused" ); same( g, old, "refused text leaves the container as it was" ); return 0; }
  if ( !r.ok ) return 0;
  sym_cover( "valid" ); if ( m.t == T::VECTOR ) sym_cover( "array" ); if ( m.t == T::MAP ) sym_cover( "object" ); if ( m.t == T::STRING ) sym_cover( "string" );
  if ( r.sawReal ) return 0;
  same( g, col( m ), "the container holds the value the text denotes" );
  return 0;
}
