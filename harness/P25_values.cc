//@ modules: core json2
//@ split: 12
//@ bounds: integers with and without sign: 1, 3, 4 and 5 arbitrary digits, and the last 1 to 3 digits arbitrary after the leading digits of the limits of 32 and 64-bit signed and unsigned integers and of 20 digits; strings and keys of 0..4 (thorough 0..5) arbitrary bytes between quotes, and with one backslash-u escape of 4 arbitrary bytes (also a pair of hexadecimal ones, the first digit D, and an arbitrary one after D83D) ; objects with two arbitrary 1-byte keys, equal or not, and nested objects / arrays as values; bare, inside an array, inside an object; read over other content
//@ quick: -DNS=5 time=100
//@ thorough: -DNS=6 time=850
//@ covers: long int str surrogate dup done
#include "jsonref.hh"
// decimal digits: a fixed prefix around the limits of the integer types followed by arbitrary digits
static std::string digits( int k ) {
  static char const * const P[] = { "", "", "2147483", "4294967", "", "92233720368547758", "184467440737095516", "9999999999999999999", "" };
  static unsigned const L[] = { 1, 4, 3, 3, 5, 2, 2, 1, 3 };
  std::string s = sstr( L[k], "digits" ); for ( char c : s ) sym_assume( (c >= '0') & (c <= '9') ); if ( L[k] > 1 && !P[k][0] ) sym_assume( s[0] != '0' ); return P[k] + s; }
extern "C" int harness_main() {
  int kind = sym_choose( 12, "kind" );
  std::string t;
  if ( kind < 9 ) { // integers
    int neg = sym_choose( 2, "neg" ); int ctx = sym_choose( 3, "ctx" ); std::string d = digits( kind ); if ( neg ) d = "-" + d;
    t = ctx == 0 ? d : ctx == 1 ? "[\"x\"," + d + "]" : "{\"k\":" + d + "}";
  } else if ( kind == 9 ) { // strings
    int n = sym_choose( NS, "n" ); int ctx = sym_choose( 3, "ctx" ); std::string s = "\"" + sstr( unsigned(n), "raw" ) + "\""; for ( char c : s ) sym_assume( c != 0 ); sym_cover( "str" );
    t = ctx == 0 ? s : ctx == 1 ? "[1," + s + "]" : "{" + s + ":true}";
  } else if ( kind == 10 ) { // escapes
    int n = sym_choose( 3, "n" ); int ctx = sym_choose( 2, "ctx" ); std::string s = "\"a\\u"; if ( n == 2 ) { std::string h = sstr( 4, "hex2" ); for ( char c : h ) sym_assume( ( (c >= '0') & (c <= '9') ) | ( (c >= 'A') & (c <= 'F') ) ); s += "D83d\\u" + h; } else if ( n == 1 ) { std::string h = sstr( 3, "hex1" ), h2 = sstr( 3, "hex2" ); for ( char c : h + h2 ) sym_assume( ( (c >= '0') & (c <= '9') ) | ( (c >= 'a') & (c <= 'f') ) ); s += "D" + h + "\\uD" + h2; sym_cover( "surrogate" ); } else s += sstr( 4, "hex" ); s += "b\""; for ( char c : s ) sym_assume( c != 0 );
    t = ctx == 0 ? s : "{" + s + ":[]}";
  } else { // members
    std::string a = sstr( 1, "k0" ), b = sstr( 1, "k1" ); int va = sym_choose( 5, "v0" ), vb = sym_choose( 5, "v1" );
    static char const * const V[] = { "{\"x\":1}", "[1,2]", "null", "{\"y\":\"s\",\"z\":{}}", "[]" };
    sym_assume( (unsigned char)a[0] >= 0x20 ); sym_assume( (unsigned char)b[0] >= 0x20 );
    t = "{\"" + a + "\":" + V[va] + ", \"" + b + "\" :" + V[vb] + " }"; if ( a == b ) sym_cover( "dup" );
  }
  int pre = kind < 9 ? 0 : sym_choose( 3, "pre" );
  M old; if ( pre == 1 ) { old.t = T::MAP; old.m.push_back( { "x", make( T::INTEGER, 1 ) } ); old.m.push_back( { "k", make( T::MAP, 1 ) } ); } else if ( pre == 2 ) old = make( T::VEC_REAL, 3 );
  G g; build( old, g );
  std::istringstream is( t ); bool ok = false;
  int th = throws( [&]{ ok = g.from_json2( is ); } );
  if ( th ) ok = false; // a text that is no JSON is refused with an exception
  JsonRef r( t ); M m = r.all();
  bool blank = true, ascii = true; for ( char c : t ) { blank = blank & ( (c == ' ') | (c == '\t') | (c == '\n') | (c == '\r') ); ascii = ascii & ( (unsigned char)c < 0x80 ); }
  bool fine = ok ? r.ok : !r.ok; sym_assert( fine | blank | ( !ascii & !ok ), "exactly the valid JSON texts are accepted (bytes outside ASCII may be refused)" );
  if ( !ok ) { same( g, old, "refused text leaves the container as it was" ); return 0; }
  if ( !r.ok ) return 0;
  if ( m.t == T::LONG ) sym_cover( "long" ); if ( m.t == T::INTEGER ) sym_cover( "int" );
  if ( r.sawReal ) { // an integer outside 64 bits is read as a real number
    G const & e = kind < 9 && t[0] == '[' ? g[1] : kind < 9 && t[0] == '{' ? g["k"] : g; sym_assert( e.get_type() == T::REAL, "an integer outside 64 bits is read as a real number" ); return 0; }
  same( g, col( m ), "the container holds the value the text denotes" ); sym_cover( "done" );
  return 0;
}
