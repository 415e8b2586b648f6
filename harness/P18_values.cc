//@ modules: core toml
//@ split: 14
//@ bounds: documents: integer of 1..3 arbitrary digits, and with the last 1..2 digits arbitrary at the limits of 32 and 64 bits, signed, alone and in arrays; basic strings of 0..2 arbitrary ASCII bytes and one backslash-u escape with 4 arbitrary hexadecimal digits; dates with 4 arbitrary digits; two keys of 1 arbitrary letter or digit, equal or not; sub-tables, dotted keys, arrays of tables and inline tables with such keys; previous content of the container a map or a vector
//@ quick: time=100
//@ thorough: time=850
//@ covers: int long refused str esc date dup nested
#include "tomlm.hh"
#include "txtm.hh"
static std::string digits( unsigned n ) { std::string s = sstr( n, "digits" ); for ( char c : s ) sym_assume( (c >= '0') & (c <= '9') ); return s; }
static std::string letter( char const * n ) { std::string s = sstr( 1, n ); char c = s[0]; sym_assume( ( (c >= '0') & (c <= '9') ) | ( (c >= 'a') & (c <= 'z') ) ); return s; }
// exact value of a decimal text, or not representable in 64 bits
static bool exact( std::string const & s, bool neg, M & m ) {
  unsigned __int128 u = 0; for ( char c : s ) u = 10*u + unsigned( c-'0' );
  unsigned __int128 lim = neg ? (unsigned __int128)9223372036854775808ull : (unsigned __int128)9223372036854775807ull; if ( u > lim ) return false;
  int64_t v = neg ? int64_t( ~uint64_t(u) + 1 ) : int64_t( uint64_t(u) ); m = tInt( v ); return true;
}
extern "C" int harness_main() {
  int kind = sym_choose( 14, "kind" ); std::string t; bool valid = true; M want; want.t = T::MAP;
  if ( kind < 7 ) {
    static char const * const P[] = { "", "", "", "21474836", "922337203685477580", "922337203685477580", "42949672" }; static unsigned const L[] = { 1, 2, 3, 2, 1, 2, 2 };
    int neg = sym_choose( 3, "neg" ), arr = sym_choose( 2, "arr" ); std::string d = P[kind] + digits( L[kind] );
    if ( d.size() > 1 && !P[kind][0] ) sym_assume( d[0] != '0' );
    M m; valid = exact( d, neg == 2, m ); std::string x = neg == 0 ? d : neg == 1 ? "+" + d : "-" + d;
    if ( valid ) { if ( m.t == T::LONG ) sym_cover( "long" ); else sym_cover( "int" ); }
    if ( arr ) { t = "k = [ 1, " + x + " ]"; want.m.push_back( { "k", tArr( { tInt( 1 ), m } ) } ); } else { t = "k = " + x + "\n"; want.m.push_back( { "k", m } ); }
  } else if ( kind == 7 ) { // basic string
    std::string s = asciiStr( unsigned( sym_choose( 3, "n" ) ), "s" ); for ( char c : s ) sym_assume( (c != '"') & (c != '\\') & (c >= 0x20) & (c != 0x7f) ); t = "k = \"" + s + "\""; want.m.push_back( { "k", tStr( s ) } ); sym_cover( "str" );
  } else if ( kind == 8 ) { // escape
    std::string h = sstr( 4, "hex" ); unsigned u = 0; for ( char c : h ) { sym_assume( ( (c >= '0') & (c <= '9') ) | ( (c >= 'A') & (c <= 'F') ) ); u = 16*u + unsigned( c <= '9' ? c-'0' : c-'A'+10 ); }
    t = "k = \"a\\u" + h + "b\""; std::string s = "a";
    if ( u < 0x80 ) s.push_back( char(u) ); else if ( u < 0x800 ) { s.push_back( char(0xC0|(u>>6)) ); s.push_back( char(0x80|(u&63)) ); } else { s.push_back( char(0xE0|(u>>12)) ); s.push_back( char(0x80|((u>>6)&63)) ); s.push_back( char(0x80|(u&63)) ); }
    s.push_back( 'b' ); if ( u >= 0xD800 && u <= 0xDFFF ) valid = false; want.m.push_back( { "k", tStr( s ) } ); sym_cover( "esc" );
  } else if ( kind == 9 ) { // date
    std::string m = digits( 2 ), d = digits( 2 ); t = "k = 2023-" + m + "-" + d; int mm = 10*(m[0]-'0')+(m[1]-'0'), dd = 10*(d[0]-'0')+(d[1]-'0');
    if ( mm < 1 || mm > 12 || dd < 1 || dd > 31 ) valid = false; else if ( dd > 28 && mm == 2 ) valid = false; else if ( dd > 30 && ( mm == 4 || mm == 6 || mm == 9 || mm == 11 ) ) valid = false;
    M e; e.t = T::MAP; e.m.push_back( { "$date", tStr( "2023-" + m + "-" + d ) } ); want.m.push_back( { "k", e } ); sym_cover( "date" );
  } else {
    std::string a = letter( "k0" ), b = letter( "k1" ); sym_cover( "nested" );
    bool eq = a == b; if ( eq ) sym_cover( "dup" );
    M i1 = tInt( 1 ), i2 = tStr( "z" ), sub; sub.t = T::MAP;
    if ( kind == 10 ) { t = a + " = 1\n" + b + " = 'z'\n"; valid = !eq; want.m.push_back( { a, i1 } ); want.m.push_back( { b, i2 } ); }
    else if ( kind == 11 ) { t = "[" + a + "]\nx = 1\n[" + b + "]\ny = 'z' # comment\n"; valid = !eq; M s2 = sub; sub.m.push_back( { "x", i1 } ); s2.m.push_back( { "y", i2 } ); want.m.push_back( { a, sub } ); want.m.push_back( { b, s2 } ); }
    else if ( kind == 12 ) { t = "[[" + a + "]]\nx = 1\n[[" + b + "]]\nx = 'z'\n"; M s2 = sub; sub.m.push_back( { "x", i1 } ); s2.m.push_back( { "x", i2 } ); M v; v.t = T::VECTOR; v.v.push_back( sub ); if ( eq ) { v.v.push_back( s2 ); want.m.push_back( { a, v } ); } else { M w; w.t = T::VECTOR; w.v.push_back( s2 ); want.m.push_back( { a, v } ); want.m.push_back( { b, w } ); } }
    else { t = "p = { " + a + " = 1, " + b + " = 'z' }\nq." + a + " = true"; valid = !eq; sub.m.push_back( { a, i1 } ); sub.m.push_back( { b, i2 } ); want.m.push_back( { "p", sub } ); M q; q.t = T::MAP; M tr; tr.t = T::BOOL; tr.b = true; q.m.push_back( { a, tr } ); want.m.push_back( { "q", q } ); }
  }
  int pre = sym_choose( 2, "pre" ); M old; if ( pre == 0 ) { old.t = T::MAP; old.m.push_back( { "k", make( T::VEC_STRING, 2 ) } ); old.m.push_back( { "p", make( T::MAP, 1 ) } ); } else old = make( T::VEC_REAL, 2 );
  G g; build( old, g ); std::istringstream is( t ); bool ok = false;
  int th = throws( [&]{ ok = g.from_toml( is ); } );
  sym_assert( !th, "reading TOML text never throws" );
  sym_assert( ok == valid, "exactly the valid documents are accepted" );
  if ( !ok ) { same( g, old, "refused text leaves the container as it was" ); sym_cover( "refused" ); return 0; }
  if ( valid ) same( g, want, "the container holds the value the document denotes" );
  return 0;
}
