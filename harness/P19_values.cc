//@ modules: core yaml
//@ split: 14
//@ bounds: documents: integer of 1..3 arbitrary digits, and with the last 1..2 digits arbitrary at the limits of 32 and 64 bits, signed, alone, as value of a mapping, in flow and block sequences; double-quoted strings of 0..2 arbitrary printable bytes and one backslash-u or backslash-x escape with two arbitrary hexadecimal digits; single-quoted strings of 0..2 arbitrary printable bytes; plain words of 2 letters; mappings with two keys of 1 arbitrary letter, equal or not, in block, flow and nested form; block scalars, anchors and aliases, comments; previous content of the container empty, a map or a vector
//@ quick: time=100
//@ thorough: time=850
//@ covers: int long big str esc single word dup nested alias
#include "txtm.hh"
static M num( int64_t v ) { M m; if ( v >= -2147483648ll && v <= 2147483647ll ) { m.t = T::INTEGER; m.i = int32_t(v); } else { m.t = T::LONG; m.l = v; } return m; }
static M str( std::string const & s ) { M m; m.t = T::STRING; m.s = s; return m; }
static M seq( std::vector<M> const & e ) { M r; r.t = T::VECTOR; r.v = e; return col( r ); }
static M mp( std::vector<std::pair<std::string,M>> const & e ) { M r; r.t = T::MAP; r.m = e; return r; }
static std::string digits( unsigned n ) { std::string s = sstr( n, "digits" ); for ( char c : s ) sym_assume( (c >= '0') & (c <= '9') ); return s; }
static std::string letter( char const * n ) { std::string s = sstr( 1, n ); char c = s[0]; sym_assume( (c >= 'a') & (c <= 'z') ); return s; }
static std::string utf8( unsigned u ) { std::string s; if ( u < 0x80 ) s.push_back( char(u) ); else if ( u < 0x800 ) { s.push_back( char(0xC0|(u>>6)) ); s.push_back( char(0x80|(u&63)) ); } else { s.push_back( char(0xE0|(u>>12)) ); s.push_back( char(0x80|((u>>6)&63)) ); s.push_back( char(0x80|(u&63)) ); } return s; }
static unsigned hexa( std::string const & h ) { unsigned u = 0; for ( char c : h ) { sym_assume( ( (c >= '0') & (c <= '9') ) | ( (c >= 'A') & (c <= 'F') ) | ( (c >= 'a') & (c <= 'f') ) ); u = 16*u + unsigned( c <= '9' ? c-'0' : c <= 'F' ? c-'A'+10 : c-'a'+10 ); } return u; }
extern "C" int harness_main() {
  int kind = sym_choose( 14, "kind" ); std::string t; bool valid = true; M want; int anch = 0;
  if ( kind < 7 ) {
    static char const * const P[] = { "", "", "", "21474836", "922337203685477580", "92233720368547758", "42949672" }; static unsigned const L[] = { 1, 2, 3, 2, 1, 2, 2 };
    int neg = sym_choose( 2, "neg" ), ctx = sym_choose( 4, "ctx" ); std::string d = P[kind] + digits( L[kind] );
    if ( d.size() > 1 && !P[kind][0] ) sym_assume( d[0] != '0' );
    unsigned __int128 u = 0; for ( char c : d ) u = 10*u + unsigned( c-'0' );
    unsigned __int128 lim = neg ? (unsigned __int128)9223372036854775808ull : (unsigned __int128)9223372036854775807ull;
    std::string x = neg ? "-" + d : d; M m;
    if ( u > lim ) { m = str( x ); sym_cover( "big" ); } else { m = num( neg ? int64_t( ~uint64_t(u) + 1 ) : int64_t( uint64_t(u) ) ); if ( m.t == T::LONG ) sym_cover( "long" ); else sym_cover( "int" ); }
    if ( ctx == 0 ) { t = x; want = m; } else if ( ctx == 1 ) { t = "k: " + x + "\n"; want = mp( { { "k", m } } ); } else if ( ctx == 2 ) { t = "k: [ a, " + x + " ]"; want = mp( { { "k", seq( { str( "a" ), m } ) } } ); } else { t = "- " + x + " # c\n- 1\n"; want = seq( { m, num( 1 ) } ); }
  } else if ( kind == 7 ) { // double-quoted
    int ctx = sym_choose( 3, "ctx" ); std::string s = asciiStr( unsigned( sym_choose( 3, "n" ) ), "s" ); for ( char c : s ) sym_assume( (c != '"') & (c != '\\') & (c >= 0x20) & (c != 0x7f) ); M m = str( s ); sym_cover( "str" );
    if ( ctx == 0 ) { t = "\"" + s + "\""; want = m; } else if ( ctx == 1 ) { t = "k: \"" + s + "\"\nq: 1\n"; want = mp( { { "k", m }, { "q", num( 1 ) } } ); } else { t = "{ \"" + s + "\": true, \"  \": 1 }"; if ( s == "  " ) valid = false; M b; b.t = T::BOOL; b.b = true; want = mp( { { s, b }, { "  ", num( 1 ) } } ); }
  } else if ( kind == 8 ) { // escapes
    int x = sym_choose( 3, "x" ); std::string h = sstr( 2, "hex" ); unsigned u = hexa( h ); if ( x == 1 ) { h = "0" + h + "9"; u = u*16+9; } else if ( x == 2 ) { h = "C" + h + "f"; u = 0xC00F + u*16; }
    t = x == 0 ? "- \"a\\x" + h + "b\"" : "- \"a\\u" + h + "b\""; want = seq( { str( "a" + utf8( u ) + "b" ) } ); sym_cover( "esc" );
  } else if ( kind == 9 ) { // single-quoted
    std::string s = asciiStr( unsigned( sym_choose( 3, "n" ) ), "s" ), w, e; for ( char c : s ) { sym_assume( (c >= 0x20) & (c != 0x7f) ); w.push_back( c ); if ( c == '\'' ) w.push_back( c ); } t = "k: '" + w + "'\n"; want = mp( { { "k", str( s ) } } ); sym_cover( "single" );
  } else if ( kind == 10 ) { // plain word, block scalars, comment
    std::string s = letter( "c0" ); s += letter( "c1" ); int v = sym_choose( 4, "v" ); sym_cover( "word" );
    if ( v == 0 ) { t = "# c\nk: " + s + " # d\n"; want = mp( { { "k", str( s ) } } ); } else if ( v == 1 ) { t = "k: |\n  " + s + "\n  x\nq: 1"; want = mp( { { "k", str( s + "\nx\n" ) }, { "q", num( 1 ) } } ); } else if ( v == 2 ) { t = "k: >\n  " + s + "\n  x\nq: 1"; want = mp( { { "k", str( s + " x\n" ) }, { "q", num( 1 ) } } ); } else { t = "- |-\n  " + s + "\n- >-\n " + s + "\n"; want = seq( { str( s ), str( s ) } ); }
  } else if ( kind == 11 ) { // two keys
    std::string a = letter( "k0" ), b = letter( "k1" ); int v = sym_choose( 4, "v" ); if ( a == b ) { valid = false; sym_cover( "dup" ); }
    if ( v == 0 ) { t = a + ": 1\n" + b + ": [2, 3]\n"; want = mp( { { a, num( 1 ) }, { b, seq( { num( 2 ), num( 3 ) } ) } } ); }
    else if ( v == 1 ) { t = "{" + a + ": x, " + b + ": {}}"; want = mp( { { a, str( "x" ) }, { b, mp( {} ) } } ); }
    else if ( v == 2 ) { t = "z:\n  " + a + ": 1\n  " + b + ":\nzz: ~\n"; want = mp( { { "z", mp( { { a, num( 1 ) }, { b, M() } } ) }, { "zz", M() } } ); }
    else { t = "- " + a + ": 1\n  " + b + ": 2\n- 7\n"; want = seq( { mp( { { a, num( 1 ) }, { b, num( 2 ) } } ), num( 7 ) } ); }
  } else if ( kind == 12 ) { // nesting; the same key in different mappings is no repetition
    std::string a = letter( "k0" ), b = letter( "k1" ); int v = sym_choose( 4, "v" ); sym_cover( "nested" );
    if ( v == 0 ) { t = a + ":\n  " + b + ":\n    - 1\n    - " + a + "\n"; want = mp( { { a, mp( { { b, seq( { num( 1 ), str( a ) } ) } } ) } } ); }
    else if ( v == 1 ) { t = "- " + a + ": {" + b + ": [1, 2]}\n- - " + b + "\n  - 3\n"; want = seq( { mp( { { a, mp( { { b, seq( { num( 1 ), num( 2 ) } ) } } ) } } ), seq( { str( b ), num( 3 ) } ) } ); }
    else if ( v == 2 ) { t = "- " + a + ": 1\n- " + b + ": 2\n"; want = seq( { mp( { { a, num( 1 ) } } ), mp( { { b, num( 2 ) } } ) } ); }
    else { t = "[[1, 2], [3, 4], [" + a + ", []]]"; want = seq( { seq( { num( 1 ), num( 2 ) } ), seq( { num( 3 ), num( 4 ) } ), seq( { str( a ), seq( {} ) } ) } ); }
  } else { // anchors
    std::string a = letter( "k0" ), b = letter( "k1" ); anch = sym_choose( 3, "v" ); int v = anch; sym_cover( "alias" ); if ( a != b ) valid = false;
    if ( v == 0 ) { t = "x: &" + a + " [1, 2]\ny: *" + b + "\n"; want = mp( { { "x", seq( { num( 1 ), num( 2 ) } ) }, { "y", seq( { num( 1 ), num( 2 ) } ) } } ); }
    else if ( v == 1 ) { t = "- &" + a + " {p: 1}\n- *" + b + "\n"; want = seq( { mp( { { "p", num( 1 ) } } ), mp( { { "p", num( 1 ) } } ) } ); }
    else { t = "x: &" + a + "\n  p: 1\ny: *" + b + "\n"; want = mp( { { "x", mp( { { "p", num( 1 ) } } ) }, { "y", mp( { { "p", num( 1 ) } } ) } } ); }
  }
  int pre = kind < 7 ? 0 : sym_choose( 3, "pre" );
  M old; if ( pre == 1 ) { old.t = T::MAP; old.m.push_back( { "x", make( T::INTEGER, 1 ) } ); old.m.push_back( { "k", make( T::MAP, 1 ) } ); } else if ( pre == 2 ) { old.t = T::VECTOR; old.v.push_back( make( T::VEC_REAL, 1 ) ); old.v.push_back( make( T::MAP, 1 ) ); old.v.push_back( make( T::INTEGER, 1 ) ); }
  G g; build( old, g );
  std::istringstream is( t ); bool ok = false;
  int th = throws( [&]{ ok = g.from_yaml( is ); } );
  sym_assert( !th, "reading YAML text never throws" );
  sym_assert( ok == valid, "exactly the valid documents are accepted" );
  if ( !ok || !valid ) { same( g, old, "a refused document leaves the container as it was" ); return 0; }
  if ( anch == 2 ) { sym_assert( g( "y" ).get_type() == T::MAP, "an anchor before a block mapping names that mapping" ); }
  same( g, want, "the container holds what the document denotes" );
  return 0;
}
