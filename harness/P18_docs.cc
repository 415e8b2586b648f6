//@ modules: core toml
//@ split: 28
//@ bounds: documents with a value of each of 22 kinds (integers in every base and with separators, reals, infinities, booleans, basic, literal and multi-line strings, dates, times, date-times with and without offset, inline tables, arrays) at top level, in a table, in an array of tables and in nested arrays; arrays of three values of 9 kinds; arrays of three integers around the limits of 32 bits with arbitrary last digit; arrays, tables and arrays of tables of 270 (thorough 1100) elements, one of them of another kind at the first, middle or last place; 24 levels of nesting; quoted keys of arbitrary ASCII bytes and with escapes; dotted headers
//@ quick: -DBIG=270 time=100
//@ thorough: -DBIG=1100 time=850
//@ covers: single arr3 limits big deep keys
#include "tomlm.hh"
#include "txtm.hh"
static char digit( char const * n ) { std::string s = sstr( 1, n ); sym_assume( (s[0] >= '0') & (s[0] <= '9') ); return s[0]; }
static M one( char const * k, M const & m ) { M r; r.t = T::MAP; r.m.push_back( { k, m } ); return r; }
static M tBool( bool b ) { M m; m.t = T::BOOL; m.b = b; return m; }
static double const INF = __builtin_inf();
static std::string val( int k, M & m ) { // text of a value of one kind, and what it denotes
  switch ( k ) {
  case 0: { char d = digit( "d" ); m = tInt( 10 + (d-'0') ); return std::string( "1" ) + d; }
  case 1: { char d = digit( "d" ); m = tInt( -42949672970ll - (d-'0') ); return std::string( "-4294967297" ) + d; }
  case 2: m = tReal( 2.5 ); return "2.5";
  case 3: m = tBool( true ); return "true";
  case 4: { std::string s = asciiStr( 1, "s" ); sym_assume( (s[0] != '"') & (s[0] != '\\') & (s[0] >= 0x20) & (s[0] != 0x7f) ); m = tStr( "a" + s ); return "\"a" + s + "\""; }
  case 5: m = one( "$date", tStr( "2024-02-29" ) ); return "2024-02-29";
  case 6: m = one( "x", tInt( 7 ) ); return "{ x = 7 }";
  case 7: m = tArr( {} ); return "[ ]";
  case 8: m = tArr( { tInt( 1 ), tInt( 2 ) } ); return "[ 1, 2, ]";
  case 9: m = tBool( false ); return "false";
  case 10: m = one( "$time", tStr( "10:20:30" ) ); return "10:20:30";
  case 11: m = one( "$date_time", tStr( "2024-02-29T10:20:30" ) ); return "2024-02-29T10:20:30";
  case 12: m = one( "$date_time", tStr( "2024-02-29T10:20:30+01:30" ) ); return "2024-02-29 10:20:30+01:30";
  case 13: { char d = digit( "d" ); m = tInt( 0xAB0 + (d-'0') ); return std::string( "0xaB" ) + d; }
  case 14: m = tInt( 511 ); return "0o777";
  case 15: m = tInt( 5 ); return "0b0101";
  case 16: m = tInt( 1234567 ); return "+1_234_567";
  case 17: m = tReal( -INF ); return "-inf";
  case 18: { std::string s = asciiStr( 1, "s" ); sym_assume( (s[0] != '\'') & (s[0] >= 0x20) & (s[0] != 0x7f) ); m = tStr( "C:\\n" + s ); return "'C:\\n" + s + "'"; }
  case 19: m = tStr( "l1\n  \"l2\"x" ); return "\"\"\"\nl1\n  \"l2\"\\\n   x\"\"\"";
  case 20: m = tStr( "l1\\\n'l2" ); return "'''\nl1\\\n'l2'''";
  case 21: m = tStr( std::string( "q\b\t\n\f\r\"\\\0z", 10 ) ); return "\"q\\b\\t\\n\\f\\r\\\"\\\\\\u0000z\"";
  default: m = tReal( -1.5e100 ); return "-1.5E+1_00";
  }
}
extern "C" int harness_main() {
  int kind = sym_choose( 28, "kind" ); std::string t; M want; want.t = T::MAP; bool valid = true;
  auto add = [&]( std::string const & k, M const & m ) { want.m.push_back( { k, m } ); };
  if ( kind < 4 ) { // one value at one place
    int k = sym_choose( 23, "v" ); M m; std::string x = val( k, m ); sym_cover( "single" );
    if ( kind == 0 ) { t = "k = " + x + " # c\nz = 1"; add( "k", m ); add( "z", tInt( 1 ) ); }
    else if ( kind == 1 ) { t = "[a.'b c']\r\nk=" + x + "\r\n"; add( "a", one( "b c", one( "k", m ) ) ); }
    else if ( kind == 2 ) { t = "[[a]]\nk = 1\n\n[[a]]\nk = " + x + "\n[a.s]\nz = " + x + "\n[[a]]\n"; M v, e, w; v.t = w.t = e.t = T::MAP; v.m.push_back( { "k", tInt( 1 ) } ); w.m.push_back( { "k", m } ); w.m.push_back( { "s", one( "z", m ) } ); M r; r.t = T::VECTOR; r.v = { v, w, e }; add( "a", r ); }
    else { t = "k = [ # c\n [ " + x + " ] , \n [\n ] ]"; add( "k", tArr( { tArr( { m } ), tArr( {} ) } ) ); }
  } else if ( kind < 13 ) { // arrays of three values
    M a, b, c; std::string x = val( kind-4, a ); int k1 = sym_choose( 9, "v1" ), k2 = sym_choose( 9, "v2" ); std::string y = val( k1, b ), z = val( k2, c );
    t = "k = [" + x + ", " + y + "," + z + "]"; add( "k", tArr( { a, b, c } ) ); sym_cover( "arr3" );
  } else if ( kind < 17 ) { // integers around the limits
    static char const * const P[] = { "214748364", "-214748364", "1", "922337203685477580" }; std::vector<M> e; std::string x[3];
    for ( int q=0;q<3;++q ) { int p = q ? sym_choose( 4, "p" ) : kind-13; char d = digit( "d" ); if ( p == 3 ) sym_assume( d <= '7' ); uint64_t v = 0; bool neg = P[p][0] == '-'; x[q] = std::string( P[p] ) + d; for ( char ch : x[q] ) if ( ch != '-' ) v = 10*v + uint64_t( ch-'0' ); e.push_back( tInt( neg ? -int64_t( v ) : int64_t( v ) ) ); }
    t = "k = [" + x[0] + ", " + x[1] + ", " + x[2] + "]"; add( "k", tArr( e ) ); sym_cover( "limits" );
  } else if ( kind < 23 ) { // many elements, one of another kind
    int at = sym_choose( 4, "at" ), odd = sym_choose( 5, "odd" ); static int const AT[] = { 0, BIG/2, BIG-1, BIG }; static int const OD[] = { 0, 1, 2, 4, 6 }; int w = AT[at]; static int const MAIN[] = { 0, 2, 4, 3, 6, 8 }; if ( w == BIG && odd ) sym_skip();
    std::vector<M> e; t = "k = ["; for ( int q=0;q<BIG;++q ) { M m; Conc z( q != w && q != 3 ); std::string x; if ( q == w || q == 3 ) x = val( q == w ? OD[odd] : MAIN[kind-17], m ); else switch ( kind-17 ) { case 0: m = tInt( q ); x = std::to_string( q ); break; case 1: m = tReal( q+0.5 ); x = std::to_string( q ) + ".5"; break; case 2: m = tStr( "s" + std::to_string( q ) ); x = "'" + m.s + "'"; break; default: x = val( MAIN[kind-17], m ); }
      t += ( q ? "," : "" ) + x; e.push_back( m ); }
    t += "]"; add( "k", tArr( e ) ); sym_cover( "big" );
  } else if ( kind == 23 ) { // many entries
    int w = sym_choose( 2, "form" ); M m; if ( w ) { M r; r.t = T::VECTOR; for ( int q=0;q<BIG;++q ) { t += "[[k]]\na = " + std::to_string( q ) + "\n"; r.v.push_back( one( "a", tInt( q ) ) ); } add( "k", r ); } else for ( int q=0;q<BIG;++q ) { t += "k" + std::to_string( q ) + " = " + std::to_string( q ) + "\n"; add( "k" + std::to_string( q ), tInt( q ) ); } sym_cover( "big" );
  } else if ( kind == 24 ) { // deep
    int w = sym_choose( 4, "form" ); M m; std::string x = val( sym_choose( 2, "leaf" ) ? 4 : 1, m ); sym_cover( "deep" );
    if ( w == 0 ) { for ( int q=0;q<24;++q ) { x = "[" + x + "]"; m = tArr( { m } ); } t = "k = " + x; add( "k", m ); }
    else if ( w == 1 ) { for ( int q=0;q<24;++q ) { x = "{ k = " + x + ", l = 1 }"; M r = one( "k", m ); r.m.push_back( { "l", tInt( 1 ) } ); m = r; } t = "k = " + x; add( "k", m ); }
    else if ( w == 2 ) { std::string h = "k"; for ( int q=0;q<23;++q ) h += ".k"; t = h + " = " + x; for ( int q=0;q<23;++q ) m = one( "k", m ); add( "k", m ); }
    else { for ( int q=0;q<24;++q ) { M r; if ( q%2 ) { x = "[ " + x + ", 'e' ]"; m = tArr( { m, tStr( "e" ) } ); } else { x = "{ a = 'b', k = " + x + " }"; r = one( "a", tStr( "b" ) ); r.m.push_back( { "k", m } ); m = r; } } t = "k = " + x; add( "k", m ); }
  } else if ( kind == 25 ) { // quoted keys
    std::string s = asciiStr( unsigned( sym_choose( 3, "n" ) ), "key" ); for ( char c : s ) sym_assume( (c != '"') & (c != '\\') & (c >= 0x20) & (c != 0x7f) ); t = "\"" + s + "\" = 1\n[t.\"" + s + "\"]\n\"" + s + "\".b = 2"; valid = s != "t"; add( s, tInt( 1 ) ); add( "t", one( s.c_str(), one( s.c_str(), one( "b", tInt( 2 ) ) ) ) ); sym_cover( "keys" );
  } else if ( kind == 26 ) { t = "\"a\\u0000b\" = 1\n'a' = 2\n\"a\\u0000\" = 3\n1234 = 4\ntrue = 5\n-_ = 6\n\"\" = 7\n"; add( std::string( "a\0b", 3 ), tInt( 1 ) ); add( "a", tInt( 2 ) ); add( std::string( "a\0", 2 ), tInt( 3 ) ); add( "1234", tInt( 4 ) ); add( "true", tInt( 5 ) ); add( "-_", tInt( 6 ) ); add( "", tInt( 7 ) ); sym_cover( "keys" ); }
  else { // headers
    int w = sym_choose( 9, "form" ); M m, n; std::string x = val( 0, m ), y = val( 1, n ); sym_cover( "keys" );
    switch ( w ) {
    case 0: t = "[a.b]\nx = " + x + "\n[a]\ny = " + y; { M r = one( "b", one( "x", m ) ); r.m.push_back( { "y", n } ); add( "a", r ); } break;
    case 1: t = "[a]\nb.x = " + x + "\n[a.b]\ny = " + y; valid = false; break;
    case 2: t = "a = " + x + "\na.b = " + y; valid = false; break;
    case 3: t = "a = []\n[[a]]\nb = " + y; valid = false; break;
    case 4: t = "[[a]]\n[[a.b]]\nx = " + x + "\n[[a.b]]\nx = " + y + "\n[[a]]\nb = 1"; { M v; v.t = T::VECTOR; v.v = { one( "x", m ), one( "x", n ) }; M r; r.t = T::VECTOR; r.v = { one( "b", v ), one( "b", tInt( 1 ) ) }; add( "a", r ); } break;
    case 5: t = "a = { b = " + x + " }\n[a.c]\nx = 1"; valid = false; break;
    case 8: t = "[[a]]\n[[a]]\nx = " + x + "\n[[a]]\n[[b.c]]\n[[b.c]]\ny = " + y; { M e; e.t = T::MAP; M v; v.t = T::VECTOR; v.v = { e, one( "x", m ), e }; add( "a", v ); v.v = { e, one( "y", n ) }; add( "b", one( "c", v ) ); } break;
    case 6: t = " \t # only comments\r\n\n# k = " + x; break;
    default: t = "[ a . \"b\" ] # c\nx.'y'=" + x + "\n\tx . z = " + y; { M r = one( "y", m ); r.m.push_back( { "z", n } ); add( "a", one( "b", one( "x", r ) ) ); } break;
    }
  }
  M old = make( T::VEC_STRING, 2 ); if ( kind%2 ) old = make( T::MAP, 2 );
  G g; build( old, g ); std::istringstream is( t ); bool ok = false;
  int th = throws( [&]{ ok = g.from_toml( is ); } );
  sym_assert( !th, "reading TOML text never throws" );
  sym_assert( ok == valid, "exactly the valid documents are accepted" );
  if ( !ok ) { same( g, old, "refused text leaves the container as it was" ); return 0; }
  if ( valid ) same( g, want, "the container holds the value the document denotes" );
  return 0;
}
