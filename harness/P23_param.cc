//@ modules: core
//@ split: 8
//@ bounds: comment lines of every text of 0..LT bytes (quick 6, thorough 7) over the alphabet {x, 1, blank, tab, =, !} after the comment character, read by the reader that delivers parameters; longer names and values with blanks inside, signs and exponents, several lines before and between the rows; rows that end with a carriage return, alone or after a delimiter. A value that begins like a number and goes on otherwise, more than one =, and empty names or values are outside
//@ quick: -DLT=6 time=90
//@ thorough: -DLT=7 time=800
//@ covers: number text none several carriage
#include "gcm.hh"
static std::string trim( std::string const & s ) { size_t a = 0, b = s.size(); while ( a < b && ( s[a] == ' ' || s[a] == '\t' ) ) ++a; while ( b > a && ( s[b-1] == ' ' || s[b-1] == '\t' ) ) --b; return s.substr( a, b-a ); }
static void table( G const & g, unsigned nr ) { M h; h.t = T::VEC_STRING; h.vs = { "h" }; same( g( "headers" ), h, "the headers are those of the text" ); M c; c.t = T::VEC_REAL; for ( unsigned k=0;k<nr;++k ) c.vr.push_back( k+1 ); same( g( "data" )( "h" ), c, "every number of the text is in its column, in order" ); }
extern "C" int harness_main() {
  int z = sym_choose( 8, "part" );
  if ( z < 6 ) {
    unsigned L = unsigned( z ); if ( z == 5 ) L = 5 + unsigned( sym_choose( LT-4, "len" ) );
    std::string t = sstr( L, "text" ); for ( char c : t ) sym_assume( ( c == 'x' ) | ( c == '1' ) | ( c == ' ' ) | ( c == '\t' ) | ( c == '=' ) | ( c == '!' ) );
    unsigned eq = 0; size_t at = 0; for ( size_t k=0;k<L;++k ) if ( t[k] == '=' ) { ++eq; at = k; }
    bool par = L > 0 && t[0] == '!' && eq > 0; std::string l, r; bool num = false;
    if ( par ) { if ( eq > 1 ) sym_skip(); l = trim( t.substr( 1, at-1 ) ); r = trim( t.substr( at+1 ) ); if ( l.empty() || r.empty() ) sym_skip(); num = r[0] == '1'; if ( num ) for ( char c : r ) if ( c != '1' ) sym_skip(); }
    int place = sym_choose( 3, "place" ); std::string c = "#" + t + "\n"; std::string x = place == 0 ? c + "h\n1\n2\n" : place == 1 ? "h\n" + c + "1\n2" : "h\n1\n" + c + "2\n";
    G g, p; bool had = sym_choose( 2, "had" ); if ( had ) p["old"] = 3; std::istringstream is( x );
    bool th = throws( [&]{ g.read_formatted_data2( is, "#", " \t", &p ); } ); sym_assert( !th, "a table with comments is read" ); if ( th ) return 0;
    table( g, 2 ); G const & cp = p; unsigned n = ( had ? 1 : 0 ) + ( par ? 1 : 0 ); sym_assert( n == 0 ? cp.get_num_elements() == 0 : cp.get_type() == T::MAP && cp.get_num_elements() == n, "exactly the parameters of the text are delivered" );
    if ( n == 0 || cp.get_type() != T::MAP ) { sym_cover( "none" ); return 0; } if ( had ) { sym_assert( cp.exists( "old" ), "parameters delivered before are kept" ); } if ( !par ) return 0;
    sym_assert( cp.exists( l ), "the parameters are named as in the text" ); if ( !cp.exists( l ) ) return 0; M w; if ( num ) { sym_cover( "number" ); w.t = T::REAL; w.r = 0; for ( char ch : r ) { (void)ch; w.r = 10*w.r + 1; } } else { sym_cover( "text" ); w.t = T::STRING; w.s = r; }
    same( cp( l ), w, "a parameter is delivered with its value" ); return 0;
  }
  if ( z == 6 ) {
    static char const * const V[] = { "-2.5e-3", "+7", ".5", "a long text with  blanks\tinside", "x1", "-x", "e5", "1e400", "inf", "00012", "4294967296" }; static double const D[] = { -2.5e-3, 7, .5, 0, 0, 0, 0, __builtin_inf(), __builtin_inf(), 12, 4294967296.0 };
    int v = sym_choose( 11, "v" ), w = sym_choose( 3, "w" ); std::string nb = sstr( 1, "name" ); char c = nb[0]; sym_assume( (c != '\n') & (c != '=') & (c != ' ') & (c != '\t') & (c != 0) );
    std::string k = "a b" + nb + " c"; std::string t = "%! \t" + k + "=" + V[v] + " \t\n% ! no = 1\n#! second name= " + V[w] + "\nh\n#!q=9\n1\n%!last = 8\n2\n#!end=7";
    G g, p; std::istringstream is( t ); bool th = throws( [&]{ g.read_formatted_data2( is, "#%", ", ", &p ); } ); sym_assert( !th, "a table with comments is read" ); if ( th ) return 0; sym_cover( "several" );
    table( g, 2 ); M m; m.t = T::MAP; auto add = [&]( std::string const & n, int q ) { M e; if ( q >= 3 && q <= 6 ) { e.t = T::STRING; e.s = V[q]; } else { e.t = T::REAL; e.r = D[q]; } m.m.push_back( { n, e } ); };
    add( k, v ); add( "second name", w ); M e; e.t = T::REAL; e.r = 9; m.m.push_back( { "q", e } ); e.r = 8; m.m.push_back( { "last", e } ); e.r = 7; m.m.push_back( { "end", e } ); same( p, m, "exactly the parameters of the text are delivered" ); return 0;
  }
  // rows that end with a carriage return
  int two = sym_choose( 2, "reader" ), e1 = sym_choose( 3, "end1" ), e2 = sym_choose( 3, "end2" ), nl = sym_choose( 2, "newline" ); static char const * const E[] = { "", "\r", ",\r" }; std::string d = sstr( 1, "digit" ); sym_assume( (d[0] >= '0') & (d[0] <= '9') );
  std::string t = "p,q\n1," + d + E[e1] + "\n3,4" + E[e2] + ( nl ? "\n" : "" ); G g; std::istringstream is( t ); bool th = throws( [&]{ if ( two ) g.read_formatted_data2( is, "#", ",", nullptr ); else g.read_formatted_data( is, "#", "," ); } );
  sym_assert( !th, "a carriage return at the end of a row is no field" ); if ( th ) return 0; M a, b; a.t = b.t = T::VEC_REAL; a.vr = { 1, 3 }; b.vr = { double( d[0]-'0' ), 4 }; sym_cover( "carriage" );
  if ( two ) { same( g( "data" )( "p" ), a, "every number of the text is in its column, in order" ); same( g( "data" )( "q" ), b, "every number of the text is in its column, in order" ); } else { same( g( "data" )( 0u, "" ), a, "every number of the text is in its column, in order" ); same( g( "data" )( 1u, "" ), b, "every number of the text is in its column, in order" ); }
  return 0;
}
