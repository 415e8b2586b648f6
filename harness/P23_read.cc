//@ modules: core
//@ split: 24
//@ bounds: (a) every text of 0..LT bytes (quick 6, thorough 8) over the alphabet {1, a, blank, tab, newline, #} read by both table readers against an independent reference, into an empty container or one that holds a previous table; (b) tables of 1, 2, 12 columns and 0, 1, 2, 40 rows with arbitrary header bytes, symbolic digits, 4 delimiter sets, comment lines of arbitrary bytes before, between and after the rows, a row with one field more or less at any place, parameters in comments; fields that are not numbers and repeated column names are outside
//@ quick: -DLT=6 time=90
//@ thorough: -DLT=8 time=800
//@ covers: table refused comment wrongrow params long
#include "gcm.hh"
static bool in( char c, char const * set ) { for ( ;*set;++set ) if ( c == *set ) return true; return false; }
struct Tab { bool ok = true; std::vector<std::string> h; std::vector<std::vector<double>> col; bool known = true; };
static std::vector<std::string> split( std::string const & l, char const * d ) { std::vector<std::string> r; size_t p = 0; while ( p < l.size() ) { while ( p < l.size() && in( l[p], d ) ) ++p; size_t q = p; while ( q < l.size() && !in( l[q], d ) ) ++q; if ( q > p ) r.push_back( l.substr( p, q-p ) ); p = q; } return r; }
static Tab ref( std::string const & t, char const * com, char const * d, bool skipEmpty ) {
  std::vector<std::string> L; std::string cur; for ( char c : t ) if ( c == '\n' ) { L.push_back( cur ); cur.clear(); } else cur.push_back( c ); if ( !cur.empty() ) L.push_back( cur );
  Tab r; size_t k = 0; auto skip = [&]{ while ( k < L.size() && ( ( skipEmpty && L[k].empty() ) || ( !L[k].empty() && in( L[k][0], com ) ) ) ) { if ( !L[k].empty() ) sym_cover( "comment" ); ++k; } };
  skip(); if ( k < L.size() ) r.h = split( L[k++], d ); r.col.resize( r.h.size() );
  for (;;) { skip(); if ( k >= L.size() ) break; auto f = split( L[k++], d ); if ( f.empty() ) break; if ( f.size() != r.h.size() ) { r.ok = false; break; }
    for ( size_t c=0;c<f.size();++c ) { double v = 0; for ( char x : f[c] ) { if ( x < '0' || x > '9' ) r.known = false; v = 10*v + ( x - '0' ); } r.col[c].push_back( v ); } }
  for ( size_t a=0;a<r.h.size();++a ) for ( size_t b=0;b<a;++b ) if ( skipEmpty && r.h[a] == r.h[b] ) r.known = false; // repeated names
  return r;
}
static void cmp( G const & g, Tab const & w, bool asMap ) {
  sym_assert( g.get_type() == T::MAP && g.exists( "headers" ) && g.exists( "data" ), "a table has headers and data" ); if ( !g.exists( "data" ) || !g.exists( "headers" ) ) return;
  M h; h.t = T::VEC_STRING; h.vs = w.h; same( g( "headers" ), h, "the headers are those of the text" );
  G const & d = g( "data" ); M m; m.t = asMap ? T::MAP : T::VECTOR; for ( size_t k=0;k<w.h.size();++k ) { M c; c.t = T::VEC_REAL; c.vr = w.col[k]; if ( asMap ) m.m.push_back( { w.h[k], c } ); else m.v.push_back( c ); }
  if ( w.h.empty() ) sym_assert( d.get_num_elements() == 0, "a table without columns has no data" ); else same( d, m, "every number of the text is in its column, in order" );
}
static void readIt( std::string const & t, char const * com, char const * del, bool two, bool old, Tab const & w, G * par ) {
  G g; if ( old ) { g["headers"].set_vec_string( 1 )[0] = "1"; if ( two ) g["data"]["1"].set_vec_real( 1 )[0] = 7; else g["data"].set_vector( 1 )[0].set_vec_real( 1 )[0] = 7; }
  std::istringstream is( t ); bool ok = !throws( [&]{ if ( two ) g.read_formatted_data2( is, com, del, par ); else g.read_formatted_data( is, com, del ); } );
  sym_assert( ok == w.ok, "a table is refused exactly when a row has another number of fields than the header" );
  if ( ok && w.ok ) { sym_cover( "table" ); cmp( g, w, two ); } else sym_cover( "refused" );
}
extern "C" int harness_main() {
  int z = sym_choose( 24, "part" ), two = z % 2;
  if ( z < 14 ) { unsigned len = unsigned( z / 2 ); unsigned L = len == 6 ? LT : len; if ( LT > 6 && len == 6 ) L = 6 + unsigned( sym_choose( LT-5, "len" ) ); std::string t = sstr( L, "text" ); for ( char c : t ) sym_assume( ( c == '1' ) | ( c == 'a' ) | ( c == ' ' ) | ( c == '\t' ) | ( c == '\n' ) | ( c == '#' ) );
    int old = sym_choose( 2, "old" ); Tab w = ref( t, "#", " \t", two != 0 ); if ( !w.known ) sym_skip(); readIt( t, "#", " \t", two != 0, old != 0, w, nullptr ); return 0; }
  // larger tables
  static char const * const DS[] = { " \t", "\t", ",;", "," }; static char const DC[] = { ' ', '\t', ';', ',' }; int di = ( z - 14 ) / 2 % 4; char dc = DC[di]; if ( z >= 22 ) { di = 0; dc = '\t'; }
  static unsigned const NC[] = { 1, 2, 12 }, NR[] = { 0, 1, 2, 40 }; unsigned nc = NC[sym_choose( 3, "cols" )], nr = NR[sym_choose( 4, "rows" )]; if ( nr == 40 ) sym_cover( "long" );
  int place = sym_choose( 4, "comment" ); int wrong = nr ? sym_choose( 3, "wrong" ) : 0; if ( wrong == 2 && nc == 1 ) sym_skip(); if ( wrong && place ) sym_skip();
  std::string cb = sstr( 2, "commenttext" ); sym_assume( (cb[0] != '\n') & (cb[1] != '\n') & (cb[0] != '!') ); std::string cl = "%" + cb + " 1 2 = 3\n";
  std::string hb = sstr( 1, "headerbyte" ); char h0 = hb[0]; sym_assume( (h0 != '\n') & (h0 != '\r') & (h0 != ' ') & (h0 != '\t') & (h0 != ';') & (h0 != ',') & (h0 != 0) );
  Tab w; std::string t; if ( place == 1 ) t += cl; for ( unsigned c=0;c<nc;++c ) { std::string n = "h" + std::string( 1, c == nc/2 ? h0 : 'q' ) + std::to_string( c ); if ( c ) t += dc; t += n; w.h.push_back( n ); } t += '\n'; w.col.resize( nc );
  if ( place == 2 ) t += cl;
  for ( unsigned r=0;r<nr;++r ) { if ( place == 3 && r == nr/2 ) t += cl; unsigned f = nc; if ( wrong && r == nr-1 ) { f = wrong == 1 ? nc+1 : nc-1; sym_cover( "wrongrow" ); }
    for ( unsigned c=0;c<f;++c ) { if ( c ) t += dc; double v = double( r*100+c ) + 0.5; std::string s = std::to_string( r*100+c ) + ".5"; if ( r == nr/2 && c == 0 ) { s = sstr( 1, "digit" ); sym_assume( (s[0] >= '0') & (s[0] <= '9') ); v = s[0]-'0'; s += "e1"; v *= 10; } t += s; if ( c < nc ) w.col[c].push_back( v ); }
    if ( r+1 < nr || sym_choose( 2, "lastnewline" ) ) t += '\n'; }
  if ( wrong ) w.ok = false;
  G par; bool hasp = two && z >= 22; if ( hasp ) { std::string nb = sstr( 1, "parname" ); char p0 = nb[0]; sym_assume( (p0 >= 'p') & (p0 <= 's') ); t = "#! " + nb + "x  =  12.5 \n#! name = " + nb + "b\n" + t;
    readIt( t, "#%", DS[di], true, false, w, &par ); sym_cover( "params" ); if ( !w.ok ) return 0; G const & cp = par; std::string k = nb + "x"; sym_assert( cp.exists( k ) && cp.exists( "name" ), "the parameters are named as in the text" ); if ( !cp.exists( k ) || !cp.exists( "name" ) ) return 0;
    M a; a.t = T::REAL; a.r = 12.5; same( cp( k ), a, "a number given as parameter is stored as number" ); M b; b.t = T::STRING; b.s = nb + "b"; same( cp( "name" ), b, "a text given as parameter is stored as text" ); return 0; }
  readIt( t, "#%", DS[di], two != 0, sym_choose( 2, "old" ) != 0, w, nullptr );
  return 0;
}
