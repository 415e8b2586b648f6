//@ modules: core
//@ split: 24
//@ bounds: tables with 0..3 and 12 headers (of 0..2 arbitrary bytes), columns of 0..2 and 40 elements of every numeric vector type, vectors of scalars and of types that are not numbers, or a real matrix; as many, fewer or more headers than columns; columns of equal or different length; all bits of the numbers symbolic (number text is an opaque injective function of value and precision); any delimiter byte; plain and aligned tables
//@ quick: time=90
//@ thorough: time=600
//@ covers: plain aligned refused empty long
//@ stubs: the digits of a printed number are an uninterpreted injective token (value, base, precision)
#include "num.hh"
static char const * MSG = "every header and every number is written at its place";
struct Rd { std::string const & t; size_t p = 0;
  explicit Rd( std::string const & tt ) : t( tt ) {}
  void lit( std::string const & e ) { if ( p+e.size() > t.size() ) { sym_assert( 0, MSG ); sym_skip(); } int k = sym_eq( t.data()+p, e.data(), e.size() ); sym_assert( k, MSG ); p += e.size(); }
  void sp() { while ( p < t.size() && t[p] == ' ' ) ++p; } };
static double numAt( M const & m, unsigned k ) { switch ( m.t ) { case T::VEC_BOOL: return m.vb[k] ? 1 : 0; case T::VEC_INTEGER: return m.vi[k]; case T::VEC_LONG: return double( m.vl[k] ); case T::VEC_REAL: return m.vr[k]; default: { M const & e = m.v[k]; return e.t == T::INTEGER ? double( e.i ) : e.r; } } }
extern "C" int harness_main() {
  int z = sym_choose( 24, "part" ); int fmtd = z % 2, kind = z / 2 % 6; bool viaGC = z >= 12 && !fmtd; if ( z >= 12 && fmtd ) kind += 6;
  static unsigned const NN[] = { 0, 1, 2, 3, 12 }; unsigned nc = NN[sym_choose( 5, "cols" )]; static unsigned const RR[] = { 0, 1, 2, 40 }; unsigned nr = RR[sym_choose( 4, "rows" )]; if ( nr == 40 ) sym_cover( "long" );
  int mis = sym_choose( 4, "mismatch" ); // 1: one header less, 2: one more, 3: one column shorter or longer
  unsigned nh = nc; if ( mis == 1 ) { if ( nc == 0 ) sym_skip(); nh = nc-1; } else if ( mis == 2 ) nh = nc+1;
  std::vector<std::string> h; for ( unsigned k=0;k<nh;++k ) { std::string s = "h" + std::to_string( k ); if ( k < 2 ) { s = sstr( k+1, "header" ); if ( fmtd ) for ( char c : s ) sym_assume( (c != 0) & (c != ' ') & (c != '-') ); } h.push_back( s ); }
  // kind 0..3: all columns of one type; 4: vectors of scalars; 5: real matrix; 6: mixed types; 7: strings; 8: complex; 9: maps; 10: scalars; 11: pointers
  static T const KT[] = { T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL };
  bool mat = kind == 5, number = kind < 7; if ( mat && mis == 3 ) sym_skip(); if ( mis == 3 && nc < 2 ) sym_skip();
  std::vector<M> c; M mm; if ( mat ) { Conc q( nr*nc > 100 ); mm = make( T::MAT_REAL, nr, nc ); } else for ( unsigned k=0;k<nc;++k ) { Conc q( k > 3 ); M e; unsigned r = nr; if ( mis == 3 && k == nc-1 ) r = nr ? nr - 1 : 1; if ( mis == 3 && nr == 2 ) r = k == nc-1 ? 3 : 2;
    if ( kind == 0 || ( kind == 6 && k%4 == 0 ) ) { e.t = T::VEC_BOOL; for ( unsigned x=0;x<r;++x ) e.vb.push_back( char( k < 2 && at3( x, r ) ? sym_choose( 2, "vb" ) : int( (x+k)%3 == 0 ) ) ); } else if ( kind < 4 ) e = make( KT[kind], r ); else if ( kind == 4 ) { e.t = T::VECTOR; for ( unsigned x=0;x<r;++x ) { Conc y( x > 2 ); e.v.push_back( make( x % 2 ? T::INTEGER : T::REAL, 1 ) ); } } else if ( kind == 6 ) e = make( KT[k%4], r ); else if ( kind == 7 ) e = make( T::VEC_STRING, r ); else if ( kind == 8 ) e = make( T::VEC_COMPLEX, r ); else if ( kind == 9 ) e = make( T::MAP, r ); else if ( kind == 10 ) e = make( T::INTEGER, 1 ); else e = make( T::VEC_POINTER, r ); c.push_back( e ); }
  if ( kind == 9 && nr == 0 ) sym_skip(); if ( kind >= 7 && mis ) sym_skip();
  G g; auto & hv = g["headers"].set_vec_string( nh ); for ( unsigned k=0;k<nh;++k ) hv[k] = h[k];
  if ( mat ) build( mm, g["data"] ); else { auto & d = g["data"].set_vector( nc ); for ( unsigned k=0;k<nc;++k ) build( c[k], d[k] ); }
  char del = fmtd ? ' ' : char( sym<unsigned char>( "delimiter" ) ); G const & cg = g; std::ostringstream o, ref; o.precision( 14 ); ref.precision( 14 );
  bool ok = !throws( [&]{ if ( fmtd ) { if ( mat ) write_table_formatted( h, cg( "data" ).get_mat_real(), o ); else write_table_formatted( h, cg( "data" ).get_vector(), o ); }
    else if ( viaGC ) cg.write_formatted_data( o, del ); else if ( mat ) write_table( h, cg( "data" ).get_mat_real(), o, del ); else write_table( h, cg( "data" ).get_vector(), o, del ); } );
  sym_assert( o.flags() == ref.flags() && o.precision() == 14, "writing leaves the formatting of the stream" );
  if ( mis && number ) { sym_assert( !ok, "a table whose headers or columns do not fit together is refused" ); sym_cover( "refused" ); return 0; }
  if ( !number ) { if ( nc && nr ) sym_assert( !ok, "columns that are not numbers are refused" ); return 0; }
  sym_assert( ok, "a table can be written" ); if ( !ok ) return 0;
  std::string t = o.str(); Rd r( t );
  if ( nc == 0 ) { sym_cover( "empty" ); r.sp(); sym_assert( t.size() < 2, "an empty table is empty" ); return 0; }
  auto text = [&]( double v ) { std::ostringstream q; q.precision( 14 ); q << v; return q.str(); }; std::string ds( 1, del );
  unsigned wd = 8; if ( fmtd ) { for ( auto const & s : h ) if ( s.size() > wd ) wd = unsigned( s.size() ); if ( wd > 20 ) wd = 20; }
  auto rule = [&]{ if ( !fmtd ) return; size_t n = 0; while ( r.p < t.size() && t[r.p] == '-' ) { ++r.p; ++n; } sym_assert( n > 0, MSG ); r.lit( "\n" ); };
  for ( unsigned k=0;k<nc;++k ) { if ( fmtd ) r.sp(); else if ( k ) r.lit( ds ); r.lit( h[k] ); } r.lit( "\n" ); rule();
  for ( unsigned x=0;x<nr;++x ) { for ( unsigned k=0;k<nc;++k ) { if ( fmtd ) r.sp(); else if ( k ) r.lit( ds ); r.lit( text( mat ? mm.vr[x+k*nr] : numAt( c[k], x ) ) ); } r.lit( "\n" ); } rule();
  if ( fmtd ) sym_cover( "aligned" ); else sym_cover( "plain" );
  sym_assert( r.p == t.size(), "nothing else is written" );
  return 0;
}
