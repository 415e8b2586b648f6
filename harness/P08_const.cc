//@ modules: core
//@ split: 66
//@ bounds: every stored type (vectors 0..3, thorough 0..4, elements; matrices 0..2 x 0..2, thorough 0..3), all bits symbolic; index (and row, column) any 32-bit value; every read-only indexed accessor
//@ quick: -DNB=4 -DNM=3 -DBIGS=18 time=90
//@ thorough: -DNB=5 -DNM=4 -DBIGS=9,34,130 time=600
//@ covers: read out_of_range wrong_type mat_read mat_out
#include "num.hh"
static char const * const R = "an element read by index is the stored element";
static char const * const B = "an index outside the stored elements is refused";
static char const * const W = "indexed access to another type of content is refused";
extern "C" int harness_main() {
  int z = sym_choose( 22*15, "kind,op" ), kind = z / 15, op = z % 15;
  bool mat = kind >= 15 && kind <= 18;
  unsigned n = sizedKind( kind ) || kind == 21 ? pick( mat ? NM : NB, "n" ) : 1, n2 = mat ? pick2( n, NM, "n2" ) : 1;
  M m; if ( kind < 21 ) m = make( T(kind), n, n2 ); else { m.t = T::VECTOR; for ( unsigned k=0;k<n;++k ) { Conc z( n > 4 && !at3( k, n ) ); m.v.push_back( make( T( int(T::BOOL) + (k+1)%5 ), 1 ) ); } }
  G g; build( m, g ); G const & c = g;
  unsigned i = sym<unsigned>( "i" ), j = sym<unsigned>( "j" ); bool ok = true;
#define RUN(...) try { __VA_ARGS__; } catch ( std::exception const & ) { ok = false; }
#define VEC(TT,CALL,FIELD,EQ) { RUN( CALL ) if ( m.t != TT ) { sym_assert( !ok, W ); sym_cover( "wrong_type" ); } else if ( i >= m.FIELD.size() ) { sym_assert( !ok, B ); sym_cover( "out_of_range" ); } else { sym_assert( ok, R ); sym_cover( "read" ); for ( unsigned k=0;k<m.FIELD.size();++k ) if ( i == k ) sym_assert( EQ, R ); } }
#define MAT(TT,CALL,FIELD,EQ) { RUN( CALL ) if ( m.t != TT ) { sym_assert( !ok, W ); } else if ( i >= m.nr || j >= m.nc ) { sym_assert( !ok, B ); sym_cover( "mat_out" ); } else { sym_assert( ok, R ); sym_cover( "mat_read" ); for ( unsigned k=0;k<m.FIELD.size();++k ) if ( i == k % m.nr && j == k / m.nr ) sym_assert( EQ, R ); } }
  int32_t xi = 0; int64_t xl = 0; double xr = 0; C xc; bool xb = false;
  switch ( op ) {
  case 0: VEC( T::VEC_BOOL, xb = c.get_bool_at( i, "w" ), vb, xb == ( m.vb[k] != 0 ) ) break;
  case 1: VEC( T::VEC_INTEGER, xi = c.get_int_at( i, "w" ), vi, xi == m.vi[k] ) break;
  case 2: VEC( T::VEC_LONG, xl = c.get_long_at( i, "w" ), vl, xl == m.vl[k] ) break;
  case 3: VEC( T::VEC_REAL, xr = c.get_real_at( i, "w" ), vr, deq( xr, m.vr[k] ) ) break;
  case 4: VEC( T::VEC_COMPLEX, xc = c.get_complex_at( i, "w" ), vc, ceq( xc, m.vc[k] ) ) break;
  case 5: { string_view xs; VEC( T::VEC_STRING, xs = c.get_string_at( i, "w" ), vs, sveq( xs, m.vs[k] ) ) } break;
  case 6: { G const * e = nullptr; int how = sym_choose( 4, "how" );
      if ( how == 3 ) { RUN( e = &g( i, "w" ) ) } else RUN( e = how == 0 ? &c.get_gc_at( i, "w" ) : how == 1 ? &c( i, "w" ) : &c[i] )
      if ( m.t != T::VECTOR ) sym_assert( !ok, W );
      else if ( i >= m.v.size() ) { sym_assert( !ok, B ); sym_cover( "out_of_range" ); }
      else { sym_assert( ok, R ); for ( unsigned k=0;k<m.v.size();++k ) if ( i == k ) same( *e, m.v[k], R ); } } break;
  case 7: case 8: case 13: {
      std::vector<Num> q = numsOf( m ); bool num = numeric( m.t ) && !isScalar( m.t ); unsigned bad = 99;
      if ( m.t == T::VECTOR ) { num = true; for ( auto const & e : m.v ) { Num x = numOf( e ); q.push_back( x ); } }
      if ( op == 7 && ( m.t == T::VEC_COMPLEX || m.t == T::MAT_COMPLEX ) ) num = false;
      double re = 0, im = 0;
      if ( op == 7 ) RUN( re = c.get_number_at( i, "w" ) ) else if ( op == 8 ) RUN( C x = c.get_complex_number_at( i, "w" ); re = x.real(); im = x.imag() ) else RUN( c.get_complex_number_at( i, re, im, "w" ) )
      if ( !num ) sym_assert( !ok, W );
      else if ( i >= q.size() ) { sym_assert( !ok, B ); sym_cover( "out_of_range" ); }
      else for ( unsigned k=0;k<q.size();++k ) if ( i == k ) { if ( !q[k].numeric || ( op == 7 && m.t == T::VECTOR && m.v[k].t == T::COMPLEX ) ) sym_assert( !ok, W ); else if ( op == 7 ) { if ( m.t == T::VECTOR ) ckReal( q[k], ok, re, R, true ); else sym_assert( ok && ( q[k].isReal ? deq( re, q[k].r ) : re == double(q[k].l) ), R ); } else ckCplx( q[k], ok, re, im, R ); }
      (void)bad; } break;
  case 9:  MAT( T::MAT_INTEGER, xi = c.get_int_at( i, j, "w" ), vi, xi == m.vi[k] ) break;
  case 10: MAT( T::MAT_LONG, xl = c.get_long_at( i, j, "w" ), vl, xl == m.vl[k] ) break;
  case 11: MAT( T::MAT_REAL, xr = c.get_real_at( i, j, "w" ), vr, deq( xr, m.vr[k] ) ) break;
  case 12: MAT( T::MAT_COMPLEX, xc = c.get_complex_at( i, j, "w" ), vc, ceq( xc, m.vc[k] ) ) break;
  case 14: { // sizes
      unsigned ne = c.get_num_elements(), r = c.num_rows(), q = c.num_cols();
      unsigned want = m.t == T::NOTYPE ? 0 : isScalar( m.t ) ? 1 : m.t == T::VECTOR ? unsigned(m.v.size()) : m.t == T::MAP ? unsigned(m.m.size()) : isMat( m.t ) ? n*n2 : n;
      sym_assert( ne == want, "the number of elements is the number stored" );
      if ( isMat( m.t ) ) sym_assert( r == n && q == n2, "rows and columns are those stored" ); } break;
  }
  same( c, m, "reading by index leaves the container unchanged" );
  return 0;
}
