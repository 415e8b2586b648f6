//@ modules: core
//@ split: 27
//@ engine: --fpcast
//@ bounds: every stored type (vectors 0..3 elements, matrices 0..2 x 0..2) and vectors of 0..2 columns of 0..2 elements of any two numeric types, all bits symbolic; targets matrix of int32, int64, double, complex; destination with previous content
//@ quick: -DNB=3 time=80 timeout=20000
//@ thorough: -DNB=4 time=600 timeout=120000
//@ covers: mat_copied mat_refused columns ragged
#include "num.hh"
static std::vector<Num> Q; static unsigned NR, NC; static bool ok;
// must: the content converts without loss to elements of class cls
static bool must( M const & m, int cls ) {
  if ( isMat( m.t ) ) return elemClass( m.t ) <= cls;
  if ( m.t == T::VECTOR ) return !m.v.empty();
  int e = elemClass( m.t ); return e >= 0 && e <= cls;
}
template <class MT> static void shape( MT const & x ) { sym_assert( x.num_rows() == NR && x.num_cols() == NC && x.size() == size_t(NR)*NC, "the matrix has the stored shape" ); }
extern "C" int harness_main() {
  int kind = sym_choose( 27, "kind" ); // 21..26: columns
  unsigned n = sizedKind( kind ) ? pick( NB, "n" ) : 1, n2 = kind >= 15 && kind <= 18 ? pick2( n, NB, "n2" ) : 1;
  M m; bool num = true, ragged = false; Q.clear();
  if ( kind < 21 ) {
    m = make( T(kind), n, n2 );
    if ( m.t == T::NOTYPE ) { NR = NC = 1; Q.push_back( Num{ true, false, 0, 0, 0 } ); }
    else if ( isMat( m.t ) ) { NR = n; NC = n2; Q = numsOf( m ); }
    else if ( m.t == T::VECTOR ) { if ( n > 1 ) sym_skip(); NC = n; NR = 1; for ( auto const & e : m.v ) Q.push_back( numOf( e ) ); num = n > 0; }
    else { num = numeric( m.t ); Q = numsOf( m ); NR = unsigned(Q.size()); NC = 1; }
  } else { // a vector of columns; kinds: real+int, int+int, long+bool, complex+real, bool+long, int+long; possibly of different length
    static T const K[6][2] = { { T::VEC_REAL, T::VEC_INTEGER }, { T::VEC_INTEGER, T::VEC_INTEGER }, { T::VEC_LONG, T::VEC_BOOL }, { T::VEC_COMPLEX, T::VEC_REAL }, { T::VEC_BOOL, T::VEC_LONG }, { T::VEC_INTEGER, T::VEC_LONG } };
    NR = unsigned(sym_choose( 3, "rows" )); NC = unsigned(sym_choose( 3, "cols" )); unsigned r2 = NC == 2 ? unsigned(sym_choose( 3, "rows2" )) : NR; ragged = r2 != NR;
    m.t = T::VECTOR; for ( unsigned j=0;j<NC;++j ) { m.v.push_back( make( K[kind-21][j], j ? r2 : NR ) ); auto x = numsOf( m.v[j] ); Q.insert( Q.end(), x.begin(), x.end() ); }
    sym_cover( "columns" ); if ( ragged ) sym_cover( "ragged" );
  }
  G g; build( m, g ); G const & c = g; ok = true;
  int cls = 1 + sym_choose( 4, "to" ); bool conv = true;
  mat_int_type mi( 1, 3 ); mat_long_type ml( 3, 1 ); mat_real_type mr( 2, 2 ); mat_complex_type mc( 1, 1 );
  try { switch ( cls ) { case 1: c.copyto_mat_int( mi, "w" ); break; case 2: c.copyto_mat_long( ml, "w" ); break; case 3: c.copyto_mat_real( mr, "w" ); break; default: c.copyto_mat_complex( mc, "w" ); } }
  catch ( std::exception const & ) { ok = false; }
  if ( !num || ragged ) sym_assert( !ok, "content that is not a numeric table is refused" );
  else if ( ok ) {
    sym_cover( "mat_copied" );
    for ( size_t k=0;k<Q.size();++k ) { Num const & q = Q[k]; double r = q.isReal ? q.r : double(q.l);
      switch ( cls ) {
      case 1: if ( !k ) shape( mi ); sym_assert( q.isReal ? tiny( q.im ) && ( tiny( r ) ? mi[k] == 0 : double(mi[k]) == r ) : int64_t(mi[k]) == q.l, "an element copied to an integer matrix equals the stored value" ); break;
      case 2: if ( !k ) shape( ml ); sym_assert( q.isReal ? tiny( q.im ) && ( tiny( r ) ? ml[k] == 0 : Rng<int64_t>::inD( r ) && double(ml[k]) == r ) : ml[k] == q.l, "an element copied to a long matrix equals the stored value" ); break;
      case 3: if ( !k ) shape( mr ); sym_assert( tiny( q.im ) && deq( mr[k], r ), "an element copied to a real matrix equals the stored value" ); break;
      case 4: if ( !k ) shape( mc ); sym_assert( ceq( mc[k], C( r, q.im ) ), "an element copied to a complex matrix equals the stored value" ); break;
      } }
    if ( Q.empty() ) { if ( cls == 1 ) shape( mi ); else if ( cls == 2 ) shape( ml ); else if ( cls == 3 ) shape( mr ); else shape( mc ); }
  } else {
    sym_cover( "mat_refused" );
    if ( kind < 21 && m.t != T::VECTOR ) sym_assert( !must( m, cls ) && m.t != T::NOTYPE, "a numeric content of a narrower type is copied to the matrix" );
    else { bool all = NC > 0; for ( auto const & q : Q ) all = all && ( cls == 4 || ( q.im == 0 && ( cls == 3 || ( q.isReal ? isInt( q.r ) && ( cls == 1 ? Rng<int32_t>::inD( q.r ) : Rng<int64_t>::inD( q.r ) ) : cls == 2 || Rng<int32_t>::inL( q.l ) ) ) ) ); sym_assert( !all, "columns whose values all fit are copied" ); }
  }
  same( g, m, "copying out leaves the container unchanged" );
  return 0;
}
