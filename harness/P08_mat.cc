//@ modules: core
//@ split: 8
//@ bounds: matrices of int32, int64, double, complex of 0..3 x 0..3 (thorough 0..4) elements, all bits symbolic; row / column index any 32-bit value; element read and write by (row,column), extraction of rows and columns into vectors (with previous content) and raw memory; resizing
//@ quick: -DNM=4 time=60
//@ thorough: -DNM=5 time=600
//@ covers: element row column refused
#include "gcm.hh"
static int eq( int32_t a, int32_t b ) { return a == b; } static int eq( int64_t a, int64_t b ) { return a == b; } static int eq( double a, double b ) { return deq( a, b ); } static int eq( C const & a, C const & b ) { return ceq( a, b ); }
template <class TY> static TY mk() { return sym<TY>( "x" ); }
template <> C mk<C>() { double a = sym<double>( "re" ), b = sym<double>( "im" ); return C( a, b ); }
template <class TY> static void run( int op ) {
  unsigned nr = unsigned(sym_choose( NM, "nr" )), nc = unsigned(sym_choose( NM, "nc" ));
  mat_type<TY> A; if ( op == 0 ) A.resize( nr, nc ); else { mat_type<TY> B( nr, nc ); A = B; }
  std::vector<TY> v; for ( unsigned k=0;k<nr*nc;++k ) v.push_back( mk<TY>() );
  sym_assert( A.num_rows() == nr && A.num_cols() == nc && A.size() == size_t(nr)*nc, "a matrix has the requested shape" );
  for ( unsigned j=0;j<nc;++j ) for ( unsigned i=0;i<nr;++i ) A( i, j ) = v[ i + j*nr ];
  mat_type<TY> const & c = A; unsigned i = sym<unsigned>( "i" ), j = sym<unsigned>( "j" ); bool ok = true;
  for ( unsigned b=0;b<nc;++b ) for ( unsigned a=0;a<nr;++a ) sym_assert( eq( c( a, b ), v[ a + b*nr ] ), "an element written by row and column is read back there" );
  for ( unsigned k=0;k<nr*nc;++k ) sym_assert( eq( c[k], v[k] ), "matrices are stored column by column" );
  if ( op == 0 ) { TY x{}; try { x = c( i, j ); } catch ( std::exception const & ) { ok = false; }
    sym_assert( ok == ( i < nr && j < nc ), "row or column outside the matrix is refused" ); sym_cover( ok ? "element" : "refused" );
    if ( ok ) for ( unsigned b=0;b<nc;++b ) for ( unsigned a=0;a<nr;++a ) if ( a == i && b == j ) sym_assert( eq( x, v[ a + b*nr ] ), "an element written by row and column is read back there" );
  } else {
    std::vector<TY> r( 2 ), q( 2 ); TY raw[NM+1]; TY guard = mk<TY>(); for ( auto & x : raw ) x = guard;
    if ( op == 1 ) { try { c.get_row( i, r ); } catch ( std::exception const & ) { ok = false; } sym_assert( ok == ( i < nr ), "a row outside the matrix is refused" );
      if ( ok ) { sym_cover( "row" ); sym_assert( r.size() == nc, "a row has one element per column" ); for ( unsigned a=0;a<nr;++a ) if ( a == i ) for ( unsigned b=0;b<nc;++b ) sym_assert( eq( r[b], v[ a + b*nr ] ), "a row holds the elements of that row" );
        c.get_row( i, raw ); for ( unsigned a=0;a<nr;++a ) if ( a == i ) for ( unsigned b=0;b<nc;++b ) sym_assert( eq( raw[b], v[ a + b*nr ] ), "a row holds the elements of that row" ); for ( unsigned b=nc;b<=NM;++b ) sym_assert( eq( raw[b], guard ), "no more than one row is written" ); }
    } else { try { c.get_column( j, q ); } catch ( std::exception const & ) { ok = false; } sym_assert( ok == ( j < nc ), "a column outside the matrix is refused" );
      if ( ok ) { sym_cover( "column" ); sym_assert( q.size() == nr, "a column has one element per row" ); for ( unsigned b=0;b<nc;++b ) if ( b == j ) for ( unsigned a=0;a<nr;++a ) sym_assert( eq( q[a], v[ a + b*nr ] ), "a column holds the elements of that column" );
        c.get_column( j, raw ); for ( unsigned b=0;b<nc;++b ) if ( b == j ) for ( unsigned a=0;a<nr;++a ) sym_assert( eq( raw[a], v[ a + b*nr ] ), "a column holds the elements of that column" ); for ( unsigned a=nr;a<=NM;++a ) sym_assert( eq( raw[a], guard ), "no more than one column is written" ); }
    }
  }
}
extern "C" int harness_main() {
  int z = sym_choose( 12, "ty,op" ), op = z % 3;
  switch ( z / 3 ) { case 0: run<int_type>( op ); break; case 1: run<long_type>( op ); break; case 2: run<real_type>( op ); break; default: run<complex_type>( op ); }
  return 0;
}
