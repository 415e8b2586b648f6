//@ modules: core
//@ split: 29
//@ bounds: every stored type (vectors 0..2, thorough 0..3, elements; matrices 0..2 x 0..2, thorough 0..3) or container of containers, all bits symbolic; each of the 13 promotions and the 12 promoting mutable accessors; two promotions in a row
//@ quick: -DNB=3 time=80
//@ thorough: -DNB=4 time=600
//@ covers: promoted refused chained
#include "num.hh"
// supported widenings: target t from source s
static bool must( T s, T t ) {
  if ( s == T::NOTYPE ) return true;
  if ( s == t ) return true;
  int a = elemClass( s ), b = elemClass( t ); if ( a < 0 || b < 0 || a > b ) return false;
  if ( isScalar( t ) ) return isScalar( s );
  if ( isVec( t ) ) return isScalar( s ) || isVec( s );
  // matrices: the library does not accept a long or complex scalar for every matrix type, nor a complex vector
  if ( isScalar( s ) ) return a <= 1 || ( t == T::MAT_REAL && s == T::REAL ) || ( t == T::MAT_COMPLEX && a <= 3 );
  if ( isVec( s ) ) return a <= 3;
  return true;
}
static void promote( G & g, T t ) {
  G const * r = nullptr;
  switch ( t ) {
  case T::INTEGER: r = &g.promote_to_int(); break;
  case T::LONG: r = &g.promote_to_long(); break;
  case T::REAL: r = &g.promote_to_real(); break;
  case T::COMPLEX: r = &g.promote_to_complex(); break;
  case T::VEC_INTEGER: r = &g.promote_to_vec_int(); break;
  case T::VEC_LONG: r = &g.promote_to_vec_long(); break;
  case T::VEC_REAL: r = &g.promote_to_vec_real(); break;
  case T::VEC_COMPLEX: r = &g.promote_to_vec_complex(); break;
  case T::MAT_INTEGER: r = &g.promote_to_mat_int(); break;
  case T::MAT_LONG: r = &g.promote_to_mat_long(); break;
  case T::MAT_REAL: r = &g.promote_to_mat_real(); break;
  case T::MAT_COMPLEX: r = &g.promote_to_mat_complex(); break;
  default: r = &g.promote_to_vector(); break;
  }
  CHECK( r == &g );
}
static T const TG[] = { T::INTEGER, T::LONG, T::REAL, T::COMPLEX, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX, T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX, T::VECTOR };
// returns the model after the (possibly refused) promotion
static M one( G & g, M const & m, T t ) {
  bool ok = !throws( [&]{ promote( g, t ); } );
  if ( t == T::VECTOR ) {
    bool need = !isMat( m.t ) && m.t != T::MAP;
    if ( need ) sym_assert( ok, "every scalar and vector promotes to a vector of containers" );
    if ( !ok ) { same( g, m, "a refused promotion leaves the container unchanged" ); sym_cover( "refused" ); return m; }
    sym_assert( need, "only scalars and vectors promote to a vector of containers" );
    M w = spread( m ); same( g, w, "promotion to a vector of containers keeps every element" ); sym_cover( "promoted" ); return w;
  }
  if ( must( m.t, t ) ) sym_assert( ok, "a supported widening is performed" );
  if ( !ok ) { same( g, m, "a refused promotion leaves the container unchanged" ); sym_cover( "refused" ); return m; }
  sym_assert( m.t == T::NOTYPE || ( numeric( m.t ) && elemClass( m.t ) <= elemClass( t ) ), "a promotion that would lose information is refused" );
  // promoting a numeric vector to complex makes it a complex vector
  T tt = isScalar( t ) && isVec( m.t ) ? withClass( 1, elemClass( t ) ) : t;
  M w = widened( m, tt );
  same( g, w, "a promotion keeps the shape and every value" ); sym_cover( "promoted" );
  return w;
}
extern "C" int harness_main() {
  int kind = sym_choose( NKINDS, "kind" );
  unsigned n = sizedKind( kind ) ? pick( NB, "n" ) : 1;
  unsigned n2 = kind >= 15 && kind <= 18 ? pick2( n, NB, "n2" ) : 1;
  long live0 = sym_live();
  {
    M m = anyM( kind, n, n2 );
    G g; build( m, g );
    int k = sym_choose( 21, "target" );
    if ( k < 13 ) {
      M w = one( g, m, TG[k] );
      if ( n == 1 || n == 2 ) { T t2 = TG[sym_choose( 13, "target2" )]; one( g, w, t2 ); sym_cover( "chained" ); }
    } else { // a mutable accessor promotes in place
      T t = TG[4+k-13]; bool ok = true;
      try { switch ( t ) {
        case T::VEC_INTEGER: (void)g.get_vec_int("w"); break; case T::VEC_LONG: (void)g.get_vec_long("w"); break; case T::VEC_REAL: (void)g.get_vec_real("w"); break; case T::VEC_COMPLEX: (void)g.get_vec_complex("w"); break;
        case T::MAT_INTEGER: (void)g.get_mat_int("w"); break; case T::MAT_LONG: (void)g.get_mat_long("w"); break; case T::MAT_REAL: (void)g.get_mat_real("w"); break; default: (void)g.get_mat_complex("w"); break; } }
      catch ( std::exception const & ) { ok = false; }
      if ( m.t == T::NOTYPE ) { sym_assert( ok && g.get_type() == t, "a mutable accessor of an empty container creates the type" ); CHECK( g.get_num_elements() == 0 ); }
      else if ( !ok ) { sym_assert( m.t != t, "the accessor of the stored type succeeds" ); same( g, m, "a refused accessor leaves the container unchanged" ); }
      else { sym_assert( numeric( m.t ) && elemClass( m.t ) <= elemClass( t ), "a mutable accessor never loses information" ); same( g, widened( m, t ), "a mutable accessor that widens keeps the shape and every value" ); }
    }
  }
  sym_assert( sym_live() == live0, "promoting leaks nothing" );
  return 0;
}
