//@ modules: core
//@ split: 14
//@ bounds: every stored type (2 elements, all bits symbolic) accessed for writing at the largest index 2^32-1 (vectors of booleans excepted), where no memory is enough: refused, and the stored elements stay; matrices requested or resized with row and column counts whose product does not fit 32 bits (5 pairs); pointers read and written by position in vectors of pointers and vectors of containers (0..3 elements, index any 32-bit value for reading, 0..4 for writing)
//@ quick: time=60
//@ thorough: time=200
//@ covers: far shape pointer_vec pointer_item refused
#include "oom.hh"
#include "num.hh"
static char const * const K = "access at an index that cannot be stored is refused and keeps the elements";
static void far( int kind, int op ) {
  M m = make( T(kind), 2, 2 ); G g; build( m, g ); bool ok = true; unsigned i = 0xFFFFFFFFu;
  try { switch ( op ) { case 0: (void)g.get_bool_at( i ); break; case 1: g.get_int_at( i ) = 1; break; case 2: g.get_long_at( i ) = 1; break; case 3: g.get_real_at( i ) = 1; break; case 4: g.get_complex_at( i ) = 1; break; case 5: g.get_string_at( i ) = "x"; break; case 6: g[i] = 1; break; } }
  catch ( std::exception const & ) { ok = false; }
  sym_assert( !ok, K ); if ( ok ) return; sym_cover( "far" );
  // the elements are kept (possibly promoted); operator [] drops content that is not a vector of containers
  if ( g.get_type() == m.t ) { if ( m.t != T::NOTYPE ) same( g, m, K ); return; }
  if ( op == 6 ) { sym_assert( m.t != T::VECTOR, K ); return; }
  if ( m.t == T::NOTYPE ) { sym_assert( g.get_num_elements() == 0, K ); return; }
  if ( g.get_type() == T::VECTOR ) { M w = spread( m ); same( g, w, K ); return; }
  int a = elemClass( m.t ), b = elemClass( g.get_type() ); sym_assert( a >= 0 && b >= 0 && a <= b, K ); if ( a >= 0 && b >= 0 && a <= b ) { M w = widened( m, g.get_type() ); same( g, w, K ); }
}
static void shape( int t ) {
  static unsigned const RC[5][2] = { { 0x80000000u, 0x80000000u }, { 0xFFFFFFFFu, 0xFFFFFFFFu }, { 0x80000000u, 0xC0000000u }, { 0xFFFF0000u, 0xFFFF0000u }, { 0x90000000u, 0xA0000000u } };
  int q = sym_choose( 5, "rc" ); unsigned nr = RC[q][0], nc = RC[q][1]; bool ok = true; G g; int how = sym_choose( 2, "how" );
  try {
    if ( how == 0 ) switch ( t ) { case 0: g.set_mat_int( nr, nc ); break; case 1: g.set_mat_long( nr, nc ); break; case 2: g.set_mat_real( nr, nc ); break; case 3: g.set_mat_complex( nr, nc ); break; }
    else switch ( t ) { case 0: { mat_int_type a( nr, nc ); } break; case 1: { mat_long_type a( nr, nc ); } break; case 2: { mat_real_type a( nr, nc ); } break; case 3: { mat_complex_type a( nr, nc ); } break; }
  } catch ( std::exception const & ) { ok = false; }
  sym_assert( !ok, "a matrix with more elements than memory can hold is refused" ); sym_cover( "shape" );
  if ( g.get_type() != T::NOTYPE ) { // whatever is left of it can be used and destroyed
    size_t n = t == 0 ? g.get_mat_int().size() : t == 1 ? g.get_mat_long().size() : t == 2 ? g.get_mat_real().size() : g.get_mat_complex().size();
    sym_assert( size_t(g.num_rows())*size_t(g.num_cols()) == n, "a refused matrix leaves a container that agrees with its shape" ); }
}
static void pointers( bool item ) {
  int n = sym_choose( 4, "n" ); M m; m.t = item ? T::VECTOR : T::VEC_POINTER;
  for ( int k=0;k<n;++k ) { M e = make( T::POINTER, 1 ); if ( item ) m.v.push_back( e ); else m.vp.push_back( e.p ); }
  G g; build( m, g ); if ( n == 0 && item ) g.set_vector(); G const & cg = g; bool ok = true; char const * P = "a pointer is read by position exactly as stored, or refused";
  if ( sym_choose( 2, "how" ) == 0 ) {
    unsigned i = sym<unsigned>( "i" ); int * p = nullptr; try { p = cg.get_pointer_at<int*>( i ); } catch ( std::exception const & ) { ok = false; }
    sym_assert( ok == ( i < unsigned(n) ), P ); if ( !ok ) { sym_cover( "refused" ); same( g, m, P ); return; }
    for ( unsigned k=0;k<unsigned(n);++k ) if ( k == i ) sym_assert( p == ( item ? m.v[k].p : m.vp[k] ), P );
  } else {
    unsigned i = unsigned(sym_choose( 5, "i" )); static int x; try { g.get_pointer_at<int*>( i ) = &x; } catch ( std::exception const & ) { ok = false; }
    sym_assert( ok || i >= unsigned(n), P );
    if ( ok ) { // read back, the others are kept
      sym_assert( g.get_type() == m.t && g.get_num_elements() > i && g.get_num_elements() >= unsigned(n), P ); if ( g.get_type() != m.t || g.get_num_elements() <= i ) return;
      sym_assert( cg.get_pointer_at<int*>( i ) == &x, P ); for ( unsigned k=0;k<unsigned(n);++k ) if ( k != i ) sym_assert( cg.get_pointer_at<void*>( k ) == ( item ? m.v[k].p : m.vp[k] ), P );
    } else { for ( unsigned k=0;k<unsigned(n);++k ) sym_assert( g.get_type() == m.t && cg.get_pointer_at<void*>( k ) == ( item ? m.v[k].p : m.vp[k] ), P ); }
  }
  sym_cover( item ? "pointer_item" : "pointer_vec" );
}
extern "C" int harness_main() {
  int z = sym_choose( 21*7 + 4 + 2, "case" );
  if ( z < 21*7 ) { int kind = z / 7, op = z % 7; if ( op == 0 && ( kind == int(T::VEC_BOOL) || kind == int(T::NOTYPE) || kind == int(T::BOOL) ) ) return 0; far( kind, op ); }
  else if ( z < 21*7+4 ) shape( z - 21*7 ); else pointers( z == 21*7+5 );
  return 0;
}
