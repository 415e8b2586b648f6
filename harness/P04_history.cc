//@ modules: core
//@ split: 64
//@ bounds: histories of 3 (thorough 4, second and third from a reduced list) operations out of 34 on two containers (typed stores of 12 types, copies in both directions and to/from parts, clear, keyed and indexed writes, growth, appends, promotions, collapse, merge, erase, store/restore, refused accesses), then destruction; the operations after the first, stored integers and reals, the index (0..3) and the key (1 byte) used are symbolic; stored strings and vector sizes concrete
//@ quick: -DLEN=3 time=100
//@ thorough: -DLEN=4 time=850
//@ covers: done refused
#include "gcm.hh"
static int walk( G const & g ) {
  int s = int(g.get_type()) + int(g.get_num_elements()) + int(g.num_rows()) + int(g.num_cols());
  switch ( g.get_type() ) {
  case T::VECTOR: for ( auto const & x : g.get_vector() ) s += walk( x ); break;
  case T::MAP: for ( auto const & x : g.get_map() ) s += walk( x.second ) + int(x.first.size()); break;
  case T::STRING: for ( char c : g.get_string() ) s += c; break;
  case T::VEC_STRING: for ( auto const & x : g.get_vec_string() ) s += int(x.size()) + ( x.empty() ? 0 : x[0] ); break;
  case T::VEC_REAL: for ( double x : g.get_vec_real() ) s += x > 1; break;
  case T::VEC_INTEGER: for ( int x : g.get_vec_int() ) s += x; break;
  case T::VEC_COMPLEX: for ( auto const & x : g.get_vec_complex() ) s += x.real() > 1; break;
  case T::MAT_REAL: for ( double x : g.get_mat_real() ) s += x > 1; break;
  case T::MAT_COMPLEX: for ( auto const & x : g.get_mat_complex() ) s += x.real() > 1; break;
  default: break;
  }
  return s;
}
static std::string K; // a key of one arbitrary byte, fixed for the history
static int32_t X; static double D; static unsigned IX;
static void store( G & g, int k ) {
  switch ( k ) {
  case 0: g.set_int( X ); break;
  case 1: g.set_complex( D, 2 ); break;
  case 2: g.set_string( "a string longer than the small buffer" ); break;
  case 3: g.set_vec_int( vec_int_type{ X, 2 } ); break;
  case 4: g.set_vec_bool( vec_bool_type{ X > 0 } ); break;
  case 5: g.set_vec_string( vec_string_type{ "x", "a string longer than the small buffer" } ); break;
  case 6: { mat_real_type m( 1, 2 ); m(0,0) = D; m(0,1) = 2; g.set_mat_real( m ); } break;
  case 7: { vector_type & v = g.set_vector( 2 ); v[0].set_int( X ); v[1].set_vec_real( vec_real_type{ D } ); } break;
  case 8: { g.set_map(); g["k"].set_string( "a string longer than the small buffer" ); g["m"]["n"].set_vec_int( vec_int_type{ 3 } ); } break;
  case 9: g.set_pointer( &g ); break;
  case 10: g.set_vec_complex( vec_complex_type{ C( 1, 2 ) } ); break;
  default: { vector_type & v = g.set_vector( 2 ); v[0].set_vec_int( vec_int_type{ 1 } ); v[1].set_vec_int( vec_int_type{ 2 } ); } break;
  }
}
static void op( G & g, G & h, int k ) {
  switch ( k ) {
  case 12: g = h; break;
  case 13: h = g; break;
  case 14: g.clear(); sym_assert( g.get_type() == T::NOTYPE && g.get_num_elements() == 0, "a cleared container is empty" ); break;
  case 15: g[K] = X; break;
  case 16: g[K] = h; break;
  case 17: { G const t = g; g[IX] = t; sym_assert( g.get_type() == T::VECTOR && g.get_num_elements() > IX, "indexed access grows a vector" ); } break;
  case 18: g.push_int( X ); break;
  case 19: g.push_string( "a string longer than the small buffer" ); break;
  case 20: g.push_complex( D, 2 ); break;
  case 21: g.promote_to_vector(); break;
  case 22: g.promote_to_mat_complex(); break;
  case 23: g.collapse(); break;
  case 24: g.merge( h, "w" ); break;
  case 25: g.erase( K ); break;
  case 26: { std::vector<uint8_t> b; g.serialize( b ); h.de_serialize( b ); } break;
  case 27: g = g( K ); break;
  case 28: g( K ) = g; break;
  case 29: h = g( IX ); break;
  case 30: { G t; t.load( g ); g.load( t ); } break;
  case 31: (void)g.get_vec_real(); break;
  case 32: g.get_int_at( IX ) = X; break;
  default: { G t( g ); t[K] = h; g = t[K]; } break;
  }
}
static int pick() { unsigned char k = sym<unsigned char>( "op" ); sym_assume( k < 34 ); return k; } // the operation itself is symbolic
extern "C" int harness_main() {
  long live0 = sym_live();
  {
    G g, h; K = sstr( 1, "K" ); X = sym<int32_t>( "X" ); D = sym<double>( "D" ); IX = sym<unsigned>( "IX" ); sym_assume( IX < 4 ); static int const R[] = { 2, 7, 8, 11, 13, 16, 17, 21, 22, 23, 24, 27, 28, 33 };
    for ( int s = 0; s < LEN; ++s ) {
      int k = LEN == 4 && ( s == 1 || s == 2 ) ? R[sym_choose( 14, "opr" )] : s == 0 ? sym_choose( 34, "op" ) : pick();
      try { if ( k < 12 ) store( g, k ); else op( g, h, k ); } catch ( std::exception const & ) { sym_cover( "refused" ); }
      walk( g ); walk( h ); // every content stays readable, also after a refused operation
    }
    G c( g ); g.clear(); walk( c ); walk( h ); sym_cover( "done" );
  }
  K = std::string();
  sym_assert( sym_live() == live0, "everything allocated is released" );
  return 0;
}
