#pragma once
// 46 operations on a container g (and a second one h, or a buffer b that h was stored in)
#include "num.hh"
static void op( G & g, G & h, int k, std::vector<uint8_t> & b ) {
  static char const * L = "a string longer than the small buffer";
  switch ( k ) {
  case 0: g.set_string( L ); break; case 1: g.set_complex( 1, 2 ); break; case 2: g.set_vec_pointer( 3 ); break; case 3: g.set_vec_bool( 3 ); break; case 4: g.set_vec_int( 3 ); break; case 5: g.set_vec_long( 3 ); break; case 6: g.set_vec_real( 3 ); break; case 7: g.set_vec_complex( 3 ); break; case 8: g.set_vec_string( 3 ); break;
  case 9: g.set_mat_int( 3, 2 ); break; case 10: g.set_mat_long( 3, 2 ); break; case 11: g.set_mat_real( 3, 2 ); break; case 12: g.set_mat_complex( 3, 2 ); break; case 13: g.set_vector( 3 ); break; case 14: g.set_map(); g["key"] = L; break;
  case 15: g = h; break; case 16: { G t( h ); } break; case 17: g.from_gc( h ); break; case 18: h.to_gc( g ); break; case 19: g["a key longer than the small buffer"] = h; break; case 20: g[3u] = h; break;
  case 21: g.push_bool( true ); break; case 22: g.push_int( 7 ); break; case 23: g.push_long( 7 ); break; case 24: g.push_real( 7 ); break; case 25: g.push_complex( 7, 8 ); break; case 26: g.push_string( L ); break;
  case 27: g.promote_to_vec_int(); break; case 28: g.promote_to_vec_long(); break; case 29: g.promote_to_vec_real(); break; case 30: g.promote_to_vec_complex(); break; case 31: g.promote_to_mat_int(); break; case 32: g.promote_to_mat_long(); break; case 33: g.promote_to_mat_real(); break; case 34: g.promote_to_mat_complex(); break; case 35: g.promote_to_vector(); break; case 36: g.promote_to_complex(); break;
  case 37: g.collapse(); break; case 38: g.merge( h, "w" ); break; case 39: g.get_string_at( 3 ) = L; break; case 40: g.get_complex_at( 3 ) = 1; break; case 41: g.get_int_at( 3 ) = 1; break; case 42: g.de_serialize( b ); break; case 43: g = L; break; case 44: g = C( 1, 2 ); break; case 45: g.get_complex_at( 1, 1 ) = 1; break;
  }
}
