//@ modules: core
//@ split: 24
//@ bounds: restoring from any buffer of 0..NBYTES arbitrary bytes (quick 20, thorough 28), every byte symbolic, for every first type tag; and from every strict prefix of a stored container of each type (vectors of 1..2 and 40 elements, nested shapes; of a longer one 40 evenly spread prefixes); stack exhaustion by very deep nesting is outside
//@ quick: -DNBYTES=21 time=100
//@ thorough: -DNBYTES=29 time=800
//@ covers: accepted refused prefix badtag
#include "gcm.hh"
static int walk( G const & g ) { // use everything that was restored
  switch ( g.get_type() ) {
  case T::VECTOR: { int s = 0; for ( auto const & x : g.get_vector() ) s += walk( x ); return s; }
  case T::MAP: { int s = 0; for ( auto const & x : g.get_map() ) s += walk( x.second ) + int(x.first.size()); return s; }
  default: { M m; m.t = g.get_type(); G c( g ); return int(c.get_num_elements()) + c.mem_size(); }
  }
}
extern "C" int harness_main() {
  int z = sym_choose( 48, "tag" ); long live0 = sym_live();
  {
    G h; h.set_string( "old" );
    if ( z < 23 ) { // tag z (21, 22: not a type), any other bytes
      unsigned len = sym_choose( NBYTES, "len" ); uint8_t * b = new uint8_t[len]; if ( len ) sym_bytes( b, len, "bytes" );
      if ( len >= 4 ) { uint32_t t; std::memcpy( &t, b, 4 ); if ( z < 21 ) { sym_assume( t == uint32_t(z) ); b[0] = uint8_t(z); b[1] = b[2] = b[3] = 0; } else if ( z == 21 ) sym_assume( t > 20 ); else sym_skip(); } else if ( z ) sym_skip();
      bool ok = true; int32_t r = 0; try { r = h.de_serialize( int32_t(len), b ); } catch ( std::exception const & ) { ok = false; }
      if ( ok ) { sym_cover( "accepted" ); sym_assert( z < 21 && r >= 4 && r <= int32_t(len), "restoring reads no more than the buffer" ); sym_assert( h.get_type() == T( z ), "the restored type is the stored one" ); walk( h ); } else sym_cover( "refused" ); if ( z == 21 ) { sym_assert( !ok, "an unknown type is refused" ); sym_cover( "badtag" ); }
      delete [] b;
    } else if ( z < 48 ) { // every strict prefix of a stored container
      int kind = z-23; unsigned n = 1 + ( sizedKind( kind ) ? unsigned(sym_choose( 3, "n" )) : 0u ); if ( n == 3 ) n = 40; M m = anyM( kind, n, 1 ); G g; build( m, g ); int32_t sz = g.mem_size(); std::vector<uint8_t> full( sz ); g.serialize( full );
      int32_t cut = sz <= 40 ? sym_choose( sz, "cut" ) : sym_choose( 40, "cut" ) * sz / 40; uint8_t * b = new uint8_t[cut]; std::memcpy( b, full.data(), size_t(cut) ); bool ok = true; sym_cover( "prefix" );
      try { (void)h.de_serialize( cut, b ); } catch ( std::exception const & ) { ok = false; } sym_assert( !ok, "a truncated buffer is refused" ); walk( h ); delete [] b;
    }
  }
  sym_assert( sym_live() == live0, "a refused restore leaks nothing" );
  return 0;
}
