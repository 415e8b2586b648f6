//@ modules: core
//@ split: 29
//@ bounds: containers of every type (vectors 0..4, thorough 0..6, elements; matrices up to 4x4, thorough 6x6; strings of 0,1,3,17 arbitrary bytes; 8 nested shapes (every type as element and entry, 6 and 24 levels deep); maps with symbolic keys of 0..2 bytes), all bits symbolic; buffers of exactly the announced size, larger, and every smaller size; vector and pointer forms; restoring into an empty container or over other content
//@ quick: -DNB=5 time=90
//@ thorough: -DNB=7 time=800
//@ covers: exact larger small vector_form sequence keys
#include "gcm.hh"
extern "C" int harness_main() {
  int kind = sym_choose( NKINDS, "kind" );
  unsigned n = sizedKind( kind ) ? pick( kind == 7 ? 4 : NB, "n" ) : 1;
  unsigned n2 = kind >= 15 && kind <= 18 ? pick2( n, NB, "n2" ) : 1;
  int mode = sym_choose( 6, "mode" );
  long live0 = sym_live();
  {
    M m = anyM( kind, n, n2 );
    if ( mode == 5 ) { if ( kind != 20 ) sym_skip(); sym_cover( "keys" ); for ( unsigned k=0;k<m.m.size();++k ) { m.m[k].first = sstr( (k+n)%3, "key" ); for ( unsigned q=0;q<k;++q ) sym_assume( !streq( m.m[q].first, m.m[k].first ) ); } }
    G g; build( m, g );
    int32_t sz = g.mem_size(); sym_assert( sz >= 4, "the announced size is positive" );
    G h; if ( mode == 1 || mode == 3 ) build( make( mode == 1 ? T::VEC_STRING : T::MAP, 2 ), h );
    if ( mode == 4 ) { // vector form: enlarged when too small
      sym_cover( "vector_form" ); std::vector<uint8_t> buf( sym_choose( 2, "presize" ) ? size_t(sz)+3 : 0 ); bool ok = true; int32_t w = 0, r = 0;
      try { w = g.serialize( buf ); r = h.de_serialize( buf ); } catch ( std::exception const & ) { ok = false; }
      sym_assert( ok, "a container is stored in and restored from a vector of bytes" ); sym_assert( w == sz && r == sz && buf.size() >= size_t(sz), "the bytes written and read are the announced size" );
      same( h, m, "restoring gives the stored container" );
    } else if ( mode == 2 ) { // too small: refused, nothing written outside
      if ( kind > 20 && n > 1 ) sym_skip(); sym_cover( "small" );
      int32_t q = sym_choose( 4, "short" ); int32_t s = q == 0 ? sz-1 : q == 1 ? 0 : q == 2 ? 3 : sz/2; if ( s < 0 || s >= sz ) sym_skip();
      uint8_t * b = new uint8_t[s]; bool ok = true; try { (void)g.serialize( s, b ); } catch ( std::exception const & ) { ok = false; } sym_assert( !ok, "a buffer that is too small is refused" ); delete [] b;
    } else {
      size_t extra = mode == 1 ? 5 : 0; uint8_t * b = new uint8_t[size_t(sz)*2+extra]; bool ok = true; int32_t w = 0, w2 = 0, r = 0, r2 = 0; G h2;
      uint8_t * e = new uint8_t[sz]; // exactly the announced size
      try { w = g.serialize( sz, e ); r = h.de_serialize( sz, e ); } catch ( std::exception const & ) { ok = false; }
      sym_assert( ok, "a container fits in a buffer of the announced size and is restored from it" ); sym_assert( w == sz && r == sz, "the bytes written and read are the announced size" ); sym_cover( "exact" );
      same( h, m, "restoring gives the stored container" );
      same( g, m, "storing changes nothing" );
      if ( mode == 1 ) { // two containers one after the other in a larger buffer
        try { w = g.serialize( sz*2+int32_t(extra), b ); w2 = h.serialize( sz+int32_t(extra), b+w ); r = h2.de_serialize( sz*2+int32_t(extra), b ); } catch ( std::exception const & ) { ok = false; } sym_assert( ok && w == sz && w2 == sz && r == sz, "containers are stored one after the other" ); same( h2, m, "restoring gives the stored container" );
        try { r2 = h2.de_serialize( sz+int32_t(extra), b+r ); } catch ( std::exception const & ) { ok = false; } sym_assert( ok && r2 == sz, "containers are stored one after the other" ); same( h2, m, "restoring gives the stored container" ); sym_cover( "larger" ); sym_cover( "sequence" ); }
      delete [] e; delete [] b;
    }
  }
  sym_assert( sym_live() == live0, "storing and restoring leaks nothing" );
  return 0;
}
