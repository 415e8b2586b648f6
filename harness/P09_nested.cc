//@ modules: core
//@ split: 16
//@ bounds: nested lookups through key sequences of length 1..2 over a map of maps with symbolic 1-byte keys; merging of maps of 0..2 entries (thorough 0..3) with symbolic, possibly equal, 1-byte keys into a map, an empty container or another type, with nested values, and merging a container into itself or with its own part
//@ quick: -DNK=3 time=60
//@ thorough: -DNK=4 time=600
//@ covers: nested_found nested_missing merged overwritten merge_refused self
#include "gcm.hh"
static M val( unsigned k ) { static T const K[] = { T::INTEGER, T::STRING, T::VEC_REAL, T::REAL }; return make( K[k%4], 1, 1 ); }
static M mapOf( unsigned n, unsigned off ) { M m; m.t = T::MAP; for ( unsigned k=0;k<n;++k ) { std::string key = sstr( 1, "key" ); for ( auto const & e : m.m ) sym_assume( !streq( e.first, key ) ); m.m.push_back( { key, val( k+off ) } ); } return m; }
static void put( M & m, std::string const & k, M const & v ) { for ( auto & e : m.m ) if ( streq( e.first, k ) ) { e.second = v; sym_cover( "overwritten" ); return; } m.m.push_back( { k, v } ); }
extern "C" int harness_main() {
  int z = sym_choose( 16, "op" );
  if ( z < 4 ) { // g[a][b] : string / number / int / bool
    static T const VT[] = { T::STRING, T::REAL, T::INTEGER, T::BOOL };
    std::string a = sstr( 1, "a" ), b = sstr( 1, "b" ), x = sstr( 1, "x" ), y = sstr( 1, "y" ); M v = make( VT[z], 1 );
    G g; build( v, g[a][b] ); G const & c = g; bool ok = true, hit = streq( a, x ) && streq( b, y ); if ( hit ) sym_cover( "nested_found" ); else sym_cover( "nested_missing" );
    try { switch ( z ) { case 0: { auto s = c.get_map_string( { x, y } ); if ( hit ) sym_assert( sveq( s, v.s ), "a nested lookup gives the stored value" ); } break; case 1: { auto s = c.get_map_number( { x, y } ); if ( hit ) sym_assert( deq( s, v.r ), "a nested lookup gives the stored value" ); } break;
      case 2: { auto s = c.get_map_int( { x, y } ); if ( hit ) sym_assert( s == v.i, "a nested lookup gives the stored value" ); } break; default: { auto s = c.get_map_bool( { x, y } ); if ( hit ) sym_assert( s == v.b, "a nested lookup gives the stored value" ); } } }
    catch ( std::exception const & ) { ok = false; }
    sym_assert( ok == hit, "a nested lookup succeeds exactly when the whole key sequence is stored" );
    M w; w.t = T::MAP; M in; in.t = T::MAP; in.m.push_back( { b, v } ); w.m.push_back( { a, in } ); same( c, w, "a nested lookup changes nothing" );
  } else if ( z < 12 ) { // merge
    unsigned n = unsigned(sym_choose( NK, "n" )), n2 = unsigned(sym_choose( NK, "n2" )); M d, s;
    switch ( z ) {
    case 4: case 5: d = mapOf( n, 0 ); s = mapOf( n2, 1 ); if ( z == 5 && n ) { M in = mapOf( 1, 2 ); d.m[0].second = in; if ( n2 ) s.m[0].second = mapOf( 1, 3 ); } break;
    case 6: d = M(); s = mapOf( n2, 1 ); if ( n ) sym_skip(); break;
    case 7: d = mapOf( n, 0 ); s = M(); if ( n2 ) sym_skip(); break;
    case 8: d = make( T( 1 + sym_choose( 19, "dt" ) ), 1, 1 ); s = mapOf( n2, 1 ); if ( n || d.t == T::MAP ) sym_skip(); break;
    case 9: d = mapOf( n, 0 ); s = make( T( 1 + sym_choose( 19, "st" ) ), 1, 1 ); if ( n2 || s.t == T::MAP ) sym_skip(); break;
    case 10: d = mapOf( n, 0 ); if ( n2 ) sym_skip(); break; // itself
    default: d = mapOf( n, 0 ); if ( !n || n2 ) sym_skip(); d.m[0].second = mapOf( 2, 1 ); break; // its own part
    }
    G g, h; build( d, g ); if ( d.t == T::MAP ) g.get_map(); build( s, h ); bool ok = true;
    if ( z == 10 ) { sym_cover( "self" ); try { g.merge( g, "w" ); } catch ( std::exception const & ) { ok = false; } sym_assert( ok, "merging a map into itself is served" ); same( g, d, "merging a map into itself changes nothing" ); return 0; }
    if ( z == 11 ) { M in = d.m[0].second; try { g.merge( g( d.m[0].first ), "w" ); } catch ( std::exception const & ) { ok = false; } sym_assert( ok, "merging a map with its own part is served" ); for ( auto const & e : in.m ) put( d, e.first, e.second ); same( g, d, "merging takes every entry of the source" ); return 0; }
    try { g.merge( h, "w" ); } catch ( std::exception const & ) { ok = false; }
    bool fine = ( d.t == T::MAP || d.t == T::NOTYPE ) && ( s.t == T::MAP || s.t == T::NOTYPE );
    sym_assert( ok == ( fine || s.t == T::NOTYPE ), "merging is refused exactly when one side is not a map" );
    if ( ok ) { sym_cover( "merged" ); if ( s.t == T::MAP ) { if ( d.t == T::NOTYPE ) d.t = T::MAP; for ( auto const & e : s.m ) put( d, e.first, e.second ); } same( g, d, "merging keeps the entries of the destination and takes every entry of the source" ); }
    else { sym_cover( "merge_refused" ); same( g, d, "a refused merge changes nothing" ); }
    same( h, s, "merging leaves the source unchanged" );
  } else sym_skip();
  return 0;
}
