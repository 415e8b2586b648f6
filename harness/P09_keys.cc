//@ modules: core
//@ split: 64
//@ bounds: maps of 0..2 (thorough 0..3) entries with distinct keys of 0..2 arbitrary bytes (four combinations of lengths) and values of 10 types (all bits symbolic), and containers of every other type; the looked-up key is any 0..2 bytes, given as a view into a longer buffer; lists of two candidate keys; lookup, optional lookup, required lookup, insertion, removal, key listing
//@ quick: -DNK=3 time=70
//@ thorough: -DNK=4 time=700
//@ covers: found missing notmap inserted erased candidates
#include "num.hh"
static M val( int k ) { static T const K[] = { T::BOOL, T::INTEGER, T::STRING, T::VEC_REAL, T::VEC_COMPLEX, T::VEC_STRING, T::REAL, T::MAP, T::VEC_BOOL, T::VEC_INTEGER }; return make( K[k < 0 ? 1 : k], 1, 1 ); }
static std::string buf; // the view handed to the library has other bytes behind it
static string_view view( std::string const & k ) { buf = k + "~tail"; return string_view( buf.data(), k.size() ); }
static int find( M const & m, std::string const & k ) { for ( size_t e=0;e<m.m.size();++e ) if ( streq( m.m[e].first, k ) ) return int(e); return -1; }
extern "C" int harness_main() {
  int z = sym_choose( 16*4, "op,vk" ), op = z / 4, vk = z % 4;
  bool lists = op == 0 || op == 1 || op == 4 || op == 15 || ( op >= 9 && op < 14 );
  static int const VK[16][4] = { {1,-1,-1,-1}, {1,-1,-1,-1}, {2,3,-1,-1}, {7,-1,-1,-1}, {0,-1,-1,-1}, {5,-1,-1,-1}, {6,-1,-1,-1}, {2,7,-1,-1}, {4,-1,-1,-1}, {0,1,8,-1}, {2,1,8,-1}, {3,1,0,9}, {4,3,0,9}, {5,2,8,-1}, {0,1,2,6}, {0,2,1,-1} };
  int kind = sym_choose( 3, "content" ); // 0: empty map; 1: map; 2: another type
  M m; m.t = T::MAP; unsigned n = 0; static unsigned const LEN[4][4] = { { 1, 1, 2, 1 }, { 0, 2, 1, 0 }, { 2, 1, 0, 1 }, { 1, 2, 1, 2 } }; int pat = 0;
  if ( kind == 2 ) { static T const O[] = { T::NOTYPE, T::INTEGER, T::VECTOR, T::VEC_STRING }; m = make( O[vk], 1, 1 ); sym_cover( "notmap" ); }
  else if ( kind == 1 ) { if ( VK[op][vk] < 0 ) sym_skip(); n = 1 + unsigned(sym_choose( NK-1, "n" )); pat = sym_choose( 4, "lengths" ); for ( unsigned k=0;k<n;++k ) { std::string key = sstr( LEN[pat][k], "key" ); for ( auto const & e : m.m ) sym_assume( !streq( e.first, key ) ); m.m.push_back( { key, val( VK[op][k ? (vk+k)%2 : unsigned(vk)] ) } ); } }
  else if ( vk ) sym_skip();
  G g; build( m, g ); if ( m.t == T::MAP && m.m.empty() ) g.set_map(); G const & c = g;
  std::string k = sstr( LEN[pat][3], "k" ), k2 = lists ? sstr( 1, "k2" ) : "none"; vec_string_type ks{ k2, k };
  int f = m.t == T::MAP ? find( m, k ) : -1, f2 = m.t == T::MAP ? find( m, k2 ) : -1, fl = f2 >= 0 ? f2 : f; bool map = m.t == T::MAP, ok = true;
  if ( f >= 0 ) sym_cover( "found" ); else sym_cover( "missing" ); if ( f2 >= 0 ) sym_cover( "candidates" );
  string_view v = view( k );
#define RUN(...) try { __VA_ARGS__; } catch ( std::exception const & ) { ok = false; }
  switch ( op ) {
  case 0: sym_assert( c.exists( v ) == ( f >= 0 ), "a key exists exactly when it was stored" ); sym_assert( c.exists( ks ) == ( fl >= 0 ), "some key of a list exists exactly when one was stored" ); break;
  case 1: { std::string w; RUN( w = c.must_exists( ks, "w" ) ) sym_assert( ok == ( fl >= 0 ), "a required key is reported missing exactly when none is stored" ); if ( ok && fl >= 0 ) sym_assert( streq( w, f2 >= 0 ? k2 : k ), "the first stored key of the list is chosen" ); } break;
  case 2: { G const * e = nullptr; RUN( e = &c( v, "w" ) ) sym_assert( ok == ( f >= 0 ), "a lookup succeeds exactly when the key is stored" ); if ( ok && f >= 0 ) same( *e, m.m[f].second, "a lookup gives the value stored under that key" ); } break;
  case 3: { G * e = nullptr; RUN( e = &g( v, "w" ) ) sym_assert( ok == ( f >= 0 ), "a lookup succeeds exactly when the key is stored" ); if ( ok && f >= 0 ) { same( *e, m.m[f].second, "a lookup gives the value stored under that key" ); *e = 5; m.m[f].second = M(); m.m[f].second.t = T::INTEGER; m.m[f].second.i = 5; } } break;
  case 4: { G const * e = nullptr; RUN( e = &c( ks, "w" ) ) sym_assert( ok == ( fl >= 0 ), "a lookup of a list of keys succeeds exactly when one is stored" ); if ( ok && fl >= 0 ) same( *e, m.m[fl].second, "a lookup of a list gives the value of the first stored key" );
      ok = true; G * d = nullptr; RUN( d = &g( ks, "w" ) ) sym_assert( ok == ( fl >= 0 ), "a lookup of a list of keys succeeds exactly when one is stored" ); if ( ok && fl >= 0 ) sym_assert( d == e, "mutable and read-only lookups give the same entry" ); } break;
  case 5: { G const * e = nullptr; RUN( e = &c[v] ) sym_assert( ok == ( f >= 0 ), "a read-only subscript succeeds exactly when the key is stored" ); if ( ok && f >= 0 ) same( *e, m.m[f].second, "a subscript gives the value stored under that key" ); } break;
  case 6: { G * e = &g[v]; sym_cover( "inserted" ); if ( !map ) { m = M(); m.t = T::MAP; } if ( f < 0 ) { m.m.push_back( { k, M() } ); f = int(m.m.size())-1; } same( g, m, "a subscript inserts an empty value for a new key and keeps everything else" );
      int32_t x = sym<int32_t>( "x" ); *e = x; m.m[f].second = M(); m.m[f].second.t = T::INTEGER; m.m[f].second.i = x; } break;
  case 7: { bool o = true; try { c.erase( v ); } catch ( std::exception const & ) { o = false; } sym_assert( o == map, "removal is refused exactly on content that is not a map" ); if ( f >= 0 ) { m.m.erase( m.m.begin()+f ); sym_cover( "erased" ); } } break;
  case 8: { vec_string_type keys; keys.push_back( "old" ); string txt; RUN( c.get_keys( keys ); txt = c.get_keys() ) sym_assert( ok, "keys can be listed" ); if ( !map ) { sym_assert( keys.empty() && txt.empty(), "content that is not a map has no keys" ); break; }
      sym_assert( keys.size() == m.m.size(), "every key is listed once" ); for ( auto const & e : m.m ) { int cnt = 0; for ( auto const & q : keys ) cnt += streq( q, e.first ); sym_assert( cnt == 1, "every key is listed once" ); }
      std::string want; for ( size_t q=0;q<keys.size();++q ) { if ( q ) want += ", "; want += keys[q]; } sym_assert( streq( txt, want ), "the key list in text form names the same keys" ); } break;
  // typed keyed access: exact type (numbers are converted: see P06)
#define TYPED(TT,CALL1,CALL2,CALL3,EQ) { \
      { RUN( auto && x = CALL1; if ( f >= 0 && m.m[f].second.t == TT ) { M const & e = m.m[f].second; sym_assert( EQ, "a typed keyed read gives the stored value" ); } ) } sym_assert( ok == ( f >= 0 && m.m[f].second.t == TT ), "a typed keyed read succeeds exactly when the key holds that type" ); \
      ok = true; { RUN( auto && x = CALL2; if ( fl >= 0 && m.m[fl].second.t == TT ) { M const & e = m.m[fl].second; sym_assert( EQ, "a typed keyed read gives the stored value" ); } ) } sym_assert( ok == ( fl >= 0 && m.m[fl].second.t == TT ), "a typed keyed read of a list succeeds exactly when its first stored key holds that type" ); \
      ok = true; { RUN( auto && x = CALL3; if ( f >= 0 && m.m[f].second.t == TT ) { M const & e = m.m[f].second; sym_assert( EQ, "a typed keyed read gives the stored value" ); } ) } sym_assert( ok == ( f >= 0 && m.m[f].second.t == TT ), "a typed keyed read succeeds exactly when the key holds that type" ); }
  case 9: TYPED( T::BOOL, c.get_map_bool( v, "w" ), c.get_map_bool( ks, "w" ), c.get_map_bool( { k } ), x == e.b ) break;
  case 10: TYPED( T::STRING, c.get_map_string( v, "w" ), c.get_map_string( ks, "w" ), c.get_map_string( { k } ), sveq( x, e.s ) ) break;
  // a keyed read of a numeric vector may widen the stored vector, without changing a value
#define WIDE(TT,CALL1,CALL2,CALL3,EQ) { for ( int form = 0; form < 3; ++form ) { int h = form == 1 ? fl : f; ok = true; T t = h >= 0 ? m.m[h].second.t : T::NOTYPE; bool can = h >= 0 && isVec( t ) && elemClass( t ) >= 0 && elemClass( t ) <= elemClass( TT ); \
      M e = can ? ( t == TT ? m.m[h].second : widened( m.m[h].second, TT ) ) : M(); \
      RUN( auto && x = form == 0 ? CALL1 : form == 1 ? CALL2 : CALL3; if ( can ) sym_assert( x.size() == 1 && EQ, "a typed keyed read gives the stored value" ); ) \
      sym_assert( ok ? can : t != TT, "a typed keyed read succeeds for a key that holds that type and only for numeric vectors" ); if ( ok && can ) m.m[h].second = e; } }
  case 11: WIDE( T::VEC_REAL, c.get_map_vec_real( v, "w" ), c.get_map_vec_real( ks, "w" ), c.get_map_vec_real( { k } ), deq( x[0], e.vr[0] ) ) break;
  case 12: WIDE( T::VEC_COMPLEX, c.get_map_vec_complex( v, "w" ), c.get_map_vec_complex( ks, "w" ), c.get_map_vec_complex( { k } ), ceq( x[0], e.vc[0] ) ) break;
  case 13: TYPED( T::VEC_STRING, c.get_map_vec_string( v, "w" ), c.get_map_vec_string( ks, "w" ), c.get_map_vec_string( { k } ), x.size() == 1 && streq( x[0], e.vs[0] ) ) break;
  case 14: { // optional reads
      int32_t xi = 77; bool r = c.get_if_exists( v, xi ); T t = f >= 0 ? m.m[f].second.t : T::NOTYPE; if ( t == T::INTEGER ) sym_assert( r && xi == m.m[f].second.i, "an optional read gives the stored value" ); else if ( t == T::BOOL ) sym_assert( r && xi == ( m.m[f].second.b ? 1 : 0 ), "an optional read gives the stored value" ); else if ( t != T::REAL ) sym_assert( !r && xi == 77, "an optional read of a missing key changes nothing" );
      std::string s = "old"; r = c.get_if_exists( v, s ); if ( t == T::STRING ) sym_assert( r && streq( s, m.m[f].second.s ), "an optional read gives the stored value" ); else sym_assert( !r && s == "old", "an optional read of a missing key changes nothing" );
      bool b = true; r = c.get_if_exists( v, b ); if ( t == T::BOOL ) sym_assert( r && b == m.m[f].second.b, "an optional read gives the stored value" ); else sym_assert( !r && b, "an optional read of a missing key changes nothing" );
      double d = 77; r = c.get_if_exists( v, d ); if ( t == T::REAL ) sym_assert( r && deq( d, m.m[f].second.r ), "an optional read gives the stored value" ); else if ( f < 0 || t > T::COMPLEX ) sym_assert( !r && d == 77, "an optional read of a missing key changes nothing" ); } break;
  case 15: { // optional reads with a list: the first listed key that can be read
      std::string s = "old"; bool r = c.get_if_exists( ks, s ); int w = f2 >= 0 && m.m[f2].second.t == T::STRING ? f2 : f >= 0 && m.m[f].second.t == T::STRING ? f : -1; if ( w >= 0 ) sym_assert( r && streq( s, m.m[w].second.s ), "an optional read of a list gives the first readable value" ); else sym_assert( !r && s == "old", "an optional read of missing keys changes nothing" );
      bool b = true; r = c.get_if_exists( ks, b ); w = f2 >= 0 && m.m[f2].second.t == T::BOOL ? f2 : f >= 0 && m.m[f].second.t == T::BOOL ? f : -1; if ( w >= 0 ) sym_assert( r && b == m.m[w].second.b, "an optional read of a list gives the first readable value" ); else sym_assert( !r && b, "an optional read of missing keys changes nothing" ); } break;
  }
  same( g, m, "keyed access keeps every other entry" );
  return 0;
}
