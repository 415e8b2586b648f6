//@ modules: core lua luavm
//@ split: 48
//@ bounds: containers of all 21 types with 0..2 (thorough 0..3) elements, or 40 of which three are symbolic (every number any bit pattern, strings of up to 45 bytes with 2 symbolic ones), vectors of 2 (thorough 3) arbitrary kinds out of 7 (booleans, integers, reals, strings, nested vectors and maps), maps with keys that hold zero bytes, nested two levels deep; sent to Lua as a global and read back, or sent through a Lua function that returns its argument
//@ stubs: the Lua library is compiled as C++ (its own option), so that its errors are exceptions
//@ quick: -DNB=3 -DNV=2 time=100 steps=60000000
//@ thorough: -DNB=4 -DNV=3 time=800 steps=60000000
//@ covers: exact nil empty array map called
#include "gcm.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
#include "lua-5.4.6/src/lua.hpp"
static bool whole( double x ) { return x >= -9223372036854775808.0 && x < 9223372036854775808.0 && double( int64_t( x ) ) == x; }
static bool nilType( T t ) { return t == T::NOTYPE || t == T::POINTER || t == T::COMPLEX || t == T::VEC_POINTER || t == T::VEC_COMPLEX || isMat( t ); }
// symbolic string: 0: empty, 1: 1 byte, 2: beyond the length of the short strings of Lua, 2 bytes symbolic
static std::string str( int k ) { std::string s = k == 0 ? "" : k == 1 ? "q" : "0123456789012345678901234567890123456789abcde"; if ( k == 1 ) { s[0] = char( sym<unsigned char>( "c" ) ); } else if ( k == 2 ) { char b[2]; sym_bytes( b, 2, "s" ); s[3] = b[0]; s[41] = b[1]; } return s; }
static char const * MSG = "a value sent to Lua comes back as the same value";
static void lsame( G const & g, M const & m );
static M elem( M const & m, unsigned k ) { M e; switch ( m.t ) { case T::VEC_BOOL: e.t = T::BOOL; e.b = m.vb[k] != 0; break; case T::VEC_INTEGER: e.t = T::INTEGER; e.i = m.vi[k]; break; case T::VEC_LONG: e.t = T::LONG; e.l = m.vl[k]; break; case T::VEC_REAL: e.t = T::REAL; e.r = m.vr[k]; break; case T::VEC_STRING: e.t = T::STRING; e.s = m.vs[k]; break; default: e = m.v[k]; } return e; }
static void num( M const & m, bool lossy, bool isLong, int64_t l, double r ) {
  if ( m.t == T::REAL ) { if ( isLong ) sym_assert( whole( m.r ) && double( l ) == m.r, MSG ); else sym_assert( ( r == m.r ) | ( ( r != r ) & ( m.r != m.r ) ), MSG ); }
  else { int64_t w = m.t == T::INTEGER ? m.i : m.l; if ( isLong ) sym_assert( l == w, MSG ); else sym_assert( lossy && r == double( w ), MSG ); }
}
static void lsame( G const & g, M const & m ) {
  switch ( m.t ) {
  case T::BOOL: sym_assert( g.get_type() == T::BOOL && g.get_bool() == m.b, MSG ); break;
  case T::STRING: sym_assert( g.get_type() == T::STRING && sveq( g.get_string(), m.s ), MSG ); break;
  case T::INTEGER: case T::LONG: case T::REAL: { T t = g.get_type(); sym_assert( t == T::LONG || t == T::REAL, MSG ); if ( t == T::LONG ) num( m, false, true, g.get_long(), 0 ); else if ( t == T::REAL ) num( m, false, false, 0, g.get_real() ); } break;
  case T::MAP: { size_t n = 0; for ( auto const & e : m.m ) { if ( nilType( e.second.t ) ) continue; ++n; sym_assert( g.exists( e.first ), "every entry of a map comes back" ); if ( g.exists( e.first ) ) lsame( g( e.first, "" ), e.second ); }
      if ( n == 0 ) { sym_cover( "empty" ); sym_assert( g.get_type() == T::NOTYPE, "an empty table comes back as empty content" ); break; } sym_cover( "map" ); sym_assert( g.get_type() == T::MAP && g.get_num_elements() == n, "every entry of a map comes back" ); } break;
  default: { size_t n = m.t == T::VECTOR ? m.v.size() : m.t == T::VEC_BOOL ? m.vb.size() : m.t == T::VEC_INTEGER ? m.vi.size() : m.t == T::VEC_LONG ? m.vl.size() : m.t == T::VEC_REAL ? m.vr.size() : m.vs.size();
      if ( n == 0 ) { sym_cover( "empty" ); sym_assert( g.get_type() == T::NOTYPE, "an empty table comes back as empty content" ); break; }
      sym_cover( "array" ); sym_assert( g.get_num_elements() == n, "every element of an array comes back" ); if ( g.get_num_elements() != n ) break;
      bool lossy = false; for ( unsigned k=0;k<n;++k ) if ( elem( m, k ).t == T::REAL ) lossy = true;
      for ( unsigned k=0;k<n;++k ) { M e = elem( m, k ); bool isn = e.t == T::INTEGER || e.t == T::LONG || e.t == T::REAL;
        switch ( g.get_type() ) {
        case T::VEC_BOOL: sym_assert( e.t == T::BOOL && g.get_vec_bool()[k] == e.b, MSG ); break;
        case T::VEC_LONG: sym_assert( isn, MSG ); if ( isn ) num( e, lossy, true, g.get_vec_long()[k], 0 ); break;
        case T::VEC_REAL: sym_assert( isn, MSG ); if ( isn ) num( e, lossy, false, 0, g.get_vec_real()[k] ); break;
        case T::VEC_STRING: sym_assert( e.t == T::STRING && streq( g.get_vec_string()[k], e.s ), MSG ); break;
        case T::VECTOR: { G const & x = g( k, "" ); if ( isn && x.get_type() == T::REAL ) num( e, lossy, false, 0, x.get_real() ); else lsame( x, e ); } break;
        default: sym_fail( "an array comes back as an array" ); } } } break;
  }
}
static M kind( int k ) { M m; switch ( k ) {
  case 0: return make( T::BOOL, 1 ); case 1: return make( T::INTEGER, 1 ); case 2: return make( T::REAL, 1 ); case 3: m.t = T::STRING; m.s = str( 2 ); return m; case 4: return make( T::VEC_LONG, 2 );
  case 5: m.t = T::MAP; m.m.push_back( { "a", make( T::LONG, 1 ) } ); m.m.push_back( { std::string( "a\0b", 3 ), make( T::VEC_BOOL, 1 ) } ); return m; default: return make( T::LONG, 1 ); } }
extern "C" int harness_main() {
  int z = sym_choose( 48, "kind" ); int how = z / 24; int k = z % 24; M m;
  if ( k < 21 ) { T t = T(k); unsigned n = unsigned( sym_choose( NB + ( isVec( t ) || t == T::VECTOR || t == T::MAP ), "n" ) ); bool big = n == NB; if ( big ) n = 40; if ( ( isScalar( t ) && t != T::STRING || t == T::NOTYPE ) && n != 1 ) sym_skip(); if ( t == T::STRING ) { if ( n > 2 || ( how && n == 1 ) ) sym_skip(); m.t = t; m.s = str( int(n) ); } else if ( t == T::VEC_STRING ) { m.t = t; for ( unsigned q=0;q<n;++q ) m.vs.push_back( q < 3 ? str( q == 0 ? 2 : 0 ) : std::string( q, 'z' ) ); } else if ( big && t == T::VECTOR ) { m.t = t; for ( unsigned q=0;q<n;++q ) { static int const K[] = { 0, 1, 2, 6, 4 }; Conc z( !at3( q, n ) ); m.v.push_back( kind( K[q%5] ) ); } } else if ( big && t == T::MAP ) m = make( t, n ); else if ( t == T::VECTOR || t == T::MAP ) { int w = n ? sym_choose( 7, "v" ) : 0; m.t = t; for ( unsigned q=0;q<n;++q ) { int kk = q ? sym_choose( 7, "v" ) : w; if ( q >= NV ) sym_skip(); M e = kind( kk ); if ( t == T::VECTOR ) m.v.push_back( e ); else m.m.push_back( { q == 0 ? std::string( "k\0k", 3 ) : q == 1 ? "k" : "long key of an entry", e } ); } } else m = make( t, n ); }
  else if ( k == 21 ) { m.t = T::MAP; m.m.push_back( { "n", M() } ); m.m.push_back( { "c", make( T::COMPLEX, 1 ) } ); m.m.push_back( { "b", make( T::BOOL, 1 ) } ); }
  else if ( k == 22 ) { m.t = T::VECTOR; M in; in.t = T::MAP; in.m.push_back( { "d", make( T::VEC_INTEGER, 2 ) } ); M v; v.t = T::VECTOR; v.v.push_back( in ); m.v.push_back( v ); m.v.push_back( in ); }
  else { m.t = T::VECTOR; for ( int q=0;q<3;++q ) m.v.push_back( kind( q == 1 ? 3 : q == 0 ? 2 : 0 ) ); }
  G g; build( m, g ); if ( m.t == T::MAP && m.m.empty() ) g.set_map(); G h; h.set_string( "old" );
  bool ok = true;
  if ( how == 0 ) {
    lua_State * L = luaL_newstate(); lua_pushinteger( L, 4711 );
    try { Lua_GC_to_global( L, g, "x" ); Lua_global_to_GC( L, "x", h ); } catch ( std::exception const & ) { ok = false; }
    sym_assert( lua_gettop( L ) == 1 && lua_tointeger( L, -1 ) == 4711, "the Lua stack is left as it was" );
    lua_close( L );
    sym_assert( ok == !nilType( m.t ), "content that Lua cannot represent is absent in Lua" ); if ( !ok ) { sym_cover( "nil" ); return 0; }
  } else {
    LuaInterpreter lua; lua.execute( "function f(a) return a end" ); G in; in["function"] = "f"; in["args"].load( g );
    try { lua.call( in, h ); } catch ( std::exception const & ) { ok = false; } sym_cover( "called" );
    sym_assert( ok, "a Lua function can be called with any content" ); if ( !ok ) return 0;
    if ( nilType( m.t ) ) { sym_assert( h.get_type() == T::NOTYPE, "content that Lua cannot represent is absent in Lua" ); return 0; }
  }
  sym_cover( "exact" ); lsame( h, m );
  M w = m; same( g, w, "sending a container to Lua does not change it" );
  return 0;
}
