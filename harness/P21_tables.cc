//@ modules: core lua luavm
//@ split: 16
//@ bounds: Lua tables with one key that is any 64-bit integer up to 3 or above 2^32, or any real that is not whole, and with 0..1 further keys (string or position); tables that contain themselves; vectors and maps nested up to 70 levels; missing globals, missing functions, functions that fail, commands that do not compile or fail, each repeated
//@ quick: time=100 steps=60000000
//@ thorough: time=800 steps=60000000
//@ covers: refused position mixed cycle deep errors
#include "gcm.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
#include "lua-5.4.6/src/lua.hpp"
extern "C" int harness_main() {
  int c = sym_choose( 12, "case" );
  lua_State * L = luaL_newstate(); lua_pushinteger( L, 4711 ); G h; bool ok = true;
  auto get = [&]( char const * n ) { ok = true; try { Lua_global_to_GC( L, n, h ); } catch ( std::exception const & ) { ok = false; } sym_assert( lua_gettop( L ) == 1 && lua_tointeger( L, -1 ) == 4711, "the Lua stack is left as it was" ); };
  switch ( c ) {
  case 0: { int64_t k = sym<int64_t>( "key" ); sym_assume( k <= 3 || k > 4294967296LL ); lua_createtable( L, 0, 1 ); lua_pushboolean( L, 1 ); lua_rawseti( L, -2, k ); lua_setglobal( L, "t" ); get( "t" );
      sym_assert( ok == ( k >= 1 && k <= 3 ), "a table with a key that is not a position is refused" ); if ( ok && k >= 1 && k <= 3 ) { sym_cover( "position" ); sym_assert( h.get_type() == T::VEC_BOOL && h.get_num_elements() == unsigned( k ), "an element comes back at its position" ); if ( h.get_type() == T::VEC_BOOL ) sym_assert( h.get_vec_bool()[size_t(k-1)], "an element comes back at its position" ); } else sym_cover( "refused" ); } break;
  case 1: { static double const D[] = { 0.5, -0.5, 1.5, 1e300, -1e300, 1e-300, 2.25 }; double k = D[sym_choose( 7, "rkey" )]; lua_createtable( L, 0, 1 ); lua_pushnumber( L, k ); lua_pushboolean( L, 1 ); lua_rawset( L, -3 ); lua_setglobal( L, "t" ); get( "t" ); sym_assert( !ok, "a table with a key that is a fraction is refused" ); sym_cover( "refused" ); } break;
  case 2: case 3: { int n = 1 + sym_choose( 2, "positions" ); lua_createtable( L, c == 2 ? n : 0, 4 ); if ( c == 3 ) { lua_pushinteger( L, 8 ); lua_setfield( L, -2, "x" ); } for ( int k=1;k<=n;++k ) { lua_pushinteger( L, sym<int64_t>( "v" ) ); lua_rawseti( L, -2, k ); } if ( c == 2 ) { lua_pushinteger( L, 8 ); lua_setfield( L, -2, "x" ); } lua_setglobal( L, "t" ); get( "t" ); sym_assert( !ok, "a table with both positions and names is refused, not truncated" ); sym_cover( "mixed" ); } break;
  case 4: { lua_createtable( L, 0, 1 ); lua_pushvalue( L, -1 ); lua_setfield( L, -2, "me" ); lua_setglobal( L, "t" ); get( "t" ); sym_assert( !ok, "a table that contains itself is refused" ); sym_cover( "cycle" ); } break;
  case 5: { lua_createtable( L, 1, 0 ); lua_pushvalue( L, -1 ); lua_rawseti( L, -2, 1 ); lua_setglobal( L, "t" ); get( "t" ); sym_assert( !ok, "a table that contains itself is refused" ); sym_cover( "cycle" ); } break;
  case 6: case 7: { int32_t x = sym<int32_t>( "x" ); G g; G * p = &g; int depth = sym_choose( 2, "depth" ) ? 70 : 12; for ( int k=0;k<depth;++k ) { if ( c == 6 ) p = &p->set_vector( 1 )[0]; else p = &p->set_map()["k"]; } p->set_int( x );
      ok = true; try { Lua_GC_to_global( L, g, "t" ); } catch ( std::exception const & ) { ok = false; } sym_assert( ok, "nested content can be sent to Lua" ); sym_assert( lua_gettop( L ) == 1, "the Lua stack is left as it was" ); get( "t" ); sym_assert( ok, "nested content can be read from Lua" ); if ( !ok ) break;
      G const * q = &h; for ( int k=0;k+1<depth;++k ) { sym_assert( q->get_type() == ( c == 6 ? T::VECTOR : T::MAP ) && q->get_num_elements() == 1, "nested content comes back" ); if ( q->get_num_elements() != 1 ) return 0; q = c == 6 ? &(*q)( 0u, "" ) : &(*q)( "k", "" ); }
      if ( c == 6 ) sym_assert( q->get_type() == T::VEC_LONG && q->get_vec_long()[0] == x, "nested content comes back" ); else sym_assert( (*q)( "k", "" ).get_type() == T::LONG && (*q)( "k", "" ).get_long() == x, "nested content comes back" ); sym_cover( "deep" ); } break;
  case 8: { for ( int k=0;k<60;++k ) { get( "nothing" ); sym_assert( !ok, "a missing global is reported" ); } lua_pushinteger( L, sym<int64_t>( "x" ) ); lua_setglobal( L, "x" ); for ( int k=0;k<60;++k ) { get( "x" ); sym_assert( ok && h.get_type() == T::LONG, "a global can be read any number of times" ); } lua_pushcfunction( L, lua_CFunction( nullptr ) ); lua_pop( L, 1 ); sym_cover( "errors" ); } break;
  case 9: case 10: case 11: { LuaInterpreter lua; auto bad = [&]( char const * s ) { bool f = false; try { lua.execute( s ); } catch ( std::exception const & ) { f = true; } return f; };
      lua.execute( "function f(a) return a end function e(a) error('no') end" ); G in, res; in["function"] = c == 9 ? "e" : c == 10 ? "nothere" : "f"; int32_t x = sym<int32_t>( "x" ); in["args"].set_vec_int( 1 )[0] = x;
      for ( int k=0;k<30;++k ) { if ( c != 11 ) sym_assert( throws( [&]{ lua.call( in, res ); } ), "a function that fails or is missing is reported" ); else { if ( k < 15 ) sym_assert( bad( "function (" ), "a command that does not compile is reported" ); else sym_assert( bad( "error('no')" ), "a command that fails is reported" ); } }
      sym_assert( !bad( "y = 3" ), "after an error the interpreter works" ); lua.global_to_GC( "y", res ); sym_assert( res.get_type() == T::LONG && res.get_long() == 3, "after an error the interpreter works" );
      in["function"] = "f"; lua.call( in, res ); sym_assert( res.get_type() == T::VEC_LONG && res.get_vec_long()[0] == x, "after an error the interpreter works" ); sym_cover( "errors" ); } break;
  }
  lua_close( L );
  return 0;
}
