#pragma once
// Harness interface: implemented symbolically by the engine, concretely by native_rt.cc (replay)
#include <cstdint>
#include <cstddef>
extern "C" {
  void     sym_bytes( void * p, size_t n, char const * name );
  int      sym_choose( int n, char const * name );
  void     sym_assume( int c );
  void     sym_assert( int c, char const * msg );
  void     sym_fail( char const * msg );
  void     sym_skip();
  void     sym_cover( char const * name );
  long     sym_live();
  int      sym_running();
  int      sym_eq( void const * a, void const * b, size_t n );
}
#define CHECK(c) sym_assert( (c) ? 1 : 0, __FILE__ ":" SYM_STR(__LINE__) ": " #c )
#define SYM_STR2(x) #x
#define SYM_STR(x) SYM_STR2(x)
template <typename T> inline T sym( char const * name ) { T v; sym_bytes( &v, sizeof(T), name ); return v; }
