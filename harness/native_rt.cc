// Native replay runtime: the same harness, compiled with g++ against the real libstdc++ and /repo,
// consumes the concrete inputs of a solver model (lines "c <name> <choice>" / "b <name> <hex>").
#include "sym.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
#include <unistd.h>
extern "C" int __sanitizer_install_malloc_and_free_hooks( void (*)( const volatile void *, size_t ), void (*)( const volatile void * ) );
extern "C" int harness_main();
namespace {
  struct In { char k; std::string name, val; };
  std::vector<In> ins; size_t pos = 0;
  volatile long live = 0;
  void mh( const volatile void * p, size_t ) { if ( p ) live = live+1; }
  void fh( const volatile void * p ) { if ( p ) live = live-1; }
  [[noreturn]] void fin( int rc, char const * a, char const * b ) { printf( "%s %s\n", a, b ); fflush( stdout ); _exit( rc ); }
  In & next( char k, char const * name ) {
    if ( pos >= ins.size() ) fin( 77, "DIVERGED", "input exhausted" );
    In & i = ins[pos++];
    if ( i.k != k || i.name != name ) fin( 77, "DIVERGED", (std::string("expected ")+k+" "+name+" got "+i.k+" "+i.name).c_str() );
    return i;
  }
}
extern "C" {
  void sym_bytes( void * p, size_t n, char const * name ) {
    In & i = next( 'b', name ); auto h=[]( char c ){ return c<='9' ? c-'0' : c-'a'+10; };
    if ( i.val.size() != 2*n ) fin( 77, "DIVERGED", "size" );
    for ( size_t k=0; k<n; ++k ) ((unsigned char*)p)[k] = (unsigned char)( h(i.val[2*k])*16+h(i.val[2*k+1]) );
  }
  int  sym_choose( int, char const * name ) { return atoi( next( 'c', name ).val.c_str() ); }
  void sym_assume( int c ) { if ( !c ) fin( 78, "ASSUME-FALSE", "" ); }
  void sym_assert( int c, char const * m ) { if ( !c ) fin( 42, "ASSERT-FAIL", m ); }
  void sym_fail( char const * m ) { fin( 42, "ASSERT-FAIL", m ); }
  void sym_skip() { fin( 0, "SKIP", "" ); }
  void sym_cover( char const * ) {}
  long sym_live() { return live; }
  int  sym_running() { return 0; }
  int  sym_eq( void const * a, void const * b, size_t n ) { return n==0 || memcmp( a, b, n ) == 0; }
}
int main( int argc, char ** argv ) {
  if ( argc > 1 ) {
    FILE * f = fopen( argv[1], "r" ); if ( !f ) return 79;
    char * line = nullptr; size_t cap = 0; ssize_t n;
    while ( (n=getline( &line, &cap, f )) > 0 ) {
      if ( line[n-1]=='\n' ) line[--n]=0;
      if ( (line[0]!='c' && line[0]!='b') || line[1]!=' ' ) continue;
      char * sp = strchr( line+2, ' ' ); if ( !sp ) continue;
      ins.push_back( In{ line[0], std::string(line+2,sp), std::string(sp+1) } );
    }
    free( line ); fclose( f );
  }
  __sanitizer_install_malloc_and_free_hooks( mh, fh );
  std::set_terminate( []{ fin( 43, "TERMINATE", "" ); } );
  alarm( 20 );
  try { harness_main(); }
  catch ( std::exception const & e ) { fin( 43, "UNCAUGHT", e.what() ); }
  catch ( ... ) { fin( 43, "UNCAUGHT", "?" ); }
  fin( 0, "OK", "" );
}
