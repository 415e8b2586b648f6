//@ modules: core lua luavm
//@ split: 16
//@ bounds: Lua scripts with a symbolic digit and a symbolic byte in a comment (and a first line with # or a byte order mark) run from a file or as a command; scripts that fail with a message, no message, a table, a syntax error; files that do not exist or whose reading fails
//@ stubs: the files of the C library are entries of a table (harness/files.hh); replays use real files in a scratch directory
//@ quick: time=90 steps=60000000
//@ thorough: time=800 steps=60000000
//@ covers: run fails missing readerr
#include "gcm.hh"
#include "files.hh"
#include "GenericContainer/GenericContainerInterface_lua.hh"
#ifdef GCSHIM_IO
// the files of the C library, on the table of the stream model
struct CFile { int k; long pos; bool eof, err; };
static int cf_get( CFile * f ) { auto const & e = std::_gcfiles[f->k]; if ( e.fail >= 0 && f->pos >= e.fail ) { f->err = true; return -1; } if ( f->pos >= e.n ) { f->eof = true; return -1; } return (unsigned char)e.data[f->pos++]; }
extern "C" {
FILE * fopen( char const * n, char const * ) { for ( int k=0;k<std::_gcnfiles;++k ) if ( strcmp( n, std::_gcfiles[k].name ) == 0 ) return reinterpret_cast<FILE*>( new CFile{ k, 0, false, false } ); return nullptr; }
FILE * freopen( char const *, char const *, FILE * f ) { auto c = reinterpret_cast<CFile*>( f ); c->pos = 0; c->eof = c->err = false; return f; }
int getc( FILE * f ) { return cf_get( reinterpret_cast<CFile*>( f ) ); }
size_t fread( void * p, size_t s, size_t n, FILE * f ) { size_t k = 0; for ( ; k < s*n; ++k ) { int c = cf_get( reinterpret_cast<CFile*>( f ) ); if ( c < 0 ) break; static_cast<char*>( p )[k] = char( c ); } return k/s; }
int feof( FILE * f ) { return reinterpret_cast<CFile*>( f )->eof; }
int ferror( FILE * f ) { return reinterpret_cast<CFile*>( f )->err; }
int fclose( FILE * f ) { delete reinterpret_cast<CFile*>( f ); return 0; }
char * strerror( int ) { static char m[] = "error"; return m; }
}
#endif
extern "C" int harness_main() {
  static char const * const BAD[] = { "error('m')", "error()", "error(nil)", "error({})", "x = nil + 1", "x = = 1", "x = 'a", "local t = nil t.x = 1" };
  int part = sym_choose( 4, "part" ), how = sym_choose( 2, "how" );
  GC::LuaInterpreter L; bool th = false;
  if ( part == 0 ) {
    std::string u = sstr( 2, "b" ); int lead = sym_choose( 3, "lead" ); sym_assume( ( u[0] >= '0' ) & ( u[0] <= '9' ) ); if ( how ) sym_assume( u[1] != 0 );
    std::string s = std::string( lead == 1 ? "# comment\n" : lead == 2 ? "\xEF\xBB\xBF" : "" ) + "x = 4" + u[0] + " -- " + u[1] + "\ny = 4711"; if ( how == 1 && lead ) sym_skip(); // a first line with # and a byte order mark are a matter of files
    th = throws( [&]{ if ( how ) L.execute( s.c_str() ); else { std::string p = make_file( "script", s ); L.do_file( p.c_str() ); } } );
    sym_cover( "run" ); sym_assert( !th, "a script is run" ); if ( th ) return 0; G g; L.global_to_GC( "x", g ); sym_assert( g.get_type() == T::LONG && g.get_long() == 40 + ( u[0] - '0' ), "a script run from a file has its effect" ); G y; L.global_to_GC( "y", y ); sym_assert( y.get_as_int() == 4711, "a script run from a file has its effect" );
    return 0;
  }
  if ( part == 1 ) { std::string s = BAD[sym_choose( 8, "bad" )]; sym_cover( "fails" ); th = throws( [&]{ if ( how ) L.execute( s.c_str() ); else { std::string p = make_file( "script", s ); L.do_file( p.c_str() ); } } ); sym_assert( th, "a script that fails is reported" ); return 0; }
  if ( how ) sym_skip();
  if ( part == 2 ) { std::string n = sym_choose( 2, "name" ) ? "such" : ""; make_file( "script", "x = 1" ); sym_cover( "missing" ); th = throws( [&]{ L.do_file( file_path( ( "no" + n ).c_str() ).c_str() ); } ); sym_assert( th, "a script that does not exist is reported" ); return 0; }
#ifdef GCSHIM_IO
  std::string s = "x = 1 y = 2"; long at = sym_choose( 12, "at" );
#else
  std::string s = "x = 1 y = 2"; long at = sym_choose( 12, "at" ); if ( at ) return 0;
#endif
  std::string p = make_file( "script", s, at ); sym_cover( "readerr" ); th = throws( [&]{ L.do_file( p.c_str() ); } ); sym_assert( th, "a script whose reading fails is reported" ); return 0;
}
