//@ modules: core yaml
//@ split: 16
//@ bounds: every ASCII text of 0..NT bytes (quick 2, thorough 3), and the same after "a: ", "- ", "[", "{", a double quote, "a: |", "- a: 1" and a line break, "? a" and a line break, "[a, ", "{a: ", "&a ", "!<", "%", a single quote, "a:" and an indented line: reading never crashes, throws or hangs, and a refused text leaves the container unchanged
//@ quick: -DNT=2 time=100
//@ thorough: -DNT=3 time=850
//@ covers: valid refused
#include "txtm.hh"
extern "C" int harness_main() {
  unsigned k = unsigned( sym_choose( 16, "low" ) ); int pre = sym_choose( 16, "pre" ); unsigned n = unsigned( sym_choose( NT+1, "len" ) );
  if ( n == 0 && k ) sym_skip();
  std::string t = asciiStr( n, "text" ); if ( n ) sym_assume( (unsigned char)( t[0] & 15 ) == k );
  static char const * const P[] = { "", "a: ", "- ", "[", "{", "\"", "a: |", "- a: 1\n", "? a\n", "[a, ", "{a: ", "&a ", "!<", "%", "'", "a:\n  " };
  t = P[pre] + t;
  M old = make( T::VEC_INTEGER, 2 ); G g; build( old, g );
  std::istringstream is( t ); bool ok = false;
  int th = throws( [&]{ ok = g.from_yaml( is ); } );
  sym_assert( !th, "reading YAML text never throws" );
  if ( !ok ) { same( g, old, "refused text leaves the container as it was" ); sym_cover( "refused" ); return 0; }
  sym_cover( "valid" );
  return 0;
}
