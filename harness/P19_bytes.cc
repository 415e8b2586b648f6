//@ modules: core yaml
//@ split: 24
//@ bounds: every text of 1..NB bytes of any value (quick 2, thorough 3), and the same after each of the five byte order marks (or parts of them) and after "a: " with padding so that the text fills its storage (15 and 30 bytes): reading never crashes, throws, hangs or reads outside the text, and a refused text leaves the container unchanged
//@ quick: -DNB=2 time=100
//@ thorough: -DNB=3 time=850
//@ covers: valid refused
#include "txtm.hh"
extern "C" int harness_main() {
  unsigned k = unsigned( sym_choose( 16, "high" ) ); int pre = sym_choose( 13, "pre" ); unsigned n = 1 + unsigned( sym_choose( NB, "len" ) );
  static struct { char const * p; unsigned n; } const P[] = { { "", 0 }, { "\xEF\xBB\xBF", 3 }, { "\xEF\xBB", 2 }, { "\xFE\xFF", 2 }, { "\xFF\xFE", 2 }, { "\0\0\xFE\xFF", 4 }, { "\0\0\xFE", 3 }, { "\xFF\xFE\0\0", 4 }, { "\xFE\xFF\0a", 4 }, { "\xFF\xFE" "a\0", 4 }, { "\0\0\0a", 4 }, { "a: 34567890", 10 }, { "a: \"4567890123456789012345", 25 } };
  std::string t( P[pre].p, P[pre].n ); if ( pre == 11 ) while ( t.size()+n < 15 ) t += 'x'; if ( pre == 12 ) while ( t.size()+n < 30 ) t += 'x';
  std::string s = sstr( n, "text" ); sym_assume( ( (unsigned char)s[0] >> 4 ) == k ); if ( pre >= 11 ) sym_assume( (unsigned char)s[0] >= 128 );
  t += s;
  M old = make( T::VEC_INTEGER, 2 ); G g; build( old, g );
  std::istringstream is( t ); bool ok = false;
  int th = throws( [&]{ ok = g.from_yaml( is ); } );
  sym_assert( !th, "reading YAML text never throws" );
  if ( !ok ) { same( g, old, "refused text leaves the container as it was" ); sym_cover( "refused" ); return 0; }
  sym_cover( "valid" );
  return 0;
}
