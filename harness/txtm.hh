#pragma once
// content whose numbers have concrete texts (so that the text can be read back) and whose strings, keys and booleans are symbolic
#include "num.hh"
inline double aReal( unsigned k ) { static double const R[] = { 1.5, -0.25, 3.0, 1e100, -2.0 }; return R[k%5]; }
inline int64_t aLong( unsigned k ) { static int64_t const L[] = { 5000000000ll, -7, 9223372036854775807ll, 2147483648ll, -2147483648ll }; return L[k%5]; }
inline int32_t anInt( unsigned k ) { static int32_t const L[] = { 42, -2147483647-1, 2147483647, 0, -5 }; return L[k%5]; }
// n arbitrary ASCII bytes; with PAIRS also: n = 2 gives one arbitrary byte before or after one of a few special characters
inline std::string asciiStr( unsigned n, char const * nm ) {
  if ( conc() ) return std::string( n, 'y' );
#ifdef PAIRS
  if ( n == 2 ) { static char const S[] = { '"', '\'', '\\', 'a', '\n', ' ' }; int k = sym_choose( 6, "special" ), after = sym_choose( 2, "after" ); std::string x = sstr( 1, nm ); sym_assume( x[0] >= 0 ); return after ? x + S[k] : S[k] + x; }
#endif
  std::string s = sstr( n, nm ); for ( char c : s ) sym_assume( c >= 0 ); return s; }
// more than 4 elements or bytes: only the first, middle and last booleans / bytes are symbolic
inline std::string longStr( unsigned n, char const * nm ) { if ( n <= 4 ) return asciiStr( n, nm ); std::string s( n, 'x' ); for ( unsigned k=0;k<n;++k ) s[k] = k%17 == 3 ? ' ' : char( 'a' + k%23 ); s[n/2] = sstr( 1, nm )[0]; sym_assume( s[n/2] >= 0 ); return s; }
inline M txt( T t, unsigned n, unsigned n2, unsigned strlen_ ) {
  M m; m.t = t; unsigned q = n*n2;
  switch ( t ) {
  case T::NOTYPE: break;
  case T::POINTER: m.p = reinterpret_cast<void*>( uintptr_t(0x1234) ); break;
  case T::BOOL: m.b = eb( "b", 0, 1 ); break;
  case T::INTEGER: m.i = anInt( n ); break;
  case T::LONG: m.l = aLong( n ); break;
  case T::REAL: m.r = aReal( n ); break;
  case T::COMPLEX: m.r = aReal( n ); m.im = aReal( n+1 ); break;
  case T::STRING: m.s = longStr( strlen_, "s" ); break;
  case T::VEC_POINTER: for ( unsigned k=0;k<n;++k ) m.vp.push_back( reinterpret_cast<void*>( uintptr_t(k*4096+16) ) ); break;
  case T::VEC_BOOL: for ( unsigned k=0;k<n;++k ) m.vb.push_back( eb( "vb", k, n ) ); break;
  case T::VEC_INTEGER: for ( unsigned k=0;k<n;++k ) m.vi.push_back( anInt( k ) ); break;
  case T::VEC_LONG: for ( unsigned k=0;k<n;++k ) m.vl.push_back( aLong( k+n2 ) ); break;
  case T::VEC_REAL: for ( unsigned k=0;k<n;++k ) m.vr.push_back( aReal( k ) ); break;
  case T::VEC_COMPLEX: for ( unsigned k=0;k<n;++k ) m.vc.push_back( C( aReal( k ), aReal( k+2 ) ) ); break;
  case T::VEC_STRING: for ( unsigned k=0;k<n;++k ) m.vs.push_back( k == 0 ? asciiStr( strlen_, "vs" ) : k < 4 ? std::string( "x y" ) : "x y" + std::to_string( k ) ); break;
  case T::MAT_INTEGER: m.nr=n; m.nc=n2; for ( unsigned k=0;k<q;++k ) m.vi.push_back( anInt( k ) ); break;
  case T::MAT_LONG: m.nr=n; m.nc=n2; for ( unsigned k=0;k<q;++k ) m.vl.push_back( aLong( k ) ); break;
  case T::MAT_REAL: m.nr=n; m.nc=n2; for ( unsigned k=0;k<q;++k ) m.vr.push_back( aReal( k ) ); break;
  case T::MAT_COMPLEX: m.nr=n; m.nc=n2; for ( unsigned k=0;k<q;++k ) m.vc.push_back( C( aReal( k ), aReal( k+1 ) ) ); break;
  case T::VECTOR: for ( unsigned k=0;k<n;++k ) { static T const K[] = { T::BOOL, T::STRING, T::VEC_REAL, T::MAP }; Conc z( n > 4 && k != n/2 ); m.v.push_back( txt( K[k%4], 1, 1, strlen_ > 1 ? 1 : strlen_ ) ); } break;
  case T::MAP: for ( unsigned k=0;k<n;++k ) { static T const K[] = { T::BOOL, T::STRING, T::MAP, T::VEC_INTEGER }; static char const * KN[] = { "a", "bb", "c c", "d" }; Conc z( n > 4 && k != n/2 ); m.m.push_back( { k < 4 ? std::string( KN[k] ) : "k" + std::to_string( k ), txt( K[k%4], 1, 1, strlen_ > 1 ? 1 : strlen_ ) } ); } break;
  }
  return m;
}
// depth levels of maps (form 0), vectors (1), both in turn (2, 3), each with a further element before or after; a map or vector with every type (4, 5)
inline M deepTxt( unsigned depth, int form, int leaf ) {
  M m;
  if ( form >= 4 ) { m.t = form == 4 ? T::MAP : T::VECTOR; for ( int t=1;t<21;++t ) { if ( T(t) == T::VECTOR ) continue; static T const SY[] = { T::BOOL, T::STRING, T::VEC_BOOL, T::VEC_STRING }; Conc z( T(t) != SY[leaf] ); M e = txt( T(t), 2, 2, 1 ); if ( form == 4 ) m.m.push_back( { "e" + std::to_string( t ), e } ); else m.v.push_back( e ); } return m; }
  m = leaf == 0 ? txt( T::STRING, 0, 0, 1 ) : leaf == 1 ? txt( T::MAT_REAL, 2, 2, 0 ) : leaf == 2 ? txt( T::VEC_BOOL, 2, 1, 0 ) : txt( T::MAP, 3, 1, 0 );
  for ( unsigned d=0;d<depth;++d ) {
    M o, side; { Conc z( true ); side = d%3 == 0 ? txt( T::INTEGER, 2, 0, 0 ) : d%3 == 1 ? txt( T::STRING, 0, 0, 1 ) : txt( T::VEC_LONG, 2, 1, 0 ); }
    bool mp = form == 0 || ( form == 2 && d%2 ) || ( form == 3 && d%3 ); bool before = d%2 == 0, after = d%4 != 2;
    if ( mp ) { o.t = T::MAP; if ( before ) o.m.push_back( { "a", side } ); o.m.push_back( { d%5 ? "k" : "k k", m } ); if ( after ) o.m.push_back( { "z", side } ); }
    else { o.t = T::VECTOR; if ( before ) o.v.push_back( side ); o.v.push_back( m ); if ( after ) o.v.push_back( side ); }
    m = o;
  }
  return m;
}
static char const * const WORDS[] = { "null", "true", "False", "1", "-", "- a", "a: b", "#", "a #b", "~", ".inf", "0x1F", "1.5", "{a}", "[", "&a", "*a", "!t", "%", "@", "`", "'", "? a", "|", "a,b", " a", "a ",
  "Null", "NULL", "True", "TRUE", "false", "FALSE", "yes", "No", "on", "OFF", "y", "n", ".nan", "-.INF", ".NaN", "+.inf", "0o17", "0b1", "1e3", "-0", "+1", "1_000", ".5", "5.", "<<", "---", "...", "--- a", "a:", ":", ": a", "a\tb", "\"", ">", "]", "}", ",", "a: ", "2024-01-01", "12:30:45", "1+2i", "$mat_real", "key with \"quotes\"", "a'b", "\\", "a\\nb", "=", "a=b", "a.b", "[a]", "[[a]]", "\"\"\"", "'''" };
enum { NWORDS = sizeof( WORDS )/sizeof( WORDS[0] ) };
