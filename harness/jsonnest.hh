#pragma once
// JSON texts by structure: small trees of every shape, and long or deep ones.
#include "jsonref.hh"
static int nestBudget;
static char const * nestWs( int w ) { return w ? " \n\t" : ""; }
static std::string nestTree( int depth, int w ) {
  int k = nestBudget <= 0 ? 0 : sym_choose( depth > 0 ? 5 : 3, "node" ); --nestBudget;
  switch ( k ) {
  case 0: return "7";
  case 1: return "null";
  case 2: return "\"s\"";
  case 3: { int n = sym_choose( 3, "elems" ); std::string r = std::string( "[" ) + nestWs( w ); for ( int i=0;i<n;++i ) { if ( i ) r += std::string( nestWs( w ) ) + ","; r += nestTree( depth-1, w ); } return r + nestWs( w ) + "]"; }
  default: { int n = sym_choose( 3, "members" ); std::string r = std::string( "{" ) + nestWs( w ); for ( int i=0;i<n;++i ) { if ( i ) r += std::string( "," ) + nestWs( w ); r += i ? "\"b\":" : "\"a\":"; r += nestWs( w ); r += nestTree( depth-1, w ); } return r + nestWs( w ) + "}"; }
  }
}
static std::string digit1( char const * n ) { std::string s = sstr( 1, n ); sym_assume( (s[0] >= '0') & (s[0] <= '9') ); return s; }
static std::string nestText() {
  int kind = sym_choose( 16, "kind" );
  if ( kind < 8 ) { nestBudget = NN; int w = kind & 1; std::string a; // pairs of trees below an array or an object
    if ( kind < 2 ) return std::string( nestWs( w ) ) + nestTree( 3, w ) + nestWs( w );
    if ( kind < 4 ) { a = nestTree( 2, w ); return "[" + a + "," + nestTree( 2, w ) + "]"; }
    if ( kind < 6 ) { a = nestTree( 2, w ); return "{\"x\":" + a + ",\"y\":" + nestTree( 2, w ) + "}"; }
    a = nestTree( 1, w ); return "{\"x\":[" + a + "],\"y\":{\"z\":" + nestTree( 2, w ) + "}}"; }
  static unsigned const N[] = { BIGS }; unsigned n = N[unsigned( sym_choose( int(sizeof(N)/sizeof(N[0])), "big" ) )];
  std::string r;
  switch ( kind ) {
  case 8: r = "["; for ( unsigned k=0;k<n;++k ) { if ( k ) r += ","; if ( k == n/2 || k+1 == n ) r += digit1( "d" ); else r += "5"; } return r + "]";
  case 9: r = "["; for ( unsigned k=0;k<n;++k ) { if ( k ) r += ","; r += k+1 == n ? "\"t\"" : "-12"; } return r + "]";
  case 10: r = "{"; for ( unsigned k=0;k<n;++k ) { if ( k ) r += ","; r += "\"k" + std::to_string( k ) + "\":"; if ( k == n/2 ) r += digit1( "d" ); else r += "[]"; } return r + "}";
  case 11: { r = "\""; r.append( n*16, 'x' ); std::string c = sstr( 1, "c" ); sym_assume( ( (unsigned char)c[0] >= 0x20 ) & ( (unsigned char)c[0] < 0x7f ) & ( c[0] != '"' ) & ( c[0] != '\\' ) ); r += c; r.append( n, 'y' ); return r + "\""; }
  case 12: { unsigned q = n > 40 ? 40 : n; for ( unsigned k=0;k<q;++k ) r += "["; r += digit1( "d" ); r += ",null"; for ( unsigned k=0;k<q;++k ) r += "]"; return r; }
  case 13: { unsigned q = n > 40 ? 40 : n; for ( unsigned k=0;k<q;++k ) r += "{\"k\":"; r += digit1( "d" ); for ( unsigned k=0;k<q;++k ) r += "}"; return r; }
  case 14: { unsigned q = n > 40 ? 40 : n; for ( unsigned k=0;k<q;++k ) r += "[true,"; r += digit1( "d" ); for ( unsigned k=0;k+1<q;++k ) r += "]"; return r; } // one bracket missing
  default: r = "{\"" ; r.append( n, 'k' ); r += "\":\""; r.append( n, 'v' ); r += "\\n\",\""; r.append( n, 'k' ); r += "\":" + digit1( "d" ) + "}"; return r; // the same long key twice
  }
}
