#pragma once
// Strict JSON reader driven by the shadow model: val(m) asserts that the text at the current position is a JSON value denoting m.
#include "gcm.hh"
#include <cmath>
struct JsonText {
  std::string const & t; size_t p = 0; std::ostringstream const & fmt; char const * msg;
  JsonText( std::string const & tt, std::ostringstream const & f, char const * m ) : t(tt), fmt(f), msg(m) {}
  void fail( char const * w ) { sym_assert( 0, w ); sym_skip(); }
  void ws() { while ( p < t.size() && ( t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r' ) ) ++p; }
  bool at( char c ) { return p < t.size() && t[p] == c; }
  void need( char c, char const * w ) { ws(); if ( !at( c ) ) fail( w ); ++p; }
  void word( char const * x ) { size_t n = strlen( x ); if ( !( p+n <= t.size() && memcmp( t.data()+p, x, n ) == 0 ) ) fail( msg ); p += n; }
  int hex() { if ( p >= t.size() ) fail( "text is complete" ); char c = t[p++]; if ( c >= '0' && c <= '9' ) return c-'0'; if ( c >= 'a' && c <= 'f' ) return c-'a'+10; if ( c >= 'A' && c <= 'F' ) return c-'A'+10; fail( "escapes are valid" ); return 0; }
  std::string str() { // a JSON string, unescaped
    std::string r; need( '"', "a string is quoted" );
    for (;;) {
      if ( p >= t.size() ) fail( "a string is terminated" );
      char c = t[p++];
      if ( c == '"' ) break;
      if ( c == '\\' ) {
        if ( p >= t.size() ) fail( "text is complete" );
        char e = t[p++];
        if ( e == 'n' ) c = '\n'; else if ( e == 'r' ) c = '\r'; else if ( e == 't' ) c = '\t'; else if ( e == 'b' ) c = '\b'; else if ( e == 'f' ) c = '\f'; else if ( e == '"' || e == '\\' || e == '/' ) c = e;
        else if ( e == 'u' ) { int a = hex(), b = hex(), d = hex(), f = hex(); if ( a || b || d > 7 ) fail( "escaped characters are ASCII" ); c = char( 16*d+f ); }
        else fail( "escapes are the ones of JSON" );
      } else if ( (unsigned char)c < 0x20 ) fail( "control characters are escaped" );
      r.push_back( c );
    }
    return r;
  }
  template <class V> std::string text( V v ) { std::ostringstream o; o.flags( fmt.flags() ); o.precision( fmt.precision() ); o << v; return o.str(); }
  void lit( std::string const & e ) { if ( p+e.size() > t.size() ) fail( msg ); sym_assert( sym_eq( t.data()+p, e.data(), e.size() ), msg ); p += e.size();
    if ( p < t.size() && !( t[p] == ' ' || t[p] == ',' || t[p] == ']' || t[p] == '}' || t[p] == '\n' ) ) fail( "a number is followed by a delimiter" ); }
  void real( double r ) { ws(); if ( std::isfinite( r ) ) lit( text( r ) ); else word( "null" ); }
  static std::string ctext( double re, double im ) { std::ostringstream o; o.precision( 12 ); o << re; if ( im > 0 ) o << '+' << im << 'i'; else if ( im < 0 ) o << '-' << -im << 'i'; else if ( im != im ) o << "+nani"; return o.str(); }
  void cplx( C const & c ) { need( '"', "a complex number is a string" ); std::string e = ctext( c.real(), c.imag() ); if ( p+e.size() > t.size() ) fail( msg ); sym_assert( sym_eq( t.data()+p, e.data(), e.size() ), msg ); p += e.size(); if ( !at( '"' ) ) fail( "a complex number is a string" ); ++p; }
  void ptr( void * x ) { need( '"', "a pointer is a string" ); std::ostringstream o; o << std::hex << std::showbase << reinterpret_cast<uintptr_t>( x ); std::string e = o.str(); if ( p+e.size() > t.size() ) fail( msg ); sym_assert( sym_eq( t.data()+p, e.data(), e.size() ), msg ); p += e.size(); if ( !at( '"' ) ) fail( "a pointer is a string" ); ++p; }
  void boolean( bool b ) { ws(); if ( b ) word( "true" ); else word( "false" ); }
  template <class F> void array( size_t n, F f ) { need( '[', "an array starts with [" ); for ( size_t k=0;k<n;++k ) { if ( k ) need( ',', "elements are separated" ); ws(); f( k ); } need( ']', "an array ends after its elements" ); }
  void val( M const & m ) {
    ws();
    unsigned nr = m.nr;
    switch ( m.t ) {
    case T::NOTYPE: word( "null" ); break;
    case T::POINTER: ptr( m.p ); break;
    case T::BOOL: boolean( m.b ); break;
    case T::INTEGER: lit( text( m.i ) ); break;
    case T::LONG: lit( text( m.l ) ); break;
    case T::REAL: real( m.r ); break;
    case T::COMPLEX: cplx( C(m.r,m.im) ); break;
    case T::STRING: { std::string s = str(); sym_assert( streq( s, m.s ), msg ); } break;
    case T::VEC_POINTER: array( m.vp.size(), [&]( size_t k ){ ptr( m.vp[k] ); } ); break;
    case T::VEC_BOOL: array( m.vb.size(), [&]( size_t k ){ boolean( m.vb[k] != 0 ); } ); break;
    case T::VEC_INTEGER: array( m.vi.size(), [&]( size_t k ){ lit( text( m.vi[k] ) ); } ); break;
    case T::VEC_LONG: array( m.vl.size(), [&]( size_t k ){ lit( text( m.vl[k] ) ); } ); break;
    case T::VEC_REAL: array( m.vr.size(), [&]( size_t k ){ real( m.vr[k] ); } ); break;
    case T::VEC_COMPLEX: array( m.vc.size(), [&]( size_t k ){ cplx( m.vc[k] ); } ); break;
    case T::VEC_STRING: array( m.vs.size(), [&]( size_t k ){ std::string s = str(); sym_assert( streq( s, m.vs[k] ), msg ); } ); break;
    case T::MAT_INTEGER: array( m.nc, [&]( size_t j ){ array( nr, [&]( size_t i ){ lit( text( m.vi[i+j*nr] ) ); } ); } ); break;
    case T::MAT_LONG: array( m.nc, [&]( size_t j ){ array( nr, [&]( size_t i ){ lit( text( m.vl[i+j*nr] ) ); } ); } ); break;
    case T::MAT_REAL: array( m.nc, [&]( size_t j ){ array( nr, [&]( size_t i ){ real( m.vr[i+j*nr] ); } ); } ); break;
    case T::MAT_COMPLEX: array( m.nc, [&]( size_t j ){ array( nr, [&]( size_t i ){ cplx( m.vc[i+j*nr] ); } ); } ); break;
    case T::VECTOR: array( m.v.size(), [&]( size_t k ){ val( m.v[k] ); } ); break;
    case T::MAP: {
      need( '{', "an object starts with {" ); std::vector<char> used( m.m.size(), 0 );
      for ( size_t k=0;k<m.m.size();++k ) {
        if ( k ) need( ',', "members are separated" );
        std::string key = str(); need( ':', "a key is followed by :" );
        size_t q = 0; for ( ;q<m.m.size();++q ) if ( !used[q] && streq( key, m.m[q].first ) ) break;
        if ( q == m.m.size() ) fail( "every member is a stored key" );
        used[q] = 1; val( m.m[q].second );
      }
      need( '}', "an object ends after its members" ); } break;
    }
  }
  void end() { ws(); if ( p != t.size() ) fail( "nothing follows the value" ); }
};
