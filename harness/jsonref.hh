#pragma once
// Independent JSON reader (RFC 8259 grammar) over a possibly symbolic text; gives the shadow model of the denoted value.
#include "num.hh"
struct JsonRef {
  std::string const & t; size_t p = 0; bool ok = true; bool sawReal = false; bool huge = false; // huge: an exponent of 3 or more digits, outside what a double may hold
 
  explicit JsonRef( std::string const & x ) : t(x) {}
  void ws() { while ( p < t.size() && ( t[p] == ' ' || t[p] == '\n' || t[p] == '\t' || t[p] == '\r' ) ) ++p; }
  bool lit( char const * w ) { for ( ;*w;++w,++p ) if ( p >= t.size() || t[p] != *w ) { ok = false; return false; } return true; }
  bool dig() { return p < t.size() && t[p] >= '0' && t[p] <= '9'; }
  unsigned hex4() { unsigned r = 0; for ( int k=0;k<4;++k ) { if ( p >= t.size() ) { ok = false; return 0; } char c = t[p++]; if ( c >= '0' && c <= '9' ) r = 16*r + unsigned(c-'0'); else if ( c >= 'a' && c <= 'f' ) r = 16*r + unsigned(c-'a'+10); else if ( c >= 'A' && c <= 'F' ) r = 16*r + unsigned(c-'A'+10); else { ok = false; return 0; } } return r; }
  std::string str() {
    std::string r; if ( p >= t.size() || t[p] != '"' ) { ok = false; return r; } ++p;
    for (;;) {
      if ( p >= t.size() ) { ok = false; return r; }
      char c = t[p++];
      if ( c == '"' ) return r;
      if ( (unsigned char)c < 0x20 ) { ok = false; return r; }
      if ( c != '\\' ) { r.push_back( c ); continue; }
      if ( p >= t.size() ) { ok = false; return r; }
      char e = t[p++];
      if ( e == 'n' ) r.push_back( '\n' ); else if ( e == 'r' ) r.push_back( '\r' ); else if ( e == 't' ) r.push_back( '\t' ); else if ( e == 'b' ) r.push_back( '\b' ); else if ( e == 'f' ) r.push_back( '\f' ); else if ( e == '"' || e == '\\' || e == '/' ) r.push_back( e );
      else if ( e == 'u' ) {
        unsigned u = hex4(); if ( !ok ) return r;
        if ( u >= 0xD800 && u < 0xDC00 ) { if ( !( p+1 < t.size() && t[p] == '\\' && t[p+1] == 'u' ) ) { ok = false; return r; } p += 2; unsigned v = hex4(); if ( !ok || v < 0xDC00 || v > 0xDFFF ) { ok = false; return r; } u = 0x10000 + ((u-0xD800)<<10) + (v-0xDC00); }
        else if ( u >= 0xDC00 && u <= 0xDFFF ) { ok = false; return r; }
        if ( u < 0x80 ) r.push_back( char(u) );
        else if ( u < 0x800 ) { r.push_back( char(0xC0|(u>>6)) ); r.push_back( char(0x80|(u&63)) ); }
        else if ( u < 0x10000 ) { r.push_back( char(0xE0|(u>>12)) ); r.push_back( char(0x80|((u>>6)&63)) ); r.push_back( char(0x80|(u&63)) ); }
        else { r.push_back( char(0xF0|(u>>18)) ); r.push_back( char(0x80|((u>>12)&63)) ); r.push_back( char(0x80|((u>>6)&63)) ); r.push_back( char(0x80|(u&63)) ); }
      } else { ok = false; return r; }
    }
  }
  M num() {
    M m; bool neg = false; size_t start = p; (void)start;
    if ( p < t.size() && t[p] == '-' ) { neg = true; ++p; }
    if ( !dig() ) { ok = false; return m; }
    uint64_t u = 0; bool big = false;
    if ( t[p] == '0' ) ++p; else while ( dig() ) { uint64_t d = uint64_t(t[p]-'0'); if ( u > 1844674407370955161ull || ( u == 1844674407370955161ull && d > 5 ) ) big = true; u = 10*u + d; ++p; }
    bool isReal = false;
    if ( p < t.size() && t[p] == '.' ) { ++p; isReal = true; if ( !dig() ) { ok = false; return m; } while ( dig() ) ++p; }
    if ( p < t.size() && ( t[p] == 'e' || t[p] == 'E' ) ) { ++p; isReal = true; if ( p < t.size() && ( t[p] == '+' || t[p] == '-' ) ) ++p; if ( !dig() ) { ok = false; return m; } size_t e0 = p; while ( dig() ) ++p; if ( p-e0 > 2 ) huge = true; }
    if ( isReal || big || ( neg ? u > 9223372036854775808ull : u > 9223372036854775807ull ) ) { m.t = T::REAL; sawReal = true; return m; }
    int64_t v = neg ? int64_t( ~u + 1 ) : int64_t( u );
    if ( v >= -2147483648ll && v <= 2147483647ll ) { m.t = T::INTEGER; m.i = int32_t( v ); } else { m.t = T::LONG; m.l = v; }
    return m;
  }
  M val() {
    M m; ws(); if ( p >= t.size() ) { ok = false; return m; }
    char c = t[p];
    if ( c == '"' ) { m.t = T::STRING; m.s = str(); }
    else if ( c == '[' ) {
      ++p; m.t = T::VECTOR; ws(); if ( p < t.size() && t[p] == ']' ) { ++p; return m; }
      for (;;) { m.v.push_back( val() ); if ( !ok ) return m; ws(); if ( p >= t.size() ) { ok = false; return m; } if ( t[p] == ']' ) { ++p; return m; } if ( t[p] != ',' ) { ok = false; return m; } ++p; }
    } else if ( c == '{' ) {
      ++p; m.t = T::MAP; ws(); if ( p < t.size() && t[p] == '}' ) { ++p; return m; }
      for (;;) {
        ws(); std::string k = str(); if ( !ok ) return m; ws(); if ( p >= t.size() || t[p] != ':' ) { ok = false; return m; } ++p;
        M v = val(); if ( !ok ) return m;
        bool found = false; for ( auto & e : m.m ) if ( streq( e.first, k ) ) { e.second = v; found = true; break; } // the last of equal keys counts
        if ( !found ) m.m.push_back( { k, v } );
        ws(); if ( p >= t.size() ) { ok = false; return m; } if ( t[p] == '}' ) { ++p; return m; } if ( t[p] != ',' ) { ok = false; return m; } ++p;
      }
    }
    else if ( c == 't' ) { lit( "true" ); m.t = T::BOOL; m.b = true; }
    else if ( c == 'f' ) { lit( "false" ); m.t = T::BOOL; }
    else if ( c == 'n' ) lit( "null" );
    else m = num();
    return m;
  }
  M all() { M m = val(); if ( ok ) { ws(); if ( p != t.size() ) ok = false; } return m; }
};
