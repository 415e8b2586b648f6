//@ modules: core
//@ split: 29
//@ bounds: pairs of containers: first of any of 21 types or 8 nested shapes (every type as element and entry, 6 and 24 levels deep), second of the same shape with independent symbolic content, a different size, or any other type; vectors 0..2, matrices up to 2x2, strings 0,1,3,17, maps with symbolic keys of 0..2 bytes, element-wise different types and sizes
//@ quick: -DNB=3 time=90
//@ thorough: -DNB=4 time=700
//@ covers: equal different
#include "gcm.hh"

static int eqM( M const & a, M const & b ) {
  if ( a.t != b.t ) return 0;
  int r = 1;
  switch ( a.t ) {
  case T::NOTYPE: return 1;
  case T::POINTER: return a.p == b.p;
  case T::BOOL: return a.b == b.b;
  case T::INTEGER: return a.i == b.i;
  case T::LONG: return a.l == b.l;
  case T::REAL: return a.r == b.r;
  case T::COMPLEX: return (a.r == b.r) & (a.im == b.im);
  case T::STRING: return streq( a.s, b.s );
  case T::VEC_POINTER: if ( a.vp.size() != b.vp.size() ) return 0; for ( size_t k=0;k<a.vp.size();++k ) r &= a.vp[k]==b.vp[k]; return r;
  case T::VEC_BOOL: if ( a.vb.size() != b.vb.size() ) return 0; for ( size_t k=0;k<a.vb.size();++k ) r &= a.vb[k]==b.vb[k]; return r;
  case T::MAT_INTEGER: if ( a.nr != b.nr || a.nc != b.nc ) return 0; // fallthrough
  case T::VEC_INTEGER: if ( a.vi.size() != b.vi.size() ) return 0; for ( size_t k=0;k<a.vi.size();++k ) r &= a.vi[k]==b.vi[k]; return r;
  case T::MAT_LONG: if ( a.nr != b.nr || a.nc != b.nc ) return 0; // fallthrough
  case T::VEC_LONG: if ( a.vl.size() != b.vl.size() ) return 0; for ( size_t k=0;k<a.vl.size();++k ) r &= a.vl[k]==b.vl[k]; return r;
  case T::MAT_REAL: if ( a.nr != b.nr || a.nc != b.nc ) return 0; // fallthrough
  case T::VEC_REAL: if ( a.vr.size() != b.vr.size() ) return 0; for ( size_t k=0;k<a.vr.size();++k ) r &= a.vr[k]==b.vr[k]; return r;
  case T::MAT_COMPLEX: if ( a.nr != b.nr || a.nc != b.nc ) return 0; // fallthrough
  case T::VEC_COMPLEX: if ( a.vc.size() != b.vc.size() ) return 0; for ( size_t k=0;k<a.vc.size();++k ) r &= (a.vc[k].real()==b.vc[k].real()) & (a.vc[k].imag()==b.vc[k].imag()); return r;
  case T::VEC_STRING: if ( a.vs.size() != b.vs.size() ) return 0; for ( size_t k=0;k<a.vs.size();++k ) r &= streq( a.vs[k], b.vs[k] ); return r;
  case T::VECTOR: if ( a.v.size() != b.v.size() ) return 0; for ( size_t k=0;k<a.v.size();++k ) r &= eqM( a.v[k], b.v[k] ); return r;
  case T::MAP: if ( a.m.size() != b.m.size() ) return 0;
    for ( auto const & e : a.m ) { int f = 0; for ( auto const & h : b.m ) f |= streq( e.first, h.first ) && eqM( e.second, h.second ); r &= f; }
    return r;
  }
  return r;
}

extern "C" int harness_main() {
  int kind = sym_choose( NKINDS, "kind" );
  unsigned n = sizedKind( kind ) ? pick( kind == 7 ? 4 : NB, "n" ) : 1;
  unsigned n2 = kind >= 15 && kind <= 18 ? pick2( n, NB, "n2" ) : 1;
  M a = anyM( kind, n, n2 ), b;
  int mode = sym_choose( 5, "mode" );
  if ( mode == 0 ) b = anyM( kind, n, n2 );                       // same shape, independent content
  else if ( mode == 1 ) { if ( !sizedKind( kind ) ) sym_skip(); unsigned q = sym_choose( kind == 7 ? 4 : NB, "q" ), q2 = kind>=15&&kind<=18 ? sym_choose( NB, "q2" ) : 1; b = anyM( kind, q, q2 ); }
  else if ( mode == 2 ) b = anyM( sym_choose( 25, "kind2" ), 1, 1 ); // any other type
  else if ( mode == 3 ) { // maps with symbolic keys of independent lengths
    if ( kind != 20 ) sym_skip();
    a.m.clear(); b.t = T::MAP; unsigned q = sym_choose( 2, "q" )+1; unsigned p = sym_choose( 2, "p" )+1, la = sym_choose( 3, "la" ), lb = sym_choose( 3, "lb" );
    for ( unsigned k=0;k<q;++k ) a.m.push_back( { sstr( k ? (la+2)%3 : la, "ka" ), make( T::INTEGER, 0 ) } );
    for ( unsigned k=0;k<p;++k ) b.m.push_back( { sstr( k ? (lb+2)%3 : lb, "kb" ), make( T::INTEGER, 0 ) } );
  } else { // the same size, one element of another type or size
    unsigned w = sym_choose( NB, "where" ), d = sym_choose( 6, "elem" ); static T const ET[] = { T::LONG, T::NOTYPE, T::VEC_REAL, T::VECTOR, T::MAP, T::MAT_INTEGER };
    if ( kind == 14 ) { if ( d > 3 ) sym_skip(); b = anyM( kind, n, 1 ); if ( w >= n ) sym_skip(); b.vs[w] = sstr( slen( d ), "other" ); }
    else if ( kind == 19 || kind == 20 ) { unsigned c = 2; a = M(); a.t = b.t = T( kind ); if ( w >= c ) sym_skip(); for ( unsigned k=0;k<c;++k ) { M ea = make( ET[d], 1, 1 ); unsigned d2 = k == w ? sym_choose( 6, "elem2" ) : d, sz = k == w ? 1 + sym_choose( 2, "sz" ) : 1; M eb = make( ET[d2], sz, 1 ); if ( kind == 19 ) { a.v.push_back( ea ); b.v.push_back( eb ); } else { std::string key = k ? "b" : "a"; a.m.push_back( { key, ea } ); b.m.push_back( { key, eb } ); } } }
    else sym_skip();
  }
  G ga, gb; build( a, ga ); build( b, gb );
  std::string r = ga.compare_content( gb ), rr = gb.compare_content( ga, "pfx: " );
  int eq = eqM( a, b );
  if ( r.empty() ) { sym_assert( eq, "comparison reports no difference only for equal containers" ); sym_cover( "equal" ); }
  else             { sym_assert( !eq, "comparison of equal containers reports no difference" ); sym_cover( "different" ); }
  sym_assert( r.empty() == rr.empty(), "comparison is symmetric" );
  same( ga, a, "comparison changes neither operand" ); same( gb, b, "comparison changes neither operand" );
  return 0;
}
