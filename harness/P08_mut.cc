//@ modules: core
//@ split: 54
//@ bounds: every stored type (vectors 0..2, thorough 0..3, elements; matrices 0..2 x 0..2), all bits symbolic; index 0..3 (row, column 0..2); every mutable indexed accessor; a value written through the returned reference
//@ quick: -DNB=3 -DBIGS=9,34,270 time=60
//@ thorough: -DNB=4 time=600
//@ covers: same_type widened to_vector created refused written grown
#include "num.hh"
static char const * const K = "mutable indexed access keeps the elements already stored";
static char const * const N = "elements added by mutable indexed access are zero or empty";
static char const * const Wr = "a value written through an indexed reference is stored at that index and nowhere else";
static void growTo( M & m, unsigned n ) {
  bool g = false;
  if ( m.t == T::VEC_BOOL ) { while ( m.vb.size() < n ) m.vb.push_back( 0 ), g = true; } else if ( m.t == T::VEC_INTEGER ) { while ( m.vi.size() < n ) m.vi.push_back( 0 ), g = true; } else if ( m.t == T::VEC_LONG ) { while ( m.vl.size() < n ) m.vl.push_back( 0 ), g = true; }
  else if ( m.t == T::VEC_REAL ) { while ( m.vr.size() < n ) m.vr.push_back( 0 ), g = true; } else if ( m.t == T::VEC_COMPLEX ) { while ( m.vc.size() < n ) m.vc.push_back( C(0,0) ), g = true; } else if ( m.t == T::VEC_STRING ) { while ( m.vs.size() < n ) m.vs.push_back( "" ), g = true; }
  else if ( m.t == T::VECTOR ) { while ( m.v.size() < n ) m.v.push_back( M() ), g = true; }
  if ( g ) sym_cover( "grown" );
}
// an index: small ones, or around the end of large content
static unsigned idx( unsigned n ) { int k = sym_choose( 4, "i" ); if ( n <= 4 ) return unsigned(k); return k == 0 ? 0 : k == 1 ? n/2 : k == 2 ? n-1 : n+2; }
extern "C" int harness_main() {
  int z = sym_choose( 22*11, "kind,op" ), kind = z / 11, op = z % 11;
  bool mat = kind >= 15 && kind <= 18;
  unsigned n = sizedKind( kind ) || kind == 21 ? pick( mat ? 3 : NB, "n" ) : 1, n2 = mat ? pick2( n, 3, "n2" ) : 1;
  M m; if ( kind < 21 ) m = make( T(kind), n, n2 ); else { m.t = T::VECTOR; for ( unsigned k=0;k<n;++k ) m.v.push_back( make( op < 6 ? T( int(T::BOOL) + op ) : T::INTEGER, 1 ) ); }
  G g; build( m, g ); bool ok = true;
  if ( op < 6 ) { // get_X_at(i): 0 bool 1 int 2 long 3 real 4 complex 5 string
    static T const SC[] = { T::BOOL, T::INTEGER, T::LONG, T::REAL, T::COMPLEX, T::STRING }, VE[] = { T::VEC_BOOL, T::VEC_INTEGER, T::VEC_LONG, T::VEC_REAL, T::VEC_COMPLEX, T::VEC_STRING };
    unsigned i = idx( n ); bool xb = false; void * ref = nullptr;
    bool nowhere = m.t == T::MAP || isMat( m.t ); // nothing to index
    try { switch ( op ) { case 0: xb = g.get_bool_at( i ); break; case 1: ref = &g.get_int_at( i ); break; case 2: ref = &g.get_long_at( i ); break; case 3: ref = &g.get_real_at( i ); break; case 4: ref = &g.get_complex_at( i ); break; case 5: ref = &g.get_string_at( i ); break; } }
    catch ( std::exception const & ) { ok = false; }
    if ( !ok ) { sym_assert( nowhere, "indexed access to scalars, vectors and vectors of containers is served" ); sym_cover( "refused" ); same( g, m, "a refused indexed access leaves the container unchanged" ); return 0; }
    M w;
    if ( g.get_type() == VE[op] ) { // typed vector, possibly widened
      if ( m.t == T::NOTYPE ) { w.t = VE[op]; sym_cover( "created" ); }
      else if ( m.t == VE[op] ) { w = m; sym_cover( "same_type" ); }
      else { int a = elemClass( m.t ), b = elemClass( VE[op] ); sym_assert( a >= 0 && b >= 0 && a < b + (isScalar( m.t ) ? 1 : 0) && !isMat( m.t ), K ); w = widened( m, VE[op] ); sym_cover( "widened" ); }
      growTo( w, i+1 ); same( g, w, K );
    } else { // vector of containers
      sym_assert( g.get_type() == T::VECTOR && !isMat( m.t ) && m.t != T::MAP, K ); if ( g.get_type() != T::VECTOR ) return 0;
      w = spread( m ); growTo( w, i+1 ); sym_cover( "to_vector" );
      // the accessed element: kept when it already has that type, otherwise a zero / empty value of that type
      if ( w.v[i].t != SC[op] ) { w.v[i] = M(); w.v[i].t = SC[op]; }
      same( g, w, K );
    }
    // write through the reference
    M & e = w; 
    switch ( op ) {
    case 0: { bool now = w.t == T::VEC_BOOL ? w.vb[i] != 0 : w.v[i].b; sym_assert( xb == now, K ); } break;
    case 1: { int32_t x = sym<int32_t>( "x" ); *(int32_t*)ref = x; if ( e.t == T::VECTOR ) e.v[i].i = x; else e.vi[i] = x; } break;
    case 2: { int64_t x = sym<int64_t>( "x" ); *(int64_t*)ref = x; if ( e.t == T::VECTOR ) e.v[i].l = x; else e.vl[i] = x; } break;
    case 3: { double x = sym<double>( "x" ); *(double*)ref = x; if ( e.t == T::VECTOR ) e.v[i].r = x; else e.vr[i] = x; } break;
    case 4: { double a = sym<double>( "x" ), b = sym<double>( "y" ); *(C*)ref = C(a,b); if ( e.t == T::VECTOR ) e.v[i].r = a, e.v[i].im = b; else e.vc[i] = C(a,b); } break;
    case 5: { std::string x = sstr( 3, "x" ); *(std::string*)ref = x; if ( e.t == T::VECTOR ) e.v[i].s = x; else e.vs[i] = x; } break;
    }
    sym_cover( "written" ); same( g, w, Wr );
  } else if ( op < 10 ) { // get_X_at(i,j): 6 int 7 long 8 real 9 complex
    static T const MT[] = { T::MAT_INTEGER, T::MAT_LONG, T::MAT_REAL, T::MAT_COMPLEX };
    unsigned i = unsigned(sym_choose( 3, "i" )); if ( n > 4 && i == 2 ) i = n-1; unsigned j = unsigned(sym_choose( 3, "j" )); T t = MT[op-6]; void * ref = nullptr;
    try { switch ( op ) { case 6: ref = &g.get_int_at( i, j ); break; case 7: ref = &g.get_long_at( i, j ); break; case 8: ref = &g.get_real_at( i, j ); break; case 9: ref = &g.get_complex_at( i, j ); break; } }
    catch ( std::exception const & ) { ok = false; }
    M w; bool conv = m.t == t || ( m.t != T::NOTYPE && elemClass( m.t ) >= 0 && elemClass( m.t ) <= elemClass( t ) && !isScalar( m.t ) );
    if ( m.t == T::NOTYPE ) { w.t = t; w.nr = i+1; w.nc = j+1; w.vi.assign( op == 6 ? w.nr*w.nc : 0, 0 ); w.vl.assign( op == 7 ? w.nr*w.nc : 0, 0 ); w.vr.assign( op == 8 ? w.nr*w.nc : 0, 0 ); w.vc.assign( op == 9 ? w.nr*w.nc : 0, C(0,0) ); sym_cover( "created" ); }
    else if ( conv ) w = m.t == t ? m : widened( m, t );
    if ( ok ) {
      sym_assert( m.t == T::NOTYPE || conv, "indexed access by row and column to content that is not a narrower vector or matrix is refused" );
      if ( !( m.t == T::NOTYPE || conv ) ) return 0;
      sym_assert( i < w.nr && j < w.nc, "row or column outside the matrix is refused" ); same( g, w, K );
      unsigned k = i + j*w.nr;
      switch ( op ) {
      case 6: w.vi[k] = sym<int32_t>( "x" ); *(int32_t*)ref = w.vi[k]; break;
      case 7: w.vl[k] = sym<int64_t>( "x" ); *(int64_t*)ref = w.vl[k]; break;
      case 8: w.vr[k] = sym<double>( "x" ); *(double*)ref = w.vr[k]; break;
      case 9: { double a = sym<double>( "x" ), b = sym<double>( "y" ); w.vc[k] = C(a,b); *(C*)ref = C(a,b); } break;
      }
      sym_cover( "written" ); same( g, w, Wr );
    } else {
      sym_cover( "refused" );
      bool range = m.t == t && i < m.nr && j < m.nc;
      sym_assert( !range && m.t != T::NOTYPE, "row and column inside a matrix of that type are served" );
      // either untouched, or only widened
      if ( g.get_type() == m.t ) same( g, m, "a refused indexed access keeps the values" ); else { sym_assert( conv, "a refused indexed access keeps the values" ); if ( conv ) same( g, w, "a refused indexed access keeps the values" ); }
    }
  } else { // operator[](i): a vector of containers that grows on demand
    unsigned i = idx( n ); G & e = g[i]; M w = m.t == T::VECTOR ? m : M(); w.t = T::VECTOR; growTo( w, i+1 ); same( g, w, K );
    int32_t x = sym<int32_t>( "x" ); e = x; w.v[i] = M(); w.v[i].t = T::INTEGER; w.v[i].i = x; same( g, w, Wr ); sym_cover( "written" );
    CHECK( &g.get_gc_at( i ) == &e );
  }
  return 0;
}
