//@ modules: core
//@ split: 21
//@ bounds: any of the 21 prior contents (prior vectors 2 or 40 elements, matrices 2x1 or 40x1; prior content of the same type: every size and shape), then any of 20 stored types; vectors 0..2 (thorough 0..3) elements, matrices 0..2 x 0..2 (thorough 0..3), strings of length 0,1,3,17; all element bits symbolic; nested vector/map of up to the same sizes, depth 2
//@ quick: -DN=3 time=60
//@ thorough: -DN=4 time=600
//@ covers: stored wrong_type_refused sized overwritten
#include "gcm.hh"

static void fill( M const & m, G & g, int variant ) {
  switch ( m.t ) {
  case T::NOTYPE: g.clear(); break;
  case T::POINTER: if ( variant==0 ) { void *& r = g.set_pointer( m.p ); CHECK( r == m.p ); } else if ( variant==1 ) g = m.p; else g.set( m.p ); break;
  case T::BOOL: if ( variant==0 ) { bool & r = g.set_bool( m.b ); CHECK( r == m.b ); } else if ( variant==1 ) g = m.b; else g.set( m.b ); break;
  case T::INTEGER: if ( variant==0 ) { int & r = g.set_int( m.i ); CHECK( r == m.i ); } else if ( variant==1 ) g = m.i; else if ( variant==2 ) g.set( m.i ); else g = uint_type( m.i ); break;
  case T::LONG: if ( variant==0 ) { long & r = g.set_long( m.l ); CHECK( r == m.l ); } else if ( variant==1 ) g = m.l; else if ( variant==2 ) g.set( m.l ); else g = ulong_type( m.l ); break;
  case T::REAL: if ( variant==0 ) { double & r = g.set_real( m.r ); CHECK( deq(r,m.r) ); } else if ( variant==1 ) g = m.r; else g.set( m.r ); break;
  case T::COMPLEX: if ( variant==0 ) { C & r = g.set_complex( C(m.r,m.im) ); CHECK( ceq(r,C(m.r,m.im)) ); } else if ( variant==1 ) g = C(m.r,m.im); else if ( variant==2 ) g.set( C(m.r,m.im) ); else { C & r = g.set_complex( m.r, m.im ); CHECK( ceq(r,C(m.r,m.im)) ); } break;
  case T::STRING: if ( variant==0 ) { std::string & r = g.set_string( m.s ); CHECK( streq(r,m.s) ); } else if ( variant==1 ) g = m.s; else if ( variant==2 ) g.set( string_view(m.s) ); else g = string_view( m.s ); break;
  #define VEC(TT,SET,TY,FLD) case TT: { TY v; for ( auto const & e : m.FLD ) v.push_back( e ); \
      if ( variant==0 ) { auto & r = g.SET( v ); CHECK( r.size() == v.size() ); } else if ( variant==1 ) g = v; \
      else { auto & r = g.SET( unsigned(v.size()) ); if ( v.size() ) CHECK( r.size() == v.size() ); else r.clear(); for ( size_t k=0;k<v.size();++k ) r[k]=v[k]; sym_cover("sized"); } } break;
  case T::VEC_POINTER: { vec_pointer_type v( m.vp ); if ( variant<2 ) g.set_vec_pointer( v ); else { auto & r = g.set_vec_pointer( unsigned(v.size()) ); if ( v.empty() ) r.clear(); for ( size_t k=0;k<v.size();++k ) r[k]=v[k]; } } break;
  VEC( T::VEC_BOOL, set_vec_bool, vec_bool_type, vb )
  VEC( T::VEC_INTEGER, set_vec_int, vec_int_type, vi )
  VEC( T::VEC_LONG, set_vec_long, vec_long_type, vl )
  VEC( T::VEC_REAL, set_vec_real, vec_real_type, vr )
  VEC( T::VEC_COMPLEX, set_vec_complex, vec_complex_type, vc )
  VEC( T::VEC_STRING, set_vec_string, vec_string_type, vs )
  #define MAT(TT,SET,TY,FLD) case TT: { TY x( m.nr, m.nc ); for ( unsigned j=0;j<m.nc;++j ) for ( unsigned i=0;i<m.nr;++i ) x(i,j) = m.FLD[i+j*m.nr]; \
      if ( variant==0 ) { auto & r = g.SET( x ); CHECK( r.num_rows()==m.nr && r.num_cols()==m.nc ); } else if ( variant==1 ) g = x; \
      else { auto & r = g.SET( m.nr, m.nc ); CHECK( r.size() == size_t(m.nr)*m.nc ); for ( unsigned j=0;j<m.nc;++j ) for ( unsigned i=0;i<m.nr;++i ) r(i,j) = m.FLD[i+j*m.nr]; } } break;
  MAT( T::MAT_INTEGER, set_mat_int, mat_int_type, vi )
  MAT( T::MAT_LONG, set_mat_long, mat_long_type, vl )
  MAT( T::MAT_REAL, set_mat_real, mat_real_type, vr )
  MAT( T::MAT_COMPLEX, set_mat_complex, mat_complex_type, vc )
  case T::VECTOR: g.clear(); { auto & x = g.set_vector( unsigned(m.v.size()) ); CHECK( x.size() == m.v.size() ); for ( size_t k=0;k<m.v.size();++k ) fill( m.v[k], x[k], variant ); } break;
  case T::MAP: g.clear(); { auto & x = g.set_map(); CHECK( x.empty() ); for ( auto const & e : m.m ) fill( e.second, g[e.first], variant ); } break;
  }
}

// every const accessor of type k, applied to g: 1 when it refuses
static int refuses( G const & g, T k ) {
  switch ( k ) {
  case T::POINTER: return throws( [&]{ (void)g.get_pvoid("w"); } ) && throws( [&]{ (void)g.get_ppvoid("w"); } ) && throws( [&]{ (void)g.get_pointer<int*>(); } );
  case T::BOOL: return throws( [&]{ (void)g.get_bool("w"); } );
  case T::INTEGER: return throws( [&]{ (void)g.get_int("w"); } );
  case T::LONG: return throws( [&]{ (void)g.get_long("w"); } );
  case T::REAL: return throws( [&]{ (void)g.get_real("w"); } );
  case T::COMPLEX: return throws( [&]{ (void)g.get_complex("w"); } );
  case T::STRING: return throws( [&]{ (void)g.get_string("w"); } );
  case T::VEC_POINTER: return throws( [&]{ (void)g.get_vec_pointer("w"); } );
  case T::VEC_BOOL: return throws( [&]{ (void)g.get_vec_bool("w"); } );
  case T::VEC_INTEGER: return throws( [&]{ (void)g.get_vec_int("w"); } );
  case T::VEC_LONG: return throws( [&]{ (void)g.get_vec_long("w"); } );
  case T::VEC_REAL: return throws( [&]{ (void)g.get_vec_real("w"); } );
  case T::VEC_COMPLEX: return throws( [&]{ (void)g.get_vec_complex("w"); } );
  case T::VEC_STRING: return throws( [&]{ (void)g.get_vec_string("w"); } );
  case T::MAT_INTEGER: return throws( [&]{ (void)g.get_mat_int("w"); } );
  case T::MAT_LONG: return throws( [&]{ (void)g.get_mat_long("w"); } );
  case T::MAT_REAL: return throws( [&]{ (void)g.get_mat_real("w"); } );
  case T::MAT_COMPLEX: return throws( [&]{ (void)g.get_mat_complex("w"); } );
  case T::VECTOR: return throws( [&]{ (void)g.get_vector("w"); } );
  case T::MAP: return throws( [&]{ (void)g.get_map("w"); } );
  default: return 1;
  }
}
// the mutable accessor of type k is allowed to widen (documented promotions) or to initialise an empty container
static bool widens( T from, T to ) {
  switch ( to ) {
  case T::VEC_INTEGER: return from==T::VEC_BOOL;
  case T::VEC_LONG: return from==T::VEC_BOOL || from==T::VEC_INTEGER;
  case T::VEC_REAL: return from==T::VEC_BOOL || from==T::VEC_INTEGER || from==T::VEC_LONG;
  case T::VEC_COMPLEX: return from==T::VEC_BOOL || from==T::VEC_INTEGER || from==T::VEC_LONG || from==T::VEC_REAL;
  case T::MAT_INTEGER: case T::MAT_LONG: case T::MAT_REAL: case T::MAT_COMPLEX: return ( from>=T::VEC_BOOL && from<=T::VEC_COMPLEX ) || isMat(from);
  default: return false;
  }
}
static int refusesMut( G & g, T k ) {
  switch ( k ) {
  case T::POINTER: return throws( [&]{ (void)g.get_pointer<int*>(); } );
  case T::BOOL: return throws( [&]{ (void)g.get_bool("w"); } );
  case T::INTEGER: return throws( [&]{ (void)g.get_int("w"); } );
  case T::LONG: return throws( [&]{ (void)g.get_long("w"); } );
  case T::REAL: return throws( [&]{ (void)g.get_real("w"); } );
  case T::COMPLEX: return throws( [&]{ (void)g.get_complex("w"); } );
  case T::STRING: return throws( [&]{ (void)g.get_string("w"); } );
  case T::VEC_POINTER: return throws( [&]{ (void)g.get_vec_pointer("w"); } );
  case T::VEC_BOOL: return throws( [&]{ (void)g.get_vec_bool("w"); } );
  case T::VEC_INTEGER: return throws( [&]{ (void)g.get_vec_int("w"); } );
  case T::VEC_LONG: return throws( [&]{ (void)g.get_vec_long("w"); } );
  case T::VEC_REAL: return throws( [&]{ (void)g.get_vec_real("w"); } );
  case T::VEC_COMPLEX: return throws( [&]{ (void)g.get_vec_complex("w"); } );
  case T::VEC_STRING: return throws( [&]{ (void)g.get_vec_string("w"); } );
  case T::MAT_INTEGER: return throws( [&]{ (void)g.get_mat_int("w"); } );
  case T::MAT_LONG: return throws( [&]{ (void)g.get_mat_long("w"); } );
  case T::MAT_REAL: return throws( [&]{ (void)g.get_mat_real("w"); } );
  case T::MAT_COMPLEX: return throws( [&]{ (void)g.get_mat_complex("w"); } );
  case T::VECTOR: return throws( [&]{ (void)g.get_vector("w"); } );
  case T::MAP: return throws( [&]{ (void)g.get_map("w"); } );
  default: return 1;
  }
}
static char const * const NAME[] = { "NOTYPE", "pointer", "bool_type", "int_type", "long_type", "real_type", "complex_type", "string_type", "vec_pointer_type", "vec_bool_type", "vec_int_type", "vec_long_type", "vec_real_type", "vec_complex_type", "vec_string_type", "mat_int_type", "mat_long_type", "mat_real_type", "mat_complex_type", "vector_type", "map_type" };
static bool sameMut( G & g, M const & m ) { // the mutable accessor of the right type returns the stored object
  switch ( m.t ) {
  case T::POINTER: return g.get_pointer<void*>() == m.p && *g.get_ppvoid() == m.p;
  case T::BOOL: return g.get_bool() == m.b;
  case T::INTEGER: return g.get_int() == m.i && *g.get_int_pointer() == m.i;
  case T::LONG: return g.get_long() == m.l && *g.get_long_pointer() == m.l;
  case T::REAL: return deq( g.get_real(), m.r ) && deq( *g.get_real_pointer(), m.r );
  case T::COMPLEX: return ceq( g.get_complex(), C(m.r,m.im) ) && ceq( *g.get_complex_pointer(), C(m.r,m.im) );
  case T::STRING: return streq( g.get_string(), m.s );
  case T::VEC_POINTER: return &g.get_vec_pointer() == &const_cast<G const&>(g).get_vec_pointer();
  case T::VEC_BOOL: return &g.get_vec_bool() == &const_cast<G const&>(g).get_vec_bool();
  case T::VEC_INTEGER: return &g.get_vec_int() == &const_cast<G const&>(g).get_vec_int() && ( m.vi.empty() || g.get_int_pointer() == &g.get_vec_int()[0] );
  case T::VEC_LONG: return &g.get_vec_long() == &const_cast<G const&>(g).get_vec_long() && ( m.vl.empty() || g.get_long_pointer() == &g.get_vec_long()[0] );
  case T::VEC_REAL: return &g.get_vec_real() == &const_cast<G const&>(g).get_vec_real() && ( m.vr.empty() || g.get_real_pointer() == &g.get_vec_real()[0] );
  case T::VEC_COMPLEX: return &g.get_vec_complex() == &const_cast<G const&>(g).get_vec_complex() && ( m.vc.empty() || g.get_complex_pointer() == &g.get_vec_complex()[0] );
  case T::VEC_STRING: return &g.get_vec_string() == &const_cast<G const&>(g).get_vec_string();
  case T::MAT_INTEGER: return &g.get_mat_int() == &const_cast<G const&>(g).get_mat_int() && ( m.vi.empty() || g.get_int_pointer() == &g.get_mat_int()[0] );
  case T::MAT_LONG: return &g.get_mat_long() == &const_cast<G const&>(g).get_mat_long() && ( m.vl.empty() || g.get_long_pointer() == &g.get_mat_long()[0] );
  case T::MAT_REAL: return &g.get_mat_real() == &const_cast<G const&>(g).get_mat_real() && ( m.vr.empty() || g.get_real_pointer() == &g.get_mat_real()[0] );
  case T::MAT_COMPLEX: return &g.get_mat_complex() == &const_cast<G const&>(g).get_mat_complex() && ( m.vc.empty() || g.get_complex_pointer() == &g.get_mat_complex()[0] );
  case T::VECTOR: return &g.get_vector() == &const_cast<G const&>(g).get_vector();
  case T::MAP: return &g.get_map() == &const_cast<G const&>(g).get_map();
  default: return true;
  }
}

extern "C" int harness_main() {
  T t = anyType( "t" );
  bool sized = !isScalar( t ) || t == T::STRING;
  unsigned n = sized && t != T::NOTYPE ? pick( t == T::STRING ? 4 : N, "n" ) : 0;
  unsigned n2 = isMat( t ) ? pick2( n, N, "n2" ) : 1;
  int variant = t == T::NOTYPE ? 0 : sym_choose( t == T::INTEGER || t == T::LONG || t == T::COMPLEX || t == T::STRING ? 4 : 3, "variant" );
  T pt = anyType( "prior" );
  G g;
  unsigned pn = n == 1 ? 40 : 2, pn2 = 1;
  if ( pt == t && !isScalar( t ) ) { pn = pick( N, "pn" ); if ( isMat( t ) ) pn2 = pick2( pn, N, "pn2" ); } // the same type: any two sizes
  M pm = make( pt, pn, pn2 );
  build( pm, g );
  same( g, pm, "content stored through the setters is read back (prior)" );
  M m = make( t, n, n2 );
  fill( m, g, variant );
  if ( pt != T::NOTYPE ) sym_cover( "overwritten" );
  same( g, m, "a stored value is read back identical through the accessor of its type, whatever was stored before" );
  sym_cover( "stored" );
  CHECK( g.get_type_name() == NAME[int(t)] );
  CHECK( sameMut( g, m ) );
  // shape
  unsigned cnt = t==T::NOTYPE ? 0 : isScalar(t) ? 1 : isMat(t) ? m.nr*m.nc : n;
  CHECK( g.get_num_elements() == cnt );
  CHECK( g.num_rows() == ( t==T::NOTYPE ? 0 : isMat(t) ? m.nr : 1 ) );
  CHECK( g.num_cols() == ( isMat(t) ? m.nc : cnt ) );
  if ( pt == T::NOTYPE ) { // one prior content is enough here
    T k = anyType( "accessor" );
    G const & cg = g;
    if ( k != t ) {
      CHECK( refuses( cg, k ) );
      same( g, m, "a refused read leaves the content unchanged" );
      if ( t != T::NOTYPE && !widens( t, k ) ) {
        CHECK( refusesMut( g, k ) );
        same( g, m, "a refused mutable read leaves the content unchanged" );
        sym_cover( "wrong_type_refused" );
      }
      // raw pointer accessors accept only their own element type
      if ( t!=T::INTEGER && t!=T::VEC_INTEGER && t!=T::MAT_INTEGER ) CHECK( throws([&]{ (void)cg.get_int_pointer(); }) && throws([&]{ (void)g.get_int_pointer(); }) );
      if ( t!=T::LONG && t!=T::VEC_LONG && t!=T::MAT_LONG ) CHECK( throws([&]{ (void)cg.get_long_pointer(); }) && throws([&]{ (void)g.get_long_pointer(); }) );
      if ( t!=T::REAL && t!=T::VEC_REAL && t!=T::MAT_REAL ) CHECK( throws([&]{ (void)cg.get_real_pointer(); }) && throws([&]{ (void)g.get_real_pointer(); }) );
      if ( t!=T::COMPLEX && t!=T::VEC_COMPLEX && t!=T::MAT_COMPLEX ) CHECK( throws([&]{ (void)cg.get_complex_pointer(); }) && throws([&]{ (void)g.get_complex_pointer(); }) );
    } else if ( t != T::NOTYPE ) CHECK( !refuses( cg, k ) );
  }
  g.clear();
  CHECK( g.get_type() == T::NOTYPE && g.get_num_elements() == 0 );
  return 0;
}
