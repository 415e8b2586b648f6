//@ modules: core
//@ split: 29
//@ bounds: one or two appends (bool, int, long, real, complex in two forms, string) to a container of any type (vectors 0..3, thorough 0..4, elements, nested shapes), all bits of content and appended values symbolic
//@ quick: -DNB=4 time=90
//@ thorough: -DNB=5 time=700
//@ covers: appended refused widened string_appended second
#include "num.hh"
static M push( G & g, M const & m, int op ) {
  M e; bool ok = true; std::string s; C c;
  switch ( op ) {
  case 0: e.t = T::BOOL; e.b = sbool( "b" ); break;
  case 1: e.t = T::INTEGER; e.i = sym<int32_t>( "i" ); break;
  case 2: e.t = T::LONG; e.l = sym<int64_t>( "l" ); break;
  case 3: e.t = T::REAL; e.r = sym<double>( "r" ); break;
  case 4: case 5: e.t = T::COMPLEX; e.r = sym<double>( "re" ); e.im = sym<double>( "im" ); c = C( e.r, e.im ); break;
  default: e.t = T::STRING; s = sstr( op == 6 ? 2 : 0, "s" ); e.s = s; s += "~tail"; break;
  }
  try { switch ( op ) {
    case 0: g.push_bool( e.b ); break; case 1: g.push_int( e.i ); break; case 2: g.push_long( e.l ); break; case 3: g.push_real( e.r ); break;
    case 4: g.push_complex( c ); break; case 5: g.push_complex( e.r, e.im ); break; default: g.push_string( string_view( s.data(), e.s.size() ) ); break; } }
  catch ( std::exception const & ) { ok = false; }
  bool numvec = isVec( m.t ) && numeric( m.t );
  bool must = m.t == T::VECTOR || ( e.t == T::STRING ? isVec( m.t ) : numvec );
  if ( must ) sym_assert( ok, "a value that fits is appended" );
  if ( !ok ) { same( g, m, "a refused append leaves the container unchanged" ); sym_cover( "refused" ); return m; }
  if ( m.t == T::NOTYPE ) { unsigned n = g.get_num_elements(); sym_assert( n >= 1 && n <= 2, "appending to an empty container makes a vector" );
    M o; if ( e.t == T::STRING ) { if ( g.get_type() == T::VECTOR ) same( g.get_gc_at( n-1 ), e, "the appended value is the last element" ); else { sym_assert( g.get_type() == T::VEC_STRING, "appending a string makes a vector of strings" ); sym_assert( sveq( g.get_string_at( n-1 ), e.s ), "the appended value is the last element" ); } sym_skip(); }
    o = widened( M(), withClass( 1, elemClass( e.t ) ) ); M x = widened( e, o.t ); if ( n == 1 ) o = x; else { o.vb.insert( o.vb.end(), x.vb.begin(), x.vb.end() ); o.vi.insert( o.vi.end(), x.vi.begin(), x.vi.end() ); o.vl.insert( o.vl.end(), x.vl.begin(), x.vl.end() ); o.vr.insert( o.vr.end(), x.vr.begin(), x.vr.end() ); o.vc.insert( o.vc.end(), x.vc.begin(), x.vc.end() ); }
    same( g, o, "the appended value is the last element" ); return o; }
  M o;
  if ( m.t == T::VECTOR ) { o = m; o.v.push_back( e ); }
  else if ( e.t == T::STRING ) { if ( m.t == T::VEC_STRING ) { o = m; o.vs.push_back( e.s ); } else { sym_assert( isVec( m.t ) || isScalar( m.t ), "a string is appended to vectors and scalars only" ); o = spread( m ); o.v.push_back( e ); } sym_cover( "string_appended" ); }
  else {
    sym_assert( numvec || ( isScalar( m.t ) && numeric( m.t ) ), "a number is appended to numbers only" );
    int k = elemClass( m.t ) > elemClass( e.t ) ? elemClass( m.t ) : elemClass( e.t ); T t = withClass( 1, k ); if ( t != m.t ) sym_cover( "widened" );
    o = widened( m, t ); M x = widened( e, t );
    o.vb.insert( o.vb.end(), x.vb.begin(), x.vb.end() ); o.vi.insert( o.vi.end(), x.vi.begin(), x.vi.end() ); o.vl.insert( o.vl.end(), x.vl.begin(), x.vl.end() ); o.vr.insert( o.vr.end(), x.vr.begin(), x.vr.end() ); o.vc.insert( o.vc.end(), x.vc.begin(), x.vc.end() );
  }
  same( g, o, "appending keeps every element, in order, and adds the new one at the end" ); sym_cover( "appended" );
  return o;
}
extern "C" int harness_main() {
  int kind = sym_choose( NKINDS, "kind" );
  unsigned n = sizedKind( kind ) ? pick( NB, "n" ) : 1;
  long live0 = sym_live();
  {
    M m = anyM( kind, n, 2 ); G g; build( m, g );
    M o = push( g, m, sym_choose( 8, "op" ) );
    if ( n >= 1 && n <= 2 ) { sym_cover( "second" ); push( g, o, sym_choose( 8, "op2" ) ); }
  }
  sym_assert( sym_live() == live0, "appending leaks nothing" );
  return 0;
}
