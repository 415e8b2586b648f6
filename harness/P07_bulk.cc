//@ modules: core
//@ split: 63
//@ engine: --fpcast
//@ bounds: every stored type (vectors 0..2 elements, matrices 0..2 x 0..2, vectors of containers of 0..2 scalars of any numeric type / columns), all bits symbolic; targets vector of int32, uint32, int64, uint64, double, complex, string and matrix of int32, int64, double, complex; destination with previous content
//@ quick: -DNB=3 -DBIGS=18 time=100 timeout=20000
//@ thorough: -DNB=3 -DBIGS=9,34,270 time=700 timeout=120000
//@ covers: copied refused columns
#include "num.hh"
template <class I> static bool exactI( Num const & q, I v ) { if ( !q.isReal ) return Rng<I>::inL( q.l ) && v == I(q.l); if ( !tiny( q.im ) ) return false; return tiny( q.r ) ? v == 0 : Rng<I>::inD( q.r ) && double(v) == q.r; }
template <class I> static bool convI( Num const & q ) { if ( !q.isReal ) return Rng<I>::inL( q.l ); return q.im == 0 && Rng<I>::inD( q.r ) && isInt( q.r ); }
template <class I> static void toI( G const & g, std::vector<Num> const & q, bool num, void (G::*f)( std::vector<I> &, string_view ) const, bool needAll ) {
  std::vector<I> v( 1, I(7) ); bool ok = true; try { (g.*f)( v, "w" ); } catch ( std::exception const & ) { ok = false; }
  if ( !num ) { sym_assert( !ok || g.get_num_elements() == 0, "content that is not numeric is refused" ); return; }
  if ( ok ) { sym_assert( v.size() == q.size(), "every element is copied" ); for ( size_t k=0;k<q.size();++k ) sym_assert( exactI<I>( q[k], v[k] ), "a copied integer equals the stored value" ); sym_cover( "copied" ); }
  else { bool all = true; for ( auto const & x : q ) all = all && convI<I>( x ); sym_assert( !( needAll && all ), "content whose values all fit is copied" ); sym_cover( "refused" ); }
}
extern "C" int harness_main() {
  // kinds: 0..20 flat types; 21..25: vector of containers of scalars of one class; 26: mixed vector; the target is part of the first choice so that the work splits
  int z = sym_choose( 7*27, "to,kind" ), to = z % 7, kind = z / 7; if ( to >= 7 ) sym_skip();
  unsigned n = kind == 7 ? pick( 4, "n" ) : sizedKind( kind ) || kind >= 21 ? pick( to < 4 ? 2 : NB, "n" ) : 1;
  unsigned n2 = kind >= 15 && kind <= 18 ? pick2( n, to < 4 ? 2 : NB, "n2" ) : 1;
  M m; std::vector<Num> q; bool num; bool strs = false;
  if ( kind < 21 ) { m = make( T(kind), n, n2 ); num = numeric( m.t ); q = numsOf( m ); if ( m.t == T::VECTOR ) { if ( n > 1 ) sym_skip(); num = true; for ( auto const & e : m.v ) { q.push_back( numOf( e ) ); num = num && numeric( e.t ); } } }
  else if ( kind < 26 ) { num = true; m.t = T::VECTOR; for ( unsigned k=0;k<n;++k ) { Conc z( n > 4 && !at3( k, n ) ); m.v.push_back( make( T( int(T::BOOL) + kind - 21 ), 1, 1 ) ); q.push_back( numOf( m.v[k] ) ); } }
  else { num = n == 0; strs = true; m.t = T::VECTOR; for ( unsigned k=0;k<n;++k ) { Conc z( n > 4 && !at3( k, n ) ); m.v.push_back( make( T::STRING, (k+1)%5 ) ); } }
  G g; build( m, g ); G const & c = g;
  switch ( to ) {
  case 0: toI<int_type>( c, q, num, &G::copyto_vec_int, true ); break;
  case 1: toI<uint_type>( c, q, num, &G::copyto_vec_uint, true ); break;
  case 2: toI<long_type>( c, q, num, &G::copyto_vec_long, true ); break;
  case 3: toI<ulong_type>( c, q, num, &G::copyto_vec_ulong, true ); break;
  case 4: { vec_real_type v( 1, 7 ); bool ok = true; try { c.copyto_vec_real( v, "w" ); } catch ( std::exception const & ) { ok = false; }
      if ( !num ) { CHECK( !ok || c.get_num_elements() == 0 ); break; }
      if ( ok ) { CHECK( v.size() == q.size() ); for ( size_t k=0;k<q.size();++k ) sym_assert( q[k].isReal ? tiny( q[k].im ) && deq( v[k], q[k].r ) : v[k] == double(q[k].l), "a copied real equals the stored value" ); sym_cover( "copied" ); }
      else { bool all = kind != 25; for ( auto const & x : q ) all = all && x.im == 0; sym_assert( !all, "content that is real is copied" ); sym_cover( "refused" ); } } break;
  case 5: { vec_complex_type v( 1, C(7,7) ); bool ok = true; try { c.copyto_vec_complex( v, "w" ); } catch ( std::exception const & ) { ok = false; }
      if ( !num ) { CHECK( !ok || c.get_num_elements() == 0 ); break; }
      sym_assert( ok, "every numeric content copies to complex" );
      if ( ok ) { CHECK( v.size() == q.size() ); for ( size_t k=0;k<q.size();++k ) sym_assert( ceq( v[k], C( q[k].isReal ? q[k].r : double(q[k].l), q[k].im ) ), "a copied complex equals the stored value" ); sym_cover( "copied" ); } } break;
  case 6: { vec_string_type v( 1, "x" ); bool ok = true; try { c.copyto_vec_string( v, "w" ); } catch ( std::exception const & ) { ok = false; }
      if ( m.t == T::STRING ) { CHECK( ok && v.size() == 1 ); CHECK( streq( v[0], m.s ) ); }
      else if ( m.t == T::VEC_STRING ) { CHECK( ok && v.size() == m.vs.size() ); for ( size_t k=0;k<v.size();++k ) CHECK( streq( v[k], m.vs[k] ) ); }
      else if ( strs ) { CHECK( ok && v.size() == m.v.size() ); for ( size_t k=0;k<v.size();++k ) CHECK( streq( v[k], m.v[k].s ) ); }
      else CHECK( !ok || c.get_num_elements() == 0 ); } break;
  }
  same( g, m, "copying out leaves the container unchanged" );
  return 0;
}
