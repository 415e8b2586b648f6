//@ modules: core
//@ split: 56
//@ engine: --fpcast
//@ bounds: stored value: every one of the 21 types, all bits of bool/int32/int64/double/complex<double> symbolic (NaN, infinities, subnormals included); targets int32, uint32, int64, uint64, float, double, complex through get_value, get_as_*, get_number, get_complex_number and get_if_exists / get_map_int / get_map_number of a map entry
//@ quick: time=100 timeout=20000
//@ thorough: time=600 timeout=120000
//@ covers: converted refused
#include "num.hh"
template <class I> static void viaValue( G const & g, Num const & q ) {
  I v = 77; bool ok = true; try { g.get_value( v, "w" ); } catch ( std::exception const & ) { ok = false; }
  sym_cover( ok ? "converted" : "refused" );
  ckInt<I>( q, ok, v, "get_value: an integer conversion is exact or refused" );
}
template <class I> static void viaMap( G const & g, Num const & q, int form ) {
  I v = 77; bool ok = form == 0 ? g.get_if_exists( "k", v ) : form == 1 ? g.get_if_exists( string_view( "k" ), v ) : g.get_if_exists( vec_string_type{ "none", "k" }, v );
  ckInt<I>( q, ok, v, "get_if_exists: an integer conversion is exact or refused" );
  if ( !ok ) sym_assert( v == 77, "get_if_exists leaves the variable unchanged when it returns false" );
}
template <class I, class F> static void viaFun( Num const & q, F f ) {
  I v = 77; bool ok = true; try { v = f(); } catch ( std::exception const & ) { ok = false; }
  ckInt<I>( q, ok, v, "get_as_*: an integer conversion is exact or refused" );
}
extern "C" int harness_main() {
  int z = sym_choose( 21*16, "to,t" ); T t = static_cast<T>( z / 16 );
  M m = make( t, 1, 1 );
  Num q = numOf( m );
  G g; build( m, g ); G const & cg = g;
  G mp; mp["k"] = g; G const & cm = mp;
  switch ( z % 16 ) {
  case 0: viaValue<int_type>( cg, q ); break;
  case 1: viaValue<uint_type>( cg, q ); break;
  case 2: viaValue<long_type>( cg, q ); break;
  case 3: viaValue<ulong_type>( cg, q ); break;
  case 4: { double v = 77; bool ok = true; try { cg.get_value( v, "w" ); } catch ( std::exception const & ) { ok = false; } ckReal( q, ok, v, "get_value<double>: exact (rounded only from 64-bit integers) or refused", true ); } break;
  case 5: { float v = 77; bool ok = true; try { cg.get_value( v, "w" ); } catch ( std::exception const & ) { ok = false; }
      if ( !q.numeric ) CHECK( !ok ); else if ( !q.isReal ) CHECK( ok && v == float(q.l) ); else if ( ok ) { CHECK( tiny( q.im ) ); float f = float(q.r); if ( q.r == q.r ) CHECK( sym_eq( &f, &v, 4 ) ); else CHECK( v != v ); } else CHECK( q.im != 0 ); } break;
  case 6: viaFun<int_type>( q, [&]{ return cg.get_as_int("w"); } ); break;
  case 7: viaFun<uint_type>( q, [&]{ return cg.get_as_uint("w"); } ); break;
  case 8: viaFun<long_type>( q, [&]{ return cg.get_as_long("w"); } ); break;
  case 9: viaFun<ulong_type>( q, [&]{ return cg.get_as_ulong("w"); } ); break;
  case 10: { double v = 77; bool ok = true; try { v = cg.get_number("w"); } catch ( std::exception const & ) { ok = false; }
      if ( t == T::COMPLEX ) CHECK( !ok || ( tiny( m.im ) && deq( v, m.r ) ) ); else ckReal( q, ok, v, "get_number: the stored number, or refused", true );
      bool ok2 = true; double v2 = 77; try { v2 = cm.get_map_number( "k", "w" ); } catch ( std::exception const & ) { ok2 = false; } CHECK( ok2 == ok && deq( v, v2 ) ); 
      ok2 = true; v2 = 77; try { v2 = cm.get_map_number( { "k" } ); } catch ( std::exception const & ) { ok2 = false; } CHECK( ok2 == ok && deq( v, v2 ) ); } break;
  case 11: { double re = 77, im = 78, r2 = 77, i2 = 78; bool ok = true; try { C c = cg.get_complex_number("w"); re = c.real(); im = c.imag(); cg.get_complex_number( r2, i2 ); } catch ( std::exception const & ) { ok = false; }
      ckCplx( q, ok, re, im, "get_complex_number: the stored number, or refused" ); CHECK( deq( re, r2 ) && deq( im, i2 ) ); } break;
  case 12: { int f = sym_choose( 3, "form" ); switch ( sym_choose( 4, "it" ) ) { case 0: viaMap<int_type>( cm, q, f ); break; case 1: viaMap<uint_type>( cm, q, f ); break; case 2: viaMap<long_type>( cm, q, f ); break; case 3: viaMap<ulong_type>( cm, q, f ); break; } } break;
  case 13: { double v = 77; bool ok = cm.get_if_exists( "k", v ); ckReal( q, ok, v, "get_if_exists<double>: exact or refused", true ); if ( !ok ) CHECK( deq( v, 77 ) );
      C c( 77, 78 ); ok = cm.get_if_exists( "k", c ); ckCplx( q, ok, c.real(), c.imag(), "get_if_exists<complex>: the stored number or refused" ); if ( !ok ) CHECK( ceq( c, C(77,78) ) ); } break;
  case 14: { bool b = m.t == T::BOOL ? !m.b : true; bool b0 = b; int f = sym_choose( 2, "form" ); bool ok = f ? cm.get_if_exists( vec_string_type{ "none", "k" }, b ) : cm.get_if_exists( "k", b );
      sym_assert( ok == ( t == T::BOOL ), "get_if_exists<bool> succeeds exactly on a stored bool" ); if ( ok ) sym_assert( b == m.b, "get_if_exists<bool> gives the stored bool" ); else sym_assert( b == b0, "get_if_exists<bool> leaves the variable unchanged when it returns false" );
      std::string s = "q"; ok = cm.get_if_exists( "k", s ); CHECK( ok == ( t == T::STRING ) ); CHECK( ok ? streq( s, m.s ) : s == "q" ); } break;
  case 15: viaFun<int_type>( q, [&]{ return cm.get_map_int( "k", "w" ); } ); viaFun<int_type>( q, [&]{ return cm.get_map_int( vec_string_type{ "none", "k" }, "w" ); } );
           viaFun<int_type>( q, [&]{ return cm.get_map_int( { "k" } ); } ); break;
  }
  same( g, m, "a conversion leaves the stored value unchanged" );
  return 0;
}
