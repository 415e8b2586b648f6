//@ modules: core
//@ split: 64
//@ bounds: 46 operations (typed stores, copies, promotions, appends, keyed and indexed writes that grow, collapse, merge, store/restore) on containers of every type (2 elements, matrices 2 x 2, strings of 17 bytes, all bits symbolic) and 4 nested shapes; the failing allocation is any of the first 8 (thorough 16) of the operation; then the containers are read, compared with the source of the operation, copied, overwritten and destroyed
//@ quick: -DNF=8 time=100
//@ thorough: -DNF=16 time=600
//@ covers: failed completed refused
//@ stubs: operator new fails at one chosen call (fault model of the allocator)
#include "oom.hh"
#include "ops.hh"
static char const * const A = "after running out of memory the container can be read, copied, overwritten and destroyed";
static bool useful( int o, int k ) { // merge needs maps
  return o != 38 || k == int(T::MAP) || k == int(T::NOTYPE) || k == 24; }
extern "C" int harness_main() {
  static M const none; int z = sym_choose( 46*25, "op,kind" ), o = z / 25, k = z % 25; if ( !useful( o, k ) ) return 0;
  M m, s; { m = k < 21 ? make( T(k), 2, 2, 3 ) : makeDeep( unsigned(k-21) ); }
  bool copies = ( o >= 15 && o <= 20 ) || o == 38 || o == 42; // the source: nested, or a simple one
  if ( copies ) { int q = o == 38 ? 1 : sym_choose( 3, "source" ); s = q == 0 ? makeDeep( 0 ) : q == 1 ? make( T::MAP, 2 ) : make( T::VEC_STRING, 2, 2, 3 ); if ( o == 38 ) for ( auto & e : s.m ) e.first += "_other"; }
  int f = sym_choose( NF, "fails" );
  {
    G g, h; build( m, g ); build( s, h ); std::vector<uint8_t> b; if ( o == 42 ) h.serialize( b ); bool ok = true;
    sym_alloc_fail( f ); try { op( g, h, o, b ); } catch ( std::bad_alloc const & ) { ok = false; } catch ( std::exception const & ) { sym_alloc_fail( -1 ); sym_cover( "refused" ); return 0; }
    bool fired = sym_alloc_fired(); sym_alloc_fail( -1 ); sym_assert( ok != fired, "running out of memory is reported by an exception" ); if ( fired ) sym_cover( "failed" ); else sym_cover( "completed" );
    if ( copies ) same( h, s, "running out of memory does not change the source of a copy" );
    M now = readM( g ); same( g, now, A ); { G t( g ); same( t, now, A ); } g.set_vec_int( vec_int_type{ 1, 2, 3 } ); sym_assert( g.get_type() == T::VEC_INTEGER && g.get_vec_int().size() == 3 && g.get_vec_int()[2] == 3, A );
  }
  return 0;
}
