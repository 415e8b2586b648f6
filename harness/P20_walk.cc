//@ modules: core
//@ split: 64
//@ bounds: every sequence of 5 (thorough 6) steps out of: select one of two containers, delete one, push a map key (of 2) or a vector position (any 32-bit value), pop, reset, store an integer (all bits), make a map, make a vector of 2, list the keys or store a mark at the end; starting from nothing selected or from three levels deep in a container
//@ quick: -DSTEPS=5 time=100
//@ thorough: -DSTEPS=6 time=800
//@ covers: start pushed refused popped deleted keys deep
#include "gcm.hh"
#include "GenericContainer/GenericContainerInterface_C.h"
struct W { bool alive = false; M root; std::vector<std::pair<std::string,int>> path; };
static M * at( W & w, size_t n ) { M * m = &w.root; for ( size_t k=0;k<n && k<w.path.size();++k ) { if ( w.path[k].second >= 0 ) m = &m->v[w.path[k].second]; else for ( auto & e : m->m ) if ( e.first == w.path[k].first ) { m = &e.second; break; } } return m; }
static M * top( W & w ) { return at( w, w.path.size() ); }
static char const * ID[2] = { "a", "bcd" }, * KEY[2] = { "x", "yy" };
extern "C" int harness_main() {
  long live0 = sym_live(); 
  { W w[2]; int act = -1;
  for ( int s=0;s<STEPS;++s ) {
    int op = s == 0 ? 2*sym_choose( 3, "op" ) : sym_choose( 12, "op" ); int rc = 0; bool ok = true, was = act >= 0; 
    M * m = was ? top( w[act] ) : nullptr;
    if ( op == 4 && s == 0 ) { // start three levels deep
      rc = GC_new( ID[0] ) + GC_set_map() + GC_push_map_position( KEY[0] ) + GC_set_vector( 2 ) + GC_push_vector_position( 1 ) + GC_set_map() + GC_push_map_position( KEY[1] );
      act = 0; w[0] = W(); w[0].alive = true; M & r = w[0].root; r.t = T::MAP; r.m.push_back( { KEY[0], M() } ); M & v = r.m[0].second; v.t = T::VECTOR; v.v.resize( 2 ); v.v[1].t = T::MAP; v.v[1].m.push_back( { KEY[1], M() } );
      w[0].path = { { KEY[0], -1 }, { "", 1 }, { KEY[1], -1 } }; sym_cover( "start" );
    } else switch ( op ) {
    case 0: case 1: act = op; if ( !w[op].alive ) { w[op] = W(); w[op].alive = true; } rc = sym_choose( 2, "new" ) ? GC_new( ID[op] ) : GC_select( ID[op] ); break;
    case 2: case 3: { int k = s == 0 ? 0 : op - 2; rc = GC_delete( ID[k] ); w[k] = W(); if ( act == k ) act = -1; sym_cover( "deleted" ); } break;
    case 4: case 5: { rc = GC_push_map_position( KEY[op-4] ); ok = m && m->t == T::MAP; if ( ok ) { bool f = false; for ( auto & e : m->m ) f = f || e.first == KEY[op-4]; if ( !f ) m->m.push_back( { KEY[op-4], M() } ); w[act].path.push_back( { KEY[op-4], -1 } ); sym_cover( "pushed" ); } } break;
    case 6: { int32_t p = sym<int32_t>( "pos" ); bool in = m && m->t == T::VECTOR && p >= 0 && p < int(m->v.size()); rc = GC_push_vector_position( p ); ok = in; if ( in ) { int c = sym_choose( int(m->v.size()), "position" ); sym_assume( p == c ); w[act].path.push_back( { "", c } ); sym_cover( "pushed" ); } else sym_cover( "refused" ); } break;
    case 7: rc = GC_pop_head(); ok = was && !w[act].path.empty(); if ( ok ) { w[act].path.pop_back(); sym_cover( "popped" ); } break;
    case 8: rc = GC_reset_head(); ok = was; if ( ok ) w[act].path.clear(); break;
    case 9: { int32_t x = sym<int32_t>( "x" ); rc = GC_set_int( x ); ok = was; if ( m ) { *m = M(); m->t = T::INTEGER; m->i = x; } } break;
    case 10: rc = GC_set_map(); ok = was; if ( m ) { *m = M(); m->t = T::MAP; } break;
    case 11: rc = GC_set_vector( 2 ); ok = was; if ( m ) { *m = M(); m->t = T::VECTOR; m->v.resize( 2 ); } break;
    }
    sym_assert( ( rc == 0 ) == ok, "a call reports an error exactly when there is nothing it can act on" );
    sym_assert( GC_get_type() == ( act < 0 ? -1 : int( top( w[act] )->t ) ), "the current element is the one reached by the moves so far" );
    if ( act >= 0 && w[act].path.size() > 1 ) sym_cover( "deep" );
  }
  if ( act >= 0 && sym_choose( 2, "finish" ) ) { // the current element is really the one reached by the moves
    M & m = *top( w[act] ); sym_assert( GC_set_int( 77 ) == 0, "a value can be stored" ); m = M(); m.t = T::INTEGER; m.i = 77; }
  else if ( act >= 0 ) { M & m = *top( w[act] ); // the keys of the current map, while entries are added
    int r = GC_init_map_key(); sym_assert( ( r == 0 ) == ( m.t == T::MAP ), "keys can be listed exactly at a map" );
    if ( r == 0 ) { sym_cover( "keys" ); size_t n = m.m.size(); for ( size_t q=0;q<n;++q ) { char const * k = GC_get_next_key(); bool f = false; if ( k ) for ( auto & e : m.m ) f = f || e.first == k; sym_assert( k && f, "every key of the map is listed" ); if ( !k ) break; sym_assert( GC_push_map_position( k ) == 0 && GC_set_int( 5 ) == 0 && GC_pop_head() == 0, "the entry of a listed key can be visited" ); for ( auto & e : m.m ) if ( e.first == k ) { e.second = M(); e.second.t = T::INTEGER; e.second.i = 5; } }
      sym_assert( GC_get_next_key() == nullptr, "the list of the keys ends" ); } }
  for ( int k=0;k<2;++k ) if ( w[k].alive ) { void * p = GC_mem_ptr( ID[k] ); same( *static_cast<G*>( p ), w[k].root, "each container holds what was stored at its positions" ); }
  GC_delete( ID[0] ); GC_delete( ID[1] ); sym_assert( GC_get_type() == -1, "a deleted container is no longer selected" ); }
  sym_assert( sym_live() == live0, "deleted containers are released" );
  return 0;
}
