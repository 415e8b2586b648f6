//@ modules: core
//@ split: 29
//@ bounds: source: any of the 21 types (vectors 0..2, matrices 0..2 x 0..2, strings length 0,1,3,17) or 8 containers of containers (depth 3); destination: any of 25 prior contents; all leaf bits symbolic; then every leaf of one side is modified in place, or one side is cleared
//@ quick: -DNB=3 time=90
//@ thorough: -DNB=4 time=700
//@ covers: copied replaced self overlap
#include "gcm.hh"

static void copyBy( int how, G const & src, G & dst ) {
  switch ( how ) {
  case 0: dst = src; break;
  case 1: dst.from_gc( src ); break;
  case 2: src.to_gc( dst ); break;
  case 3: dst.load( src ); break;
  }
}
static void independent( G & a, G & b, M const & m ) {
  same( b, m, "a copy holds the same type and content as its source" );
  sym_cover( "copied" );
  switch ( sym_choose( 4, "mutate" ) ) {
  case 0: scramble( a ); same( b, m, "modifying the source does not change the copy" ); break;
  case 1: scramble( b ); same( a, m, "modifying the copy does not change the source" ); break;
  case 2: a.clear(); same( b, m, "clearing the source does not change the copy" ); break;
  case 3: b.clear(); same( a, m, "clearing the copy does not change the source" ); break;
  }
}

extern "C" int harness_main() {
  int kind = sym_choose( NKINDS, "kind" );
  unsigned n = sizedKind( kind ) ? pick( kind == 7 ? 4 : NB, "n" ) : 1;
  unsigned n2 = kind >= 15 && kind <= 18 ? pick2( n, NB, "n2" ) : 1;
  int scen = sym_choose( 6, "scenario" );
  long live0 = sym_live();
  {
    M m = anyM( kind, n, n2 );
    if ( scen == 0 ) { // overwrite an arbitrary prior content
      int pk = sym_choose( 25, "prior" );
      G src, dst; build( m, src ); M pm = anyM( pk, 2, 1 ); build( pm, dst );
      copyBy( sym_choose( 4, "how" ), src, dst );
      if ( pk ) sym_cover( "replaced" );
      same( src, m, "copying leaves the source unchanged" );
      same( dst, m, "copying over an existing content leaves exactly the source's content" );
      if ( pk == 0 || pk == kind ) independent( src, dst, m );
    } else if ( scen == 1 ) { // construction
      G src; build( m, src ); G dst( src ); same( src, m, "copying leaves the source unchanged" ); independent( src, dst, m );
    } else if ( scen == 2 ) { // self
      G g; build( m, g ); copyBy( sym_choose( 4, "how" ), g, g ); same( g, m, "self assignment keeps the content" ); sym_cover( "self" );
    } else if ( scen == 3 ) { // a part becomes the whole
      G g; int w = sym_choose( 2, "where" );
      build( m, w ? g["k"] : g[1u] );
      copyBy( sym_choose( 4, "how" ), w ? g("k") : g(1u), g );
      same( g, m, "assigning a container from one of its own parts yields that part" ); sym_cover( "overlap" );
    } else if ( scen == 4 ) { // the whole becomes a part
      G g; int w = sym_choose( 2, "where" );
      build( m, w ? g["k"] : g[0u] );
      int fresh = sym_choose( 2, "fresh" );
      G & d = w ? ( fresh ? g["z"] : g["k"] ) : ( fresh ? g[1u] : g[0u] );
      if ( kind == 0 || fresh || true ) {
        G snap( g ); copyBy( sym_choose( 4, "how" ), g, d );
        G const & part = w ? ( fresh ? g("z") : g("k") ) : ( fresh ? g(1u) : g(0u) );
        // the part now equals what the whole was before
        G const & inner = w ? part("k") : part(0u);
        same( inner, m, "assigning a container to one of its own parts copies the whole as it was" );
        CHECK( part.get_num_elements() == snap.get_num_elements() );
      }
    } else { // containers of containers through the std::vector / std::map members
      G g, src; build( m, src ); int w = sym_choose( 2, "where" );
      if ( w ) g.set_map()["k"] = src; else { auto & v = g.set_vector( 1 ); v[0] = src; v.push_back( src ); v.insert( v.begin(), src ); }
      src.clear();
      G h( g );
      if ( w ) same( h("k"), m, "a copied map entry holds the copied content" ); else for ( unsigned k=0;k<3;++k ) same( h(k), m, "copied vector entries hold the copied content" );
      scramble( g );
      if ( w ) same( h("k"), m, "modifying the original map entry does not change the copy" ); else for ( unsigned k=0;k<3;++k ) same( h(k), m, "modifying the original vector entries does not change the copy" );
    }
  }
  sym_assert( sym_live() == live0, "copying leaks nothing" );
  return 0;
}
