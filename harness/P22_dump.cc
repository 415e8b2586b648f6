//@ modules: core
//@ split: 32
//@ bounds: every type (vectors 0..2, thorough 0..3, and 9, 34 elements of which three are symbolic; matrices; strings of 0, 1 and 3 arbitrary bytes and of 40 and 300 bytes), 8 nested shapes (every type as element and entry, 6 and 24 levels deep), containers that hold pointers before numbers, maps with formatted keys (12 concrete forms, one of them with an arbitrary byte) over a number, vectors and maps; all bits of numbers symbolic; number text is an opaque injective function of value, base and precision; streams with default and other precision, with and without prefix and indentation; dump, print_content_types, info
//@ quick: -DNB=3 -DBIGS=9,34 time=80 steps=60000000
//@ thorough: -DNB=4 -DBIGS=9,34,270 time=700 steps=60000000
//@ covers: dump types info formatted pointers
//@ stubs: the digits of a printed number are an uninterpreted injective token (value, base, precision)
#include "jsontext.hh"
static char const * DUMP = "the dump shows every value at its place";
struct Dump {
  std::string const & t; size_t p = 0; std::ostringstream const & fmt; std::string pre, ind; char const * msg = DUMP;
  Dump( std::string const & tt, std::ostringstream const & f, std::string const & a, std::string const & b ) : t(tt), fmt(f), pre(a), ind(b) {}
  void lit( std::string const & e ) { if ( p+e.size() > t.size() ) { sym_assert( 0, msg ); sym_skip(); } int k = sym_eq( t.data()+p, e.data(), e.size() ); sym_assert( k, msg ); p += e.size(); }
  bool at( char c ) { return p < t.size() && t[p] == c; }
  void opt( char c ) { if ( at( c ) ) ++p; }
  void sp() { while ( at( ' ' ) || at( '>' ) || at( '.' ) ) ++p; }
  void line( int d ) { if ( d < 0 ) return; std::string s = pre; while ( d-- > 0 ) s += ind; lit( s ); }
  template <class V> std::string text( V v ) { std::ostringstream o; o.flags( fmt.flags() ); o.precision( fmt.precision() ); o << v; return o.str(); }
  static std::string dec( size_t k ) { return std::to_string( k ); }
  static std::string ptr( void * x ) { std::ostringstream o; o << std::hex << std::showbase << reinterpret_cast<uintptr_t>( x ); return o.str(); }
  std::string cplx( C const & c ) { return JsonText::ctext( c.real(), c.imag() ); }
  template <class F> void vec( size_t n, F f, int d ) { line( d ); lit( "[" ); for ( size_t k=0;k<n;++k ) { lit( " " ); lit( f( k ) ); } lit( " ]\n" ); }
  template <class F> void mat( M const & m, F f ) { if ( m.nr == 0 || m.nc == 0 ) { sp(); lit( dec( m.nr ) + " by " + dec( m.nc ) + " matrix\n" ); return; }
    for ( unsigned i=0;i<m.nr;++i ) { for ( unsigned j=0;j<m.nc;++j ) { sp(); lit( f( i+j*m.nr ) ); } lit( "\n" ); } }
  static std::string b2s( bool b ) { if ( b ) return "true"; return "false"; }
  // text of the header of a formatted key  <blanks><digits><blanks>#[#][-=~_]<blanks>header
  static bool fkey( std::string const & k, std::string & h, bool & two, char & ul ) {
    size_t q = 0; auto b = [&]{ while ( q < k.size() && ( k[q] == ' ' || ( k[q] >= 9 && k[q] <= 13 ) ) ) ++q; };
    b(); size_t d = q; while ( q < k.size() && k[q] >= '0' && k[q] <= '9' ) ++q; if ( q == d ) return false; b(); if ( q >= k.size() || k[q] != '#' ) return false; ++q; two = q < k.size() && k[q] == '#'; if ( two ) ++q;
    ul = 0; if ( q < k.size() && ( k[q] == '-' || k[q] == '=' || k[q] == '~' || k[q] == '_' ) ) ul = k[q++]; size_t q0 = q; b(); for ( size_t z=q;z<k.size();++z ) if ( k[z] == '\n' || k[z] == '\r' ) return false; (void)q0; h = k.substr( q ); return true; }
  void val( M const & m, int d ) { // d < 0: on the line of its key
    switch ( m.t ) {
    case T::NOTYPE: line( d ); lit( "null\n" ); break;
    case T::POINTER: line( d ); lit( ptr( m.p ) ); lit( "\n" ); break;
    case T::BOOL: line( d ); lit( b2s( m.b ) ); lit( "\n" ); break;
    case T::INTEGER: line( d ); lit( text( m.i ) ); lit( "\n" ); break;
    case T::LONG: line( d ); lit( text( m.l ) ); lit( "\n" ); break;
    case T::REAL: line( d ); lit( text( m.r ) ); lit( "\n" ); break;
    case T::COMPLEX: line( d ); lit( cplx( C(m.r,m.im) ) ); lit( "\n" ); break;
    case T::STRING: line( d ); lit( "\"" ); lit( m.s ); lit( "\"\n" ); break;
    case T::VEC_POINTER: for ( size_t k=0;k<m.vp.size();++k ) { line( d ); lit( "vec_pointer(" + dec( k ) + "): " ); lit( ptr( m.vp[k] ) ); lit( "\n" ); } break;
    case T::VEC_BOOL: vec( m.vb.size(), [&]( size_t k ){ return b2s( m.vb[k] != 0 ); }, d ); break;
    case T::VEC_INTEGER: vec( m.vi.size(), [&]( size_t k ){ return text( m.vi[k] ); }, d ); break;
    case T::VEC_LONG: vec( m.vl.size(), [&]( size_t k ){ return text( m.vl[k] ); }, d ); break;
    case T::VEC_REAL: vec( m.vr.size(), [&]( size_t k ){ return text( m.vr[k] ); }, d ); break;
    case T::VEC_COMPLEX: vec( m.vc.size(), [&]( size_t k ){ return cplx( m.vc[k] ); }, d ); break;
    case T::VEC_STRING: for ( size_t k=0;k<m.vs.size();++k ) { line( d ); lit( dec( k ) + ": \"" ); lit( m.vs[k] ); lit( "\"\n" ); } break;
    case T::MAT_INTEGER: mat( m, [&]( size_t k ){ return text( m.vi[k] ); } ); break;
    case T::MAT_LONG: mat( m, [&]( size_t k ){ return text( m.vl[k] ); } ); break;
    case T::MAT_REAL: mat( m, [&]( size_t k ){ return text( m.vr[k] ); } ); break;
    case T::MAT_COMPLEX: mat( m, [&]( size_t k ){ return cplx( m.vc[k] ); } ); break;
    case T::VECTOR: for ( size_t k=0;k<m.v.size();++k ) { line( d ); lit( dec( k ) + ":" ); if ( at( ' ' ) ) { ++p; val( m.v[k], -1 ); } else { lit( "\n" ); val( m.v[k], d+1 ); } } break;
    case T::MAP: { std::map<std::string,M const *> s; for ( auto const & e : m.m ) s[e.first] = &e.second; // in the order of the keys
      for ( auto const & e : s ) { std::string h = e.first; bool two = false; char ul = 0; if ( fkey( e.first, h, two, ul ) ) sym_cover( "formatted" ); if ( two ) opt( '\n' );
        line( d ); lit( h ); if ( ul && at( '\n' ) ) { ++p; line( d ); lit( std::string( h.size(), ul ) ); lit( "\n" ); val( *e.second, d+1 ); } else { lit( ":" ); if ( at( ' ' ) ) { ++p; val( *e.second, -1 ); } else { lit( "\n" ); val( *e.second, d+1 ); } } } } break;
    }
  }
  void types( M const & m, int d ) {
    static char const * N[] = { "Empty!", "(*void)", "bool", "int", "long int", "double", "complex", "string", "vector of pointer", "vector of bool", "vector of int", "vector of long", "vector of double", "vector of complex", "vector of string", "matrix of int", "matrix of long", "matrix of double", "matrix of complex" };
    if ( m.t <= T::STRING ) { line( d ); lit( N[int(m.t)] ); lit( "\n" ); }
    else if ( isVec( m.t ) ) { size_t n = m.t == T::VEC_POINTER ? m.vp.size() : m.t == T::VEC_BOOL ? m.vb.size() : m.t == T::VEC_INTEGER ? m.vi.size() : m.t == T::VEC_LONG ? m.vl.size() : m.t == T::VEC_REAL ? m.vr.size() : m.t == T::VEC_COMPLEX ? m.vc.size() : m.vs.size(); sp(); lit( N[int(m.t)] ); lit( "[" + dec( n ) + "]\n" ); }
    else if ( isMat( m.t ) ) { sp(); lit( N[int(m.t)] ); lit( "[" + dec( m.nr ) + "," + dec( m.nc ) + "]\n" ); }
    else if ( m.t == T::VECTOR ) for ( size_t k=0;k<m.v.size();++k ) { line( d ); lit( dec( k ) + ":" ); if ( at( ' ' ) ) { ++p; types( m.v[k], -1 ); } else { lit( "\n" ); types( m.v[k], d+1 ); } }
    else { std::map<std::string,M const *> s; for ( auto const & e : m.m ) s[e.first] = &e.second;
      for ( auto const & e : s ) { std::string h = e.first; bool two = false; char ul = 0; fkey( e.first, h, two, ul ); if ( two ) opt( '\n' );
        line( d ); lit( h ); if ( ul && at( '\n' ) ) { ++p; line( d ); lit( std::string( h.size(), ul ) ); lit( "\n" ); types( *e.second, d+1 ); } else { lit( ":" ); if ( at( ' ' ) ) { ++p; types( *e.second, -1 ); } else { lit( "\n" ); types( *e.second, d+1 ); } } } }
  }
};
extern "C" int harness_main() {
  int k = sym_choose( NKINDS+3, "kind" ); M m;
  if ( k < 21 ) { T t = static_cast<T>( k ); unsigned n = 0, n2 = 2; if ( t == T::STRING ) { static unsigned const SL[] = { 0, 1, 2, 40, 300 }; n = SL[sym_choose( 5, "n" )]; } else if ( isVec( t ) || isMat( t ) || t == T::VECTOR || t == T::MAP ) n = pick( NB, "n" ); if ( isMat( t ) ) n2 = pick2( n, NB, "n2" ); m = make( t, n, n2, 0 ); }
  else if ( k < NKINDS ) { if ( k >= 27 ) live() = unsigned( sym_choose( 5, "live" ) ); m = makeDeep( unsigned(k-21) ); }
  else if ( k == NKINDS ) { m.t = T::VECTOR; m.v.push_back( make( T::POINTER, 1 ) ); m.v.push_back( make( T::INTEGER, 1 ) ); m.v.push_back( make( T::VEC_POINTER, 12 ) ); m.v.push_back( make( T::LONG, 1 ) ); for ( int q=0;q<8;++q ) { Conc z( true ); m.v.push_back( make( T::VEC_LONG, 2 ) ); } sym_cover( "pointers" ); }
  else { static char const * const K[] = { "1#name", "2##Title", "33 #- x", "4##= A b", " 5 # ~n", "6#_", "7", "8##", "9 a#b", "#x", "1#a#b", "1 #-#" };
    int q = sym_choose( 13, "key" ); std::string key = q < 12 ? std::string( K[q] ) : "1#"; if ( q == 12 ) { std::string z = sstr( 1, "keybyte" ); key = "1#" + z + "z"; }
    static T const V[] = { T::INTEGER, T::VEC_REAL, T::MAP, T::VECTOR, T::MAT_REAL }; M e = make( V[sym_choose( 5, "value" )], 2 ); m.t = T::MAP; m.m.push_back( { key, e } ); if ( k == NKINDS+2 ) { m.m.push_back( { "99 plain", make( T::BOOL, 1 ) } ); } }
  int how = sym_choose( 3, "how" );
  G g; build( m, g ); if ( m.t == T::MAP && m.m.empty() ) g.set_map(); G const & cg = g;
  std::ostringstream ref, o; std::string pre, ind = "    ";
  if ( how == 1 ) { o.precision( 15 ); ref.precision( 15 ); pre = "> "; ind = ". "; cg.dump( o, pre, ind ); } else if ( how == 0 ) cg.dump( o ); else cg.print_content_types( o );
  sym_assert( o.flags() == ref.flags() && o.precision() == ref.precision() && o.good(), "printing leaves the formatting of the stream" );
  std::string t = o.str(); Dump j( t, ref, pre, ind );
  if ( how == 2 ) { j.msg = "the listing shows the type and size of every element"; j.types( m, 0 ); sym_cover( "types" ); } else { j.val( m, 0 ); sym_cover( "dump" ); }
  sym_assert( j.p == t.size(), "nothing else is printed" );
  if ( how == 2 && k < 21 ) { std::ostringstream i; cg.info( i ); std::string u = i.str(); Dump x( u, ref, "", "" ); x.msg = "the summary shows the value or the size"; sym_cover( "info" );
    T ty = m.t; if ( ty == T::STRING ) { x.lit( "String: " ); x.lit( m.s ); } else if ( ty == T::INTEGER ) { x.lit( "Integer: " ); x.lit( x.text( m.i ) ); } else if ( ty == T::LONG ) { x.lit( "Long: " ); x.lit( x.text( m.l ) ); } else if ( ty == T::REAL ) { x.lit( "Floating Point: " ); x.lit( x.text( m.r ) ); } else if ( ty == T::BOOL ) { x.lit( "Boolean: " ); x.lit( Dump::b2s( m.b ) ); } else if ( ty == T::COMPLEX ) { x.lit( "Complex Floating Point: " ); x.lit( x.cplx( C(m.r,m.im) ) ); }
    else if ( isVec( ty ) || ty == T::VECTOR || isMat( ty ) ) { size_t w = u.find( " of size " ); sym_assert( w != std::string::npos, x.msg ); if ( w == std::string::npos ) return 0; x.p = w+9; if ( isMat( ty ) ) x.lit( Dump::dec( m.nr ) + " x " + Dump::dec( m.nc ) ); else x.lit( Dump::dec( g.get_num_elements() ) ); } else return 0;
    x.lit( "\n" ); sym_assert( x.p == u.size(), x.msg ); sym_assert( i.flags() == ref.flags() && i.precision() == ref.precision(), "printing leaves the formatting of the stream" ); }
  same( g, m, "printing does not change the container" );
  return 0;
}
