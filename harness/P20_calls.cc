//@ modules: core
//@ split: 64
//@ bounds: one call of each of the 50 storing and reading functions of the C interface, every argument symbolic (any 32-bit position and length; arrays of 0..2 (thorough 0..3) elements and of 40, three of them symbolic, C strings of up to 2 bytes), at the root of a container or inside a vector or a map with siblings, on current content of all 21 types with 0..2 elements (all bits symbolic)
//@ quick: -DNB=3 time=80
//@ thorough: -DNB=4 time=700
//@ covers: set read readat coor push bulk negative out mismatch nosel
#include "num.hh"
#include "GenericContainer/GenericContainerInterface_C.h"
static std::string cstr( char const * n ) { static char b[8][4]; static int k = 0; char * p = b[k++ % 8]; sym_bytes( p, 2, n ); p[2] = 0; return p; }
static bool isBool( int r, bool b ) { return r == ( b ? 1 : 0 ); }
enum { SB, SI, SR, SC, SC2, SS, SEB, SEI, SER, SEC, SES, SEV, SV, SM, SVB, SVI, SVR, SVC, SVS, PB, PI, PR, PC, PC2, PS,
       GB, GI, GL, GR, GCX, GCR, GCI, GS, AB, AI, AR, AC, ACR, ACI, AS, CR, CC, CCR, CCI, TY, TN, NE, NR, NC, IK, NOPS };
static M elem( M const & m, int p ) { M s; size_t k = size_t(p);
  switch ( m.t ) { case T::VEC_BOOL: s.t = T::BOOL; s.b = m.vb[k]; break; case T::VEC_INTEGER: case T::MAT_INTEGER: s.t = T::INTEGER; s.i = m.vi[k]; break; case T::VEC_LONG: case T::MAT_LONG: s.t = T::LONG; s.l = m.vl[k]; break;
    case T::VEC_REAL: case T::MAT_REAL: s.t = T::REAL; s.r = m.vr[k]; break; case T::VEC_COMPLEX: case T::MAT_COMPLEX: s.t = T::COMPLEX; s.r = m.vc[k].real(); s.im = m.vc[k].imag(); break; case T::VECTOR: return m.v[k]; case T::VEC_STRING: case T::VEC_POINTER: case T::MAP: break; default: return m; } return s; }
// what a reading function may give for the element q: the neutral value, or exactly the number
static bool okI( int r, M const & q ) { if ( r == 0 ) return true; switch ( q.t ) { case T::BOOL: return isBool( r, q.b ); case T::INTEGER: return r == q.i; case T::LONG: return r == q.l; case T::REAL: return double(r) == q.r; case T::COMPLEX: return double(r) == q.r && q.im == 0; default: return false; } }
static bool okB( int r, M const & q ) { if ( r == 0 ) return true; if ( r != 1 ) return false; switch ( q.t ) { case T::BOOL: return q.b; case T::INTEGER: return q.i != 0; case T::LONG: return q.l != 0; default: return false; } }
static bool okD( double u, double v, bool wantReal, M const & q ) { if ( u == 0 && v == 0 ) return true; switch ( q.t ) { case T::BOOL: return v == 0 && u == 1 && q.b; case T::INTEGER: return v == 0 && u == q.i; case T::LONG: return v == 0 && u == double( q.l ); case T::REAL: return v == 0 && deq( u, q.r );
  case T::COMPLEX: return wantReal ? deq( u, q.r ) && q.im == 0 : ( ( u == 0 && v != 0 ) || deq( u, q.r ) ) && ( v == 0 || deq( v, q.im ) ); default: return false; } }
extern "C" int harness_main() {
  int op = sym_choose( NOPS, "op" ), where = sym_choose( 3, "where" ); T t = anyType( "type" ); unsigned n = unsigned( sym_choose( NB, "n" ) );
  if ( ( isScalar(t) || t == T::NOTYPE ) && n != 1 ) sym_skip();
  if ( op < PB && n > 1 ) sym_skip();                // the previous content does not matter
  if ( where && op >= SEB && op != SV && ( op < PB ? n != 1 : n != 2 && !isScalar(t) && t != T::NOTYPE ) ) sym_skip();
  M m = make( t, n, n ? 2 : 0 );
  if ( t == T::VECTOR && n && op >= AB && op <= AS ) m.v[0] = make( T( int(T::BOOL) + sym_choose( 6, "element" ) ), 1 );
  M root; root.t = where == 1 ? T::VECTOR : T::MAP; M sib = make( T::INTEGER, 1 ); 
  if ( where == 1 ) { root.v.push_back( sib ); root.v.push_back( m ); root.v.push_back( sib ); } else if ( where == 2 ) { root.m.push_back( { "k", m } ); root.m.push_back( { "kk", sib } ); } else root = m;
  sym_assert( GC_get_type() == -1 && GC_set_int( 1 ) != 0 && GC_get_int() == 0 && GC_pop_head() != 0 && GC_get_next_key() == nullptr && GC_get_string() == nullptr, "with no container selected every call reports it" ); sym_cover( "nosel" );
  sym_assert( GC_new( "other" ) == 0 && GC_set_int( 4711 ) == 0 && GC_new( "id" ) == 0 && GC_get_type() == 0, "a new container is empty and selected" );
  G & g = *static_cast<G*>( GC_mem_ptr( "id" ) ); build( root, g ); if ( m.t == T::MAP && m.m.empty() ) { if ( where == 0 ) g.set_map(); else if ( where == 1 ) g[1u].set_map(); else g["k"].set_map(); }
  if ( where == 1 ) sym_assert( GC_push_vector_position( 1 ) == 0, "an element can be selected" ); if ( where == 2 ) sym_assert( GC_push_map_position( "k" ) == 0, "an entry can be selected" );
  M e = m; bool chk = true; int rc = 0, want = 0;
  int nel = 0; int32_t ia[40]; double da[40], db[40]; std::string ss[40]; char const * sp[40];
  if ( op >= SVB && op <= SVS || op == SV ) { int k = sym_choose( NB+2, "nelem" ); if ( k == NB ) { nel = sym<int32_t>( "negative" ); sym_assume( nel < 0 ); sym_cover( "negative" ); want = 1; } else nel = k > NB ? 40 : k; sym_cover( "bulk" );
    for ( int q=0;q<40 && op != SV;++q ) { if ( nel >= 0 && q >= nel ) break; if ( op <= SVI ) ia[q] = ev<int32_t>( "a", unsigned(q), unsigned(nel) ); else if ( op <= SVC ) { da[q] = ev<double>( "x", unsigned(q), unsigned(nel) ); db[q] = ev<double>( "y", unsigned(q), unsigned(nel) ); } else { if ( nel < 5 || at3( unsigned(q), unsigned(nel) ) ) ss[q] = cstr( "s" ); else ss[q] = std::string( size_t(q), 'z' ); sp[q] = ss[q].c_str(); } if ( nel < 0 ) break; } }
  int32_t a = op == SB || op == SI || op == PB || op == PI ? sym<int32_t>( "arg" ) : 0;
  double x = 0, y = 0; if ( op == SR || op == PR || op == SC || op == PC || op == SC2 || op == PC2 ) { x = sym<double>( "x" ); y = sym<double>( "y" ); }
  c_complex_type cx; cx.real = x; cx.imag = y; std::string s; if ( op == SS || op == PS ) s = cstr( "s" );
  auto set = [&]( T tt ) { e = M(); e.t = tt; sym_cover( "set" ); };
  G clone; bool pushed = op >= PB && op <= PS; if ( pushed ) { clone.load( where == 0 ? g : where == 1 ? g[1u] : g["k"] ); sym_cover( "push" ); }
  // positions: any 32-bit value; the accesses themselves only see the ones in range
  int pos = 0, row = 0, colm = 0; int ne = int( isScalar(t) ? 1 : t == T::VECTOR ? m.v.size() : t == T::MAP ? m.m.size() : t == T::NOTYPE ? 0 : isMat(t) ? m.nr*m.nc : n );
  bool in = false;
  if ( op >= AB && op <= AS ) { pos = sym<int32_t>( "pos" ); in = pos >= 0 && pos < ne; if ( in ) { int c = sym_choose( ne, "position" ); sym_assume( pos == c ); pos = c; } else sym_cover( "out" ); sym_cover( "readat" ); }
  if ( op >= CR && op <= CCI ) { row = sym<int32_t>( "row" ); colm = sym<int32_t>( "col" ); in = isMat(t) && row >= 0 && row < int(m.nr) && colm >= 0 && colm < int(m.nc); if ( in ) { int c = sym_choose( int(m.nr*m.nc), "position" ); sym_assume( row == c % int(m.nr) && colm == c / int(m.nr) ); pos = c; } else sym_cover( "out" ); sym_cover( "coor" ); }
  bool thrown = false; bool good = true;
  char const * NEUTRAL = "reading content of another type, or a position that is not there, gives a neutral value (or exactly the stored number)"; M const none; M self; if ( isScalar(t) ) self = m;
  char const * EXACT = "a reading function gives the stored value";
  try {
  switch ( op ) {
  case SB: set( T::BOOL ); e.b = a != 0; rc = GC_set_bool( a ); break;
  case SI: set( T::INTEGER ); e.i = a; rc = GC_set_int( a ); break;
  case SR: set( T::REAL ); e.r = x; rc = GC_set_real( x ); break;
  case SC: set( T::COMPLEX ); e.r = x; e.im = y; rc = GC_set_complex( &cx ); break;
  case SC2: set( T::COMPLEX ); e.r = x; e.im = y; rc = GC_set_complex2( x, y ); break;
  case SS: set( T::STRING ); e.s = s; rc = GC_set_string( s.c_str() ); break;
  case SEB: set( T::VEC_BOOL ); rc = GC_set_empty_vector_of_bool(); break;
  case SEI: set( T::VEC_INTEGER ); rc = GC_set_empty_vector_of_int(); break;
  case SER: set( T::VEC_REAL ); rc = GC_set_empty_vector_of_real(); break;
  case SEC: set( T::VEC_COMPLEX ); rc = GC_set_empty_vector_of_complex(); break;
  case SES: set( T::VEC_STRING ); rc = GC_set_empty_vector_of_string(); break;
  case SEV: set( T::VECTOR ); rc = GC_set_empty_vector(); break;
  case SM: set( T::MAP ); rc = GC_set_map(); break;
  case SV: if ( nel >= 0 ) { set( T::VECTOR ); e.v.resize( size_t(nel) ); } rc = GC_set_vector( nel ); break;
  case SVB: if ( nel >= 0 ) { set( T::VEC_BOOL ); for ( int q=0;q<nel;++q ) e.vb.push_back( ia[q] != 0 ); } rc = GC_set_vector_of_bool( ia, nel ); break;
  case SVI: if ( nel >= 0 ) { set( T::VEC_INTEGER ); for ( int q=0;q<nel;++q ) e.vi.push_back( ia[q] ); } rc = GC_set_vector_of_int( ia, nel ); break;
  case SVR: if ( nel >= 0 ) { set( T::VEC_REAL ); for ( int q=0;q<nel;++q ) e.vr.push_back( da[q] ); } rc = GC_set_vector_of_real( da, nel ); break;
  case SVC: if ( nel >= 0 ) { set( T::VEC_COMPLEX ); for ( int q=0;q<nel;++q ) e.vc.push_back( C(da[q],db[q]) ); } rc = GC_set_vector_of_complex( da, db, nel ); break;
  case SVS: if ( nel >= 0 ) { set( T::VEC_STRING ); for ( int q=0;q<nel;++q ) e.vs.push_back( ss[q] ); } rc = GC_set_vector_of_string( sp, nel ); break;
#define PUSH(C1,C2) rc = C1; chk = false; want = throws( [&]{ C2; } ); break;
  case PB: PUSH( GC_push_bool( a ), clone.push_bool( a != 0 ) )
  case PI: PUSH( GC_push_int( a ), clone.push_int( a ) )
  case PR: PUSH( GC_push_real( x ), clone.push_real( x ) )
  case PC: PUSH( GC_push_complex( &cx ), clone.push_complex( x, y ) )
  case PC2: PUSH( GC_push_complex2( x, y ), clone.push_complex( x, y ) )
  case PS: PUSH( GC_push_string( s.c_str() ), clone.push_string( s ) )
#define READ(TT,C1,C2) if ( t == TT ) { sym_cover( "read" ); sym_assert( C1, EXACT ); } else { sym_cover( "mismatch" ); sym_assert( C2, NEUTRAL ); } break;
  case GB: { int r = GC_get_bool(); READ( T::BOOL, isBool( r, m.b ), okB( r, self ) ) }
  case GI: { int r = GC_get_int(); READ( T::INTEGER, r == m.i, okI( r, self ) ) }
  case GL: { long r = GC_get_long(); READ( T::LONG, r == m.l, r == 0 || okI( int(r), self ) && r == int(r) ) }
  case GR: { double r = GC_get_real(); READ( T::REAL, deq( r, m.r ), okD( r, 0, true, self ) ) }
  case GCX: { c_complex_type r = GC_get_complex(); READ( T::COMPLEX, deq( r.real, m.r ) && deq( r.imag, m.im ), okD( r.real, r.imag, false, self ) ) }
  case GCR: { double r = GC_get_complex_re(); READ( T::COMPLEX, deq( r, m.r ), okD( r, 0, false, self ) ) }
  case GCI: { double r = GC_get_complex_im(); READ( T::COMPLEX, deq( r, m.im ), r == 0 ) }
  case GS: { char const * r = GC_get_string(); if ( t == T::STRING ) sym_assert( r != nullptr && sym_eq( r, m.s.data(), m.s.size() ) && r[m.s.size()] == 0, EXACT ); else sym_assert( r == nullptr, "reading a string from other content gives no string" ); } break;
  case AB: { int r = GC_get_bool_at_pos( pos ); if ( in && t == T::VEC_BOOL ) sym_assert( isBool( r, m.vb[pos] ), EXACT ); if ( in && t == T::VECTOR && m.v[pos].t == T::BOOL ) sym_assert( isBool( r, m.v[pos].b ), EXACT ); sym_assert( okB( r, in ? elem( m, pos ) : none ), NEUTRAL ); } break;
  case AI: { int r = GC_get_int_at_pos( pos ); if ( in && t == T::VEC_INTEGER ) sym_assert( r == m.vi[pos], EXACT ); if ( in && t == T::VEC_BOOL ) sym_assert( isBool( r, m.vb[pos] ), EXACT ); if ( in && t == T::VECTOR && m.v[pos].t == T::INTEGER ) sym_assert( r == m.v[pos].i, EXACT ); sym_assert( okI( r, in ? elem( m, pos ) : none ), NEUTRAL ); } break;
  case AR: case AC: case ACR: case ACI: case CR: case CC: case CCR: case CCI: { double u = 0, v = 0; bool single = true;
      switch ( op ) { case AR: u = GC_get_real_at_pos( pos ); break; case ACR: u = GC_get_complex_real_at_pos( pos ); break; case ACI: v = GC_get_complex_imag_at_pos( pos ); break; case CR: u = GC_get_real_at_coor( row, colm ); break; case CCR: u = GC_get_complex_real_at_coor( row, colm ); break; case CCI: v = GC_get_complex_imag_at_coor( row, colm ); break;
        case AC: { c_complex_type r = GC_get_complex_at_pos( pos ); u = r.real; v = r.imag; single = false; } break; default: { c_complex_type r = GC_get_complex_at_coor( row, colm ); u = r.real; v = r.imag; single = false; } break; }
      bool re = op == AR || op == CR, im = op == ACI || op == CCI; if ( in ) sym_assert( okD( u, v, re, elem( m, pos ) ), NEUTRAL ); else if ( op < CR || isMat(t) ) sym_assert( u == 0 && v == 0, NEUTRAL ); if ( !in ) break; double wu = 0, wv = 0; bool known = true;
      M const & q = t == T::VECTOR ? m.v[pos] : m;
      if ( t == T::VEC_BOOL ) wu = m.vb[pos] ? 1 : 0; else if ( t == T::VEC_INTEGER || t == T::MAT_INTEGER ) wu = m.vi[pos]; else if ( t == T::VEC_LONG || t == T::MAT_LONG ) wu = double( m.vl[pos] ); else if ( t == T::VEC_REAL || t == T::MAT_REAL ) wu = m.vr[pos];
      else if ( ( t == T::VEC_COMPLEX || t == T::MAT_COMPLEX ) && !re ) { wu = m.vc[pos].real(); wv = m.vc[pos].imag(); } else if ( t == T::VECTOR && q.t == T::INTEGER ) wu = q.i; else if ( t == T::VECTOR && q.t == T::COMPLEX && !re ) { wu = q.r; wv = q.im; } else known = false;
      if ( !known ) break; if ( single ) sym_assert( im ? deq( v, wv ) : deq( u, wu ), EXACT ); else sym_assert( deq( u, wu ) && deq( v, wv ), EXACT ); } break;
  case AS: { char const * r = GC_get_string_at_pos( pos ); std::string const * q = in && t == T::VEC_STRING ? &m.vs[pos] : in && t == T::VECTOR && m.v[pos].t == T::STRING ? &m.v[pos].s : nullptr;
      if ( q ) sym_assert( r != nullptr && sym_eq( r, q->data(), q->size() ) && r[q->size()] == 0, EXACT ); else sym_assert( r == nullptr, "reading a string that is not there gives no string" ); } break;
  case TY: sym_assert( GC_get_type() == int(t), "the type is the stored one" ); break;
  case TN: { char const * r = GC_get_type_name(); sym_assert( r != nullptr && string_view( r ) == to_string( t ), "the name of the type is the stored one" ); } break;
  case NE: sym_assert( GC_get_vector_size() == ne, "the number of elements is the stored one" ); break;
  case NR: { int r = GC_get_matrix_num_rows(); if ( isMat(t) ) sym_assert( r == int(m.nr), "the number of rows is the stored one" ); } break;
  case NC: { int r = GC_get_matrix_num_cols(); if ( isMat(t) ) sym_assert( r == int(m.nc), "the number of columns is the stored one" ); } break;
  case IK: { int r = GC_init_map_key(); sym_assert( ( r == 0 ) == ( t == T::MAP ), "the keys can be listed exactly for a map" ); if ( r ) { sym_assert( GC_get_next_key() == nullptr, "there are no keys" ); break; }
      std::vector<bool> seen( m.m.size() ); for ( size_t q=0;q<m.m.size();++q ) { char const * k = GC_get_next_key(); sym_assert( k != nullptr, "every key is listed once" ); if ( !k ) break; bool f = false; for ( size_t z=0;z<m.m.size();++z ) if ( m.m[z].first == k ) { f = !seen[z]; seen[z] = true; } sym_assert( f, "every key is listed once" ); }
      sym_assert( GC_get_next_key() == nullptr && GC_get_next_key() == nullptr, "the end of the keys is reported" ); } break;
  }
  } catch ( ... ) { thrown = true; }
  sym_assert( !thrown, "no exception reaches the C code" );
  sym_assert( ( rc != 0 ) == ( want != 0 ), "a call reports an error exactly when it is refused" );
  G const & c = g; G const & cur = where == 0 ? c : where == 1 ? c( 1u, "" ) : c( "k", "" );
  if ( pushed ) { same( cur, readM( clone ), "a value is appended as by the C++ function" );
    // the common case, spelled out
    if ( op == PI && t == T::VEC_INTEGER ) { e.vi.push_back( a ); same( cur, e, "a pushed value is the new last element" ); } if ( op == PR && t == T::VEC_REAL ) { e.vr.push_back( x ); same( cur, e, "a pushed value is the new last element" ); } if ( op == PB && t == T::VEC_BOOL ) { e.vb.push_back( a != 0 ); same( cur, e, "a pushed value is the new last element" ); }
    if ( ( op == PC || op == PC2 ) && t == T::VEC_COMPLEX ) { e.vc.push_back( C(x,y) ); same( cur, e, "a pushed value is the new last element" ); } if ( op == PS && t == T::VEC_STRING ) { e.vs.push_back( s ); same( cur, e, "a pushed value is the new last element" ); } }
  if ( where == 1 ) { sym_assert( c.get_type() == T::VECTOR && c.get_num_elements() == 3, "the other elements are untouched" ); same( c( 0u, "" ), sib, "the other elements are untouched" ); same( c( 2u, "" ), sib, "the other elements are untouched" ); }
  if ( where == 2 ) { sym_assert( c.get_type() == T::MAP && c.get_num_elements() == 2, "the other entries are untouched" ); same( c( "kk", "" ), sib, "the other entries are untouched" ); }
  if ( chk ) same( cur, e, op < PB ? "a storing function stores exactly its value at the current position" : "a reading function changes nothing" );
  sym_assert( GC_select( "other" ) == 0 && GC_get_type() == int( T::INTEGER ) && GC_get_int() == 4711, "other containers are untouched" );
  return 0;
}
