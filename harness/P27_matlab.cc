//@ modules: core matlab
//@ split: 60
//@ bounds: to MATLAB: every type and 8 nested shapes, vectors of 0 .. 3, 9 and 34 elements (three of the large ones arbitrary), matrices up to 3 x 2 and 34 x 2, all bits of every number, strings of 0, 1, 3 and 17 arbitrary bytes without zero bytes, each also through the conversion of the plain value; from MATLAB: real and complex arrays of the ten numeric classes, logical, char, cell, struct, sparse and string arrays of 11 shapes (up to 300 elements, three dimensions included), all bits of every number, nested three deep, into a container holding something else; there and back
//@ stubs: MATLAB's own library is replaced by a model of its matrix interface (harness/mex/mex.h: separate real and imaginary parts, 64-bit sizes)
//@ quick: -DNB=4 -DBIGS=9,34 time=90
//@ thorough: -DNB=6 -DBIGS=9,34,270 time=600
//@ covers: to plain empty back numeric complex logical char cell struct sparse string threed printed
#include "gcm.hh"
#include "GenericContainer/GenericContainerInterface_matlab.hh"
#include <iostream>

static void noZero( std::string const & s ) { for ( char c : s ) sym_assume( c != 0 ); }
static void noZero( M const & m ) { noZero( m.s ); for ( auto const & s : m.vs ) noZero( s ); for ( auto const & x : m.v ) noZero( x ); for ( auto const & x : m.m ) noZero( x.second ); }

template <class X> static X at( char const * p, size_t k ) { X v; memcpy( &v, p + k*sizeof(X), sizeof(X) ); return v; }
static double num( mxArray const * a, char const * p, size_t k ) {
  switch ( a->cls ) { case mxINT8_CLASS: return at<int8_t>( p, k ); case mxUINT8_CLASS: return at<uint8_t>( p, k ); case mxINT16_CLASS: return at<int16_t>( p, k ); case mxUINT16_CLASS: return at<uint16_t>( p, k );
  case mxINT32_CLASS: return at<int32_t>( p, k ); case mxUINT32_CLASS: return at<uint32_t>( p, k ); case mxINT64_CLASS: return double( at<int64_t>( p, k ) ); case mxUINT64_CLASS: return double( at<uint64_t>( p, k ) );
  case mxSINGLE_CLASS: return at<float>( p, k ); case mxLOGICAL_CLASS: return at<unsigned char>( p, k ) != 0; default: return at<double>( p, k ); } }
static int64_t whole( mxArray const * a, size_t k ) {
  char const * p = a->re;
  switch ( a->cls ) { case mxINT8_CLASS: return at<int8_t>( p, k ); case mxUINT8_CLASS: return at<uint8_t>( p, k ); case mxINT16_CLASS: return at<int16_t>( p, k ); case mxUINT16_CLASS: return at<uint16_t>( p, k );
  case mxINT32_CLASS: return at<int32_t>( p, k ); case mxUINT32_CLASS: return at<uint32_t>( p, k ); default: return at<int64_t>( p, k ); } }
static bool isWhole( mxClassID c ) { return c >= mxINT8_CLASS && c <= mxUINT64_CLASS; }
static bool isLong( mxClassID c ) { return c >= mxUINT32_CLASS; }

// what a MATLAB array holds
static M fromMx( mxArray const * a ) {
  M m; if ( !a ) return m;
  size_t n = mxGetNumberOfElements( a ); bool td = a->dims.size() == 2, row = td && a->dims[0] == 1;
  if ( a->cls == mxCELL_CLASS ) { m.t = T::VECTOR; for ( size_t k=0;k<n;++k ) m.v.push_back( fromMx( a->cell[k] ) ); return m; }
  if ( a->cls == mxSTRUCT_CLASS ) { m.t = T::MAP; size_t nf = a->field.size();
    for ( size_t f=0;f<nf;++f ) { M e; if ( n == 1 ) e = fromMx( a->cell[f] ); else { e.t = T::VECTOR; for ( size_t k=0;k<n;++k ) e.v.push_back( fromMx( a->cell[k*nf+f] ) ); } m.m.push_back( { a->field[f], e } ); } return m; }
  if ( a->cls == mxCHAR_CLASS ) { m.t = T::STRING; for ( size_t k=0;k<n;++k ) m.s += char( at<mxChar>( a->re, k ) ); return m; }
  if ( a->cls == mxOPAQUE_CLASS ) return fromMx( a->cell[0] );
  if ( a->sparse ) { m.t = T::MAP; M j, i, v; j.t = i.t = T::VEC_INTEGER; size_t nc = a->dims[1], nz = a->jc[nc]; v.t = a->im ? T::VEC_COMPLEX : T::VEC_REAL;
    for ( size_t k=0;k<=nc;++k ) j.vi.push_back( int32_t( a->jc[k] ) );
    for ( size_t k=0;k<nz;++k ) { i.vi.push_back( int32_t( a->ir[k] ) ); if ( a->im ) v.vc.push_back( C( num( a, a->re, k ), num( a, a->im, k ) ) ); else v.vr.push_back( num( a, a->re, k ) ); }
    m.m = { { "jc", j }, { "ir", i }, { "values", v } }; return m; }
  if ( a->cls == mxLOGICAL_CLASS ) { M b; b.t = T::BOOL; if ( n == 1 ) { b.b = at<unsigned char>( a->re, 0 ); return b; } m.t = T::VECTOR; for ( size_t k=0;k<n;++k ) { b.b = at<unsigned char>( a->re, k ); m.v.push_back( b ); } return m; }
  if ( n != 1 && !td ) return m; // not converted
  m.nr = unsigned( a->dims[0] ); m.nc = unsigned( a->dims[1] );
  if ( a->im ) { if ( n == 1 ) { m.t = T::COMPLEX; m.r = num( a, a->re, 0 ); m.im = num( a, a->im, 0 ); return m; }
    m.t = row ? T::VEC_COMPLEX : T::MAT_COMPLEX; for ( size_t k=0;k<n;++k ) m.vc.push_back( C( num( a, a->re, k ), num( a, a->im, k ) ) ); return m; }
  if ( isWhole( a->cls ) ) { bool l = isLong( a->cls );
    if ( n == 1 ) { m.t = l ? T::LONG : T::INTEGER; m.l = whole( a, 0 ); m.i = int32_t( m.l ); return m; }
    m.t = l ? ( row ? T::VEC_LONG : T::MAT_LONG ) : ( row ? T::VEC_INTEGER : T::MAT_INTEGER );
    for ( size_t k=0;k<n;++k ) { int64_t w = whole( a, k ); if ( l ) m.vl.push_back( w ); else m.vi.push_back( int32_t( w ) ); } return m; }
  if ( n == 1 ) { m.t = T::REAL; m.r = num( a, a->re, 0 ); return m; }
  m.t = row ? T::VEC_REAL : T::MAT_REAL; for ( size_t k=0;k<n;++k ) m.vr.push_back( num( a, a->re, k ) ); return m;
}

#define IS(c) sym_assert( (c) ? 1 : 0, msg )
static void dims( mxArray const * a, size_t r, size_t c, char const * msg ) { IS( a->dims.size() == 2 ); IS( a->dims[0] == r && a->dims[1] == c ); }
static void text( mxArray const * a, std::string const & s, char const * msg ) { IS( a && a->cls == mxCHAR_CLASS ); size_t n = mxGetNumberOfElements( a ); IS( n == s.size() ); for ( size_t k=0;k<n;++k ) IS( at<mxChar>( a->re, k ) == (unsigned char)s[k] ); }
// a MATLAB array holds exactly m
static void holds( mxArray const * a, M const & m, bool col, char const * msg ) {
  IS( a != nullptr && !a->sparse ); size_t n = a ? mxGetNumberOfElements( a ) : 0;
  auto shape = [&]( size_t k ) { if ( isMat( m.t ) ) dims( a, m.nr, m.nc, msg ); else if ( isScalar( m.t ) ) dims( a, 1, 1, msg ); else if ( col ) dims( a, k, 1, msg ); else dims( a, 1, k, msg ); };
  switch ( m.t ) {
  case T::NOTYPE: case T::POINTER: case T::VEC_POINTER: IS( a->cls == mxDOUBLE_CLASS && n == 0 ); sym_cover( "empty" ); break;
  case T::BOOL: shape( 1 ); IS( a->cls == mxLOGICAL_CLASS ); IS( at<unsigned char>( a->re, 0 ) == ( m.b ? 1 : 0 ) ); break;
  case T::INTEGER: shape( 1 ); IS( ( a->cls == mxINT32_CLASS || a->cls == mxINT64_CLASS ) && !a->im ); IS( whole( a, 0 ) == m.i ); break;
  case T::LONG: shape( 1 ); IS( a->cls == mxINT64_CLASS && !a->im ); IS( whole( a, 0 ) == m.l ); break;
  case T::REAL: shape( 1 ); IS( a->cls == mxDOUBLE_CLASS && !a->im ); IS( deq( at<double>( a->re, 0 ), m.r ) ); break;
  case T::COMPLEX: shape( 1 ); IS( a->cls == mxDOUBLE_CLASS && a->im ); IS( deq( at<double>( a->re, 0 ), m.r ) & deq( at<double>( a->im, 0 ), m.im ) ); break;
  case T::STRING: text( a, m.s, msg ); break;
  case T::VEC_BOOL: shape( m.vb.size() ); IS( a->cls == mxLOGICAL_CLASS ); for ( size_t k=0;k<n;++k ) IS( at<unsigned char>( a->re, k ) == ( m.vb[k] ? 1 : 0 ) ); break;
  case T::VEC_INTEGER: case T::MAT_INTEGER: shape( m.vi.size() ); IS( ( a->cls == mxINT32_CLASS || a->cls == mxINT64_CLASS ) && !a->im ); for ( size_t k=0;k<n;++k ) IS( whole( a, k ) == m.vi[k] ); break;
  case T::VEC_LONG: case T::MAT_LONG: shape( m.vl.size() ); IS( a->cls == mxINT64_CLASS && !a->im ); for ( size_t k=0;k<n;++k ) IS( whole( a, k ) == m.vl[k] ); break;
  case T::VEC_REAL: case T::MAT_REAL: shape( m.vr.size() ); IS( a->cls == mxDOUBLE_CLASS && !a->im ); for ( size_t k=0;k<n;++k ) IS( deq( at<double>( a->re, k ), m.vr[k] ) ); break;
  case T::VEC_COMPLEX: case T::MAT_COMPLEX: shape( m.vc.size() ); IS( a->cls == mxDOUBLE_CLASS && a->im ); for ( size_t k=0;k<n;++k ) IS( deq( at<double>( a->re, k ), m.vc[k].real() ) & deq( at<double>( a->im, k ), m.vc[k].imag() ) ); break;
  case T::VEC_STRING: shape( m.vs.size() ); IS( a->cls == mxCELL_CLASS ); for ( size_t k=0;k<n;++k ) text( a->cell[k], m.vs[k], msg ); break;
  case T::VECTOR: shape( m.v.size() ); IS( a->cls == mxCELL_CLASS ); for ( size_t k=0;k<n;++k ) holds( a->cell[k], m.v[k], false, msg ); break;
  case T::MAP: dims( a, 1, 1, msg ); IS( a->cls == mxSTRUCT_CLASS && a->field.size() == m.m.size() );
    for ( auto const & e : m.m ) { bool f = false; for ( size_t k=0;k<a->field.size();++k ) if ( a->field[k] == e.first ) { f = true; holds( a->cell[k], e.second, false, msg ); } IS( f ); } break;
  }
}

// MATLAB arrays of a class and shape with arbitrary content
static mwSize const SH[][3] = { { 1,1,1 }, { 1,2,1 }, { 2,1,1 }, { 2,2,1 }, { 3,2,1 }, { 0,0,1 }, { 1,0,1 }, { 0,3,1 }, { 1,40,1 }, { 2,1,2 }, { 1,300,1 } }; enum { NSH = 11 };
static mxClassID const NUM[] = { mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS };
static void fill( mxClassID c, char * p, size_t n, char const * nm ) { size_t z = mexSize( c );
  for ( size_t k=0;k<n;++k ) { char * q = p + k*z;
    if ( !at3( unsigned(k), unsigned(n) ) ) { uint64_t v = c == mxCHAR_CLASS ? 32+k%90 : k*37+11; memcpy( q, &v, z ); if ( c == mxLOGICAL_CLASS ) *q = char( v & 1 ); if ( c == mxDOUBLE_CLASS ) { double d = double( v ); memcpy( q, &d, 8 ); } continue; }
    sym_bytes( q, z, nm );
    if ( c == mxLOGICAL_CLASS ) *q &= 1; if ( c == mxCHAR_CLASS ) { q[1] = 0; sym_assume( q[0] != 0 ); } if ( c == mxUINT64_CLASS ) q[7] &= 0x7f; } } // beyond the signed range there is nothing to hold it
static mxArray * array( mxClassID c, int sh, bool cx ) { mxArray * a = mxCreateNumericArray( SH[sh][2] == 1 ? 2 : 3, SH[sh], c, cx ? mxCOMPLEX : mxREAL ); size_t n = mxGetNumberOfElements( a ); fill( c, a->re, n, "re" ); if ( cx ) fill( c, a->im, n, "im" ); return a; }
static mxArray * sparse( mxClassID c, bool cx, int which ) { // 3 x 4: columns with 0, 1, 2 and 0 entries; empty; dense 2 x 2; no columns
  static mwSize const D[][2] = { { 3,4 }, { 2,2 }, { 2,2 }, { 2,0 } }; static mwIndex const JC[][5] = { { 0,0,1,3,3 }, { 0,0,0 }, { 0,2,4 }, { 0 } }, IR[][4] = { { 2,0,1 }, { 0 }, { 0,1,0,1 }, { 0 } };
  mxArray * a = mexNew( c, 2, D[which] ); a->sparse = true; size_t nc = D[which][1], nz = JC[which][nc]; static char none[8];
  a->jc = static_cast<mwIndex*>( mxCalloc( nc+1, sizeof(mwIndex) ) ); memcpy( a->jc, JC[which], ( nc+1 )*sizeof(mwIndex) );
  a->ir = static_cast<mwIndex*>( mxCalloc( nz, sizeof(mwIndex) ) ); if ( nz ) memcpy( a->ir, IR[which], nz*sizeof(mwIndex) );
  a->re = static_cast<char*>( mxCalloc( nz, mexSize( c ) ) ); if ( nz ) fill( c, a->re, nz, "re" );
  if ( cx ) { a->im = static_cast<char*>( mxCalloc( nz, mexSize( c ) ) ); if ( nz ) fill( c, a->im, nz, "im" ); else a->im = none; }
  return a; }
static mxArray * str() { mxArray * a = mexNew( mxOPAQUE_CLASS, 0, nullptr ); a->cell.push_back( array( mxCHAR_CLASS, sym_choose( 2, "len" ) ? 10 : 1, false ) ); return a; }
static mxArray * simple( int k ) { switch ( k ) { case 0: return nullptr; case 1: return array( mxDOUBLE_CLASS, 3, true ); case 2: return array( mxINT16_CLASS, 1, false ); case 3: return array( mxCHAR_CLASS, 1, false ); case 4: return array( mxLOGICAL_CLASS, 0, false );
  case 5: return sparse( mxDOUBLE_CLASS, false, 0 ); case 6: return array( mxUINT32_CLASS, 0, false ); default: return array( mxDOUBLE_CLASS, 5, false ); } }
static mxArray * nest( int k, int depth );
static mxArray * inner( int k, int depth ) { return depth <= 0 ? simple( k%8 ) : nest( k, depth ); }
static mxArray * nest( int k, int depth ) { // cells and structs of several shapes
  static char const * F[] = { "x", "field_b", "C3" }; mxArray * a;
  switch ( k%6 ) {
  case 0: a = mxCreateCellMatrix( 1, 3 ); for ( int i=0;i<3;++i ) a->cell[size_t(i)] = i == 1 ? inner( k+i+depth, depth-1 ) : simple( k+3*i ); break;
  case 1: a = mxCreateCellMatrix( 2, 2 ); for ( int i=0;i<4;++i ) a->cell[size_t(i)] = i == 2 ? inner( k+i+depth, depth-1 ) : simple( k+i ); break;
  case 2: a = mxCreateStructMatrix( 1, 1, 3, F ); for ( int i=0;i<3;++i ) a->cell[size_t(i)] = i == 0 ? inner( k+i+depth, depth-1 ) : simple( k+2*i ); break;
  case 3: a = mxCreateStructMatrix( 1, 2, 2, F ); for ( int i=0;i<4;++i ) a->cell[size_t(i)] = i == 3 ? inner( k+i+depth, depth-1 ) : simple( k+i ); break;
  case 4: a = mxCreateStructMatrix( (k/6)%3 == 0 ? 0u : (k/6)%3 == 1 ? 1u : 2u, (k/6)%3 == 1 ? 0u : 2u, 3, F ); for ( size_t i=0;i<a->cell.size();++i ) a->cell[i] = simple( k+int(i) ); break;
  default: { mwSize d[] = { k%4 == 1 ? 0u : 2u, 1, 2 }; a = mxCreateCellArray( 3, d ); for ( size_t i=0;i<a->cell.size();++i ) a->cell[i] = simple( k+int(i) ); if ( k%4 == 3 ) a = mxCreateStructMatrix( 1, 1, 0, F ); } break;
  }
  return a; }

static void plain( M const & m, G const & g ) { // the conversions of the plain values
  mxArray * a = nullptr; char const * msg = "the plain value is converted exactly";
  switch ( m.t ) {
  case T::BOOL: to_mxArray( g.get_bool(), a ); break; case T::INTEGER: to_mxArray( g.get_int(), a ); break; case T::LONG: to_mxArray( g.get_long(), a ); break; case T::REAL: to_mxArray( g.get_real(), a ); break; case T::COMPLEX: to_mxArray( g.get_complex(), a ); break;
  case T::STRING: { std::string more = m.s + "tail"; to_mxArray( string_view( more.data(), m.s.size() ), a ); } break;
  case T::VEC_BOOL: to_mxArray( g.get_vec_bool(), a ); break; case T::VEC_INTEGER: to_mxArray( g.get_vec_int(), a ); break; case T::VEC_LONG: to_mxArray( g.get_vec_long(), a ); break; case T::VEC_REAL: to_mxArray( g.get_vec_real(), a ); break;
  case T::VEC_COMPLEX: to_mxArray( g.get_vec_complex(), a ); break; case T::VEC_STRING: to_mxArray( g.get_vec_string(), a ); break;
  case T::MAT_INTEGER: to_mxArray( g.get_mat_int(), a ); break; case T::MAT_LONG: to_mxArray( g.get_mat_long(), a ); break; case T::MAT_REAL: to_mxArray( g.get_mat_real(), a ); break; case T::MAT_COMPLEX: to_mxArray( g.get_mat_complex(), a ); break;
  default: return; }
  sym_cover( "plain" ); holds( a, m, true, msg ); }

static void other( G & g ) { switch ( sym_choose( 4, "before" ) ) { case 0: break; case 1: g["old"]["jc"] = 3; break; case 2: g.set_vec_real( 3 ); break; default: { vec_int_type v{1,2}; g[1] = v; } } }

struct Out { std::ostringstream s; std::streambuf * b; Out() { b = std::cout.rdbuf( s.rdbuf() ); } ~Out() { std::cout.rdbuf( b ); } };
extern "C" int harness_main() {
  mexThe(); long live0 = sym_live();
  { Out out; int what = sym_choose( NKINDS + 31, "what" );
    if ( what < NKINDS ) {
      unsigned n = sizedKind( what ) ? pick( NB, "n" ) : 2, n2 = what < 21 && isMat( T(what) ) ? pick2( n, 3, "n2" ) : 2;
      live() = what >= 27 ? unsigned( sym_choose( 5, "part" ) ) : 9; M m = anyM( what, n, n2 ); noZero( m ); G g; build( m, g ); mxArray * a = nullptr;
      GenericContainer_to_mxArray( g, a ); sym_cover( "to" ); holds( a, m, false, "the MATLAB value has the kind, shape and content of the container" ); same( g, m, "the container is unchanged" );
      if ( what < 21 && sym_choose( 2, "plain" ) ) plain( m, g );
      else { sym_cover( "back" ); G h; other( h ); mxArray_to_GenericContainer( a, h ); same( h, fromMx( a ), "what comes back is what MATLAB holds" ); }
      sym_assert( mexThe().printed == 0, "nothing is printed" );
    } else {
      int w = what - NKINDS; mxArray * a; 
      if ( w < 20 ) { a = array( NUM[w%10], sym_choose( NSH, "shape" ), w >= 10 ); sym_cover( w < 10 ? "numeric" : "complex" ); }
      else if ( w < 22 ) { a = array( w == 20 ? mxLOGICAL_CLASS : mxCHAR_CLASS, sym_choose( NSH, "shape" ), false ); sym_cover( w == 20 ? "logical" : "char" ); }
      else if ( w < 25 ) { a = sparse( w == 24 ? mxLOGICAL_CLASS : mxDOUBLE_CLASS, w == 23, sym_choose( 4, "shape" ) ); sym_cover( "sparse" ); }
      else if ( w == 25 ) { a = str(); sym_cover( "string" ); }
      else if ( w == 26 ) { // the printed form
        int kd = sym_choose( NKINDS-2, "kind" ); Conc z( kd != 7 ); M m = anyM( kd, 2, 2 ); noZero( m ); G g; build( m, g ); std::ostringstream o; g.print( o ); mexPrint( g );
        sym_assert( mexThe().printed == 1 && streq( mexThe().text, o.str() + "\n" ), "the printed form is the one of the container" ); sym_cover( "printed" ); a = nullptr; }
      else { a = nest( 4*sym_choose( 12, "nest" ) + w - 27, 3 ); sym_cover( a->cls == mxCELL_CLASS ? "cell" : "struct" ); }
      int p0 = mexThe().printed; M m = fromMx( a ); G g; other( g ); mxArray_to_GenericContainer( a, g ); same( g, m, "the container holds what MATLAB held" );
      bool td = a && w < 20 && a->dims.size() == 3; if ( td ) sym_cover( "threed" );
      sym_assert( mexThe().printed == p0 + ( td ? 1 : 0 ), "exactly what cannot be converted is reported" );
    }
    sym_assert( out.s.str().empty(), "nothing is written to the standard output" );
    mexEnd(); }
  sym_assert( sym_live() == live0, "everything is released" );
  return 0;
}
