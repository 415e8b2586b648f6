#pragma once
// A small model of the MATLAB C matrix API (separate real and imaginary parts, 64-bit sizes), written from its documentation:
// only what GenericContainerInterface_matlab.cc uses. Data are exactly as long as announced; everything is released by mexEnd().
#include <cstddef>
#include <cstdint>
#include <cstdarg>
#include <cstring>
#include <string>
#include <vector>
#include <exception>
typedef size_t mwSize; typedef size_t mwIndex; typedef ptrdiff_t mwSignedIndex; typedef bool mxLogical; typedef char16_t mxChar;
enum mxClassID { mxUNKNOWN_CLASS = 0, mxCELL_CLASS, mxSTRUCT_CLASS, mxLOGICAL_CLASS, mxCHAR_CLASS, mxVOID_CLASS, mxDOUBLE_CLASS, mxSINGLE_CLASS, mxINT8_CLASS, mxUINT8_CLASS, mxINT16_CLASS, mxUINT16_CLASS, mxINT32_CLASS, mxUINT32_CLASS, mxINT64_CLASS, mxUINT64_CLASS, mxFUNCTION_CLASS, mxOPAQUE_CLASS, mxOBJECT_CLASS };
enum mxComplexity { mxREAL, mxCOMPLEX };
struct mxArray_tag { mxClassID cls = mxDOUBLE_CLASS; std::vector<mwSize> dims; char * re = nullptr, * im = nullptr; std::vector<mxArray_tag*> cell; std::vector<std::string> field; bool sparse = false; mwIndex * ir = nullptr, * jc = nullptr; };
typedef mxArray_tag mxArray;
struct mexPool { std::vector<char *> mem; std::vector<mxArray *> arr; int printed = 0; std::string text; };
struct mexError : std::exception { char const * what() const noexcept override { return "MATLAB error"; } };
inline mexPool & mexThe() { static mexPool p; return p; }
inline void mexEnd() { mexPool & p = mexThe(); for ( char * m : p.mem ) delete [] m; for ( mxArray * a : p.arr ) delete a; std::string().swap( p.text ); p = mexPool(); }
inline void * mxCalloc( size_t n, size_t s ) { if ( n*s == 0 ) return nullptr; char * m = new char[n*s]; memset( m, 0, n*s ); mexThe().mem.push_back( m ); return m; }
inline void * mxMalloc( size_t n ) { return mxCalloc( n, 1 ); }
inline void mxFree( void * q ) { mexPool & p = mexThe(); for ( size_t k=0;k<p.mem.size();++k ) if ( p.mem[k] == q ) { delete [] p.mem[k]; p.mem.erase( p.mem.begin()+long(k) ); return; } }
inline size_t mexSize( mxClassID c ) { switch ( c ) { case mxLOGICAL_CLASS: case mxINT8_CLASS: case mxUINT8_CLASS: return 1; case mxCHAR_CLASS: case mxINT16_CLASS: case mxUINT16_CLASS: return 2; case mxSINGLE_CLASS: case mxINT32_CLASS: case mxUINT32_CLASS: return 4; default: return 8; } }
inline size_t mxGetNumberOfElements( mxArray const * a ) { size_t n = 1; for ( mwSize d : a->dims ) n *= d; return n; }
inline mwSize mxGetNumberOfDimensions( mxArray const * a ) { return a->dims.size(); }
inline mwSize const * mxGetDimensions( mxArray const * a ) { return a->dims.data(); }
inline size_t mxGetM( mxArray const * a ) { return a->dims[0]; }
inline size_t mxGetN( mxArray const * a ) { size_t n = 1; for ( size_t k=1;k<a->dims.size();++k ) n *= a->dims[k]; return n; }
inline mxClassID mxGetClassID( mxArray const * a ) { return a->cls; }
inline char const * mxGetClassName( mxArray const * a ) { static char const * const N[] = { "unknown", "cell", "struct", "logical", "char", "void", "double", "single", "int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64", "function_handle", "string", "object" }; return N[a->cls]; }
inline bool mxIsClass( mxArray const * a, char const * n ) { return strcmp( mxGetClassName( a ), n ) == 0; }
inline bool mxIsComplex( mxArray const * a ) { return a->im != nullptr; }
inline bool mxIsSparse( mxArray const * a ) { return a->sparse; }
inline bool mxIsLogical( mxArray const * a ) { return a->cls == mxLOGICAL_CLASS; }
inline bool mxIsDouble( mxArray const * a ) { return a->cls == mxDOUBLE_CLASS; }
inline bool mxIsChar( mxArray const * a ) { return a->cls == mxCHAR_CLASS; }
inline bool mxIsEmpty( mxArray const * a ) { return mxGetNumberOfElements( a ) == 0; }
inline void * mxGetData( mxArray const * a ) { return a->re; }
inline void * mxGetImagData( mxArray const * a ) { return a->im; }
inline double * mxGetPr( mxArray const * a ) { return reinterpret_cast<double*>( a->re ); }
inline double * mxGetPi( mxArray const * a ) { return reinterpret_cast<double*>( a->im ); }
inline mxLogical * mxGetLogicals( mxArray const * a ) { return a->cls == mxLOGICAL_CLASS ? reinterpret_cast<mxLogical*>( a->re ) : nullptr; }
inline mxChar * mxGetChars( mxArray const * a ) { return a->cls == mxCHAR_CLASS ? reinterpret_cast<mxChar*>( a->re ) : nullptr; }
inline bool mxIsLogicalScalar( mxArray const * a ) { return a->cls == mxLOGICAL_CLASS && mxGetNumberOfElements( a ) == 1; }
inline bool mxIsLogicalScalarTrue( mxArray const * a ) { return mxIsLogicalScalar( a ) && *mxGetLogicals( a ); }
inline double mxGetScalar( mxArray const * a ) { return a->re ? *mxGetPr( a ) : 0; }
inline mwIndex * mxGetIr( mxArray const * a ) { return a->ir; }
inline mwIndex * mxGetJc( mxArray const * a ) { return a->jc; }
inline mxArray * mxGetCell( mxArray const * a, mwIndex k ) { return a->cls == mxCELL_CLASS && k < a->cell.size() ? a->cell[k] : nullptr; }
inline void mxSetCell( mxArray * a, mwIndex k, mxArray * v ) { a->cell.at( k ) = v; }
inline int mxGetNumberOfFields( mxArray const * a ) { return a->cls == mxSTRUCT_CLASS ? int( a->field.size() ) : 0; }
inline char const * mxGetFieldNameByNumber( mxArray const * a, int k ) { return k >= 0 && size_t(k) < a->field.size() ? a->field[size_t(k)].c_str() : nullptr; }
inline mxArray * mxGetFieldByNumber( mxArray const * a, mwIndex i, int k ) { return k >= 0 && size_t(k) < a->field.size() && i < mxGetNumberOfElements( a ) ? a->cell[i*a->field.size()+size_t(k)] : nullptr; }
inline void mxSetFieldByNumber( mxArray * a, mwIndex i, int k, mxArray * v ) { if ( k >= 0 && size_t(k) < a->field.size() && i < mxGetNumberOfElements( a ) ) a->cell[i*a->field.size()+size_t(k)] = v; }
inline mxArray * mexNew( mxClassID c, mwSize nd, mwSize const * d ) { mxArray * a = new mxArray; mexThe().arr.push_back( a ); a->cls = c; for ( mwSize k=0;k<nd;++k ) a->dims.push_back( d[k] ); while ( a->dims.size() < 2 ) a->dims.push_back( 1 ); while ( a->dims.size() > 2 && a->dims.back() == 1 ) a->dims.pop_back(); return a; }
inline mxArray * mxCreateNumericArray( mwSize nd, mwSize const * d, mxClassID c, mxComplexity x ) { mxArray * a = mexNew( c, nd, d ); size_t n = mxGetNumberOfElements( a ); static char none; a->re = static_cast<char*>( mxCalloc( n, mexSize( c ) ) ); if ( x == mxCOMPLEX ) { a->im = static_cast<char*>( mxCalloc( n, mexSize( c ) ) ); if ( !a->im ) a->im = &none; } return a; }
inline mxArray * mxCreateNumericMatrix( mwSize m, mwSize n, mxClassID c, mxComplexity x ) { mwSize d[] = { m, n }; return mxCreateNumericArray( 2, d, c, x ); }
inline mxArray * mxCreateDoubleMatrix( mwSize m, mwSize n, mxComplexity x ) { return mxCreateNumericMatrix( m, n, mxDOUBLE_CLASS, x ); }
inline mxArray * mxCreateDoubleScalar( double v ) { mxArray * a = mxCreateDoubleMatrix( 1, 1, mxREAL ); *mxGetPr( a ) = v; return a; }
inline mxArray * mxCreateLogicalArray( mwSize nd, mwSize const * d ) { return mxCreateNumericArray( nd, d, mxLOGICAL_CLASS, mxREAL ); }
inline mxArray * mxCreateLogicalMatrix( mwSize m, mwSize n ) { return mxCreateNumericMatrix( m, n, mxLOGICAL_CLASS, mxREAL ); }
inline mxArray * mxCreateLogicalScalar( mxLogical v ) { mxArray * a = mxCreateLogicalMatrix( 1, 1 ); *mxGetLogicals( a ) = v; return a; }
inline mxArray * mxCreateCellMatrix( mwSize m, mwSize n ) { mwSize d[] = { m, n }; mxArray * a = mexNew( mxCELL_CLASS, 2, d ); a->cell.resize( m*n ); return a; }
inline mxArray * mxCreateCellArray( mwSize nd, mwSize const * d ) { mxArray * a = mexNew( mxCELL_CLASS, nd, d ); a->cell.resize( mxGetNumberOfElements( a ) ); return a; }
inline mxArray * mxCreateStructMatrix( mwSize m, mwSize n, int nf, char const ** f ) { mwSize d[] = { m, n }; mxArray * a = mexNew( mxSTRUCT_CLASS, 2, d ); for ( int k=0;k<nf;++k ) a->field.push_back( f[k] ); a->cell.resize( m*n*size_t(nf) ); return a; }
inline mxArray * mxCreateString( char const * s ) { size_t n = strlen( s ); mxArray * a = mxCreateNumericMatrix( n ? 1 : 0, n, mxCHAR_CLASS, mxREAL ); for ( size_t k=0;k<n;++k ) mxGetChars( a )[k] = (unsigned char)s[k]; return a; }
inline char * mxArrayToString( mxArray const * a ) { if ( a->cls != mxCHAR_CLASS ) return nullptr; size_t n = mxGetNumberOfElements( a ); char * s = static_cast<char*>( mxCalloc( n+1, 1 ) ); for ( size_t k=0;k<n;++k ) s[k] = char( mxGetChars( a )[k] ); return s; }
inline int mxGetString( mxArray const * a, char * s, mwSize len ) { if ( a->cls != mxCHAR_CLASS || len == 0 ) return 1; size_t n = mxGetNumberOfElements( a ), k = 0; for ( ;k<n && k+1<len;++k ) s[k] = char( mxGetChars( a )[k] ); s[k] = 0; return k < n; }
inline void mxDestroyArray( mxArray * ) {} // released by mexEnd()
inline int mexPrintf( char const * f, ... ) { ++mexThe().printed; if ( strcmp( f, "%s\n" ) == 0 ) { va_list a; va_start( a, f ); mexThe().text = mexThe().text + va_arg( a, char const * ) + "\n"; va_end( a ); } return 0; }
inline void mexErrMsgTxt( char const * ) { throw mexError(); }
inline int mexCallMATLAB( int nl, mxArray * l[], int nr, mxArray * r[], char const * f ) { if ( nl != 1 || nr != 1 || strcmp( f, "char" ) || r[0]->cls != mxOPAQUE_CLASS ) throw mexError(); l[0] = r[0]->cell[0]; return 0; } // a string object holds its char array
// the rest of the interface, for code that would use it
inline bool mxIsCell( mxArray const * a ) { return a->cls == mxCELL_CLASS; }
inline bool mxIsStruct( mxArray const * a ) { return a->cls == mxSTRUCT_CLASS; }
inline bool mxIsSingle( mxArray const * a ) { return a->cls == mxSINGLE_CLASS; }
inline bool mxIsInt8( mxArray const * a ) { return a->cls == mxINT8_CLASS; }
inline bool mxIsUint8( mxArray const * a ) { return a->cls == mxUINT8_CLASS; }
inline bool mxIsInt16( mxArray const * a ) { return a->cls == mxINT16_CLASS; }
inline bool mxIsUint16( mxArray const * a ) { return a->cls == mxUINT16_CLASS; }
inline bool mxIsInt32( mxArray const * a ) { return a->cls == mxINT32_CLASS; }
inline bool mxIsUint32( mxArray const * a ) { return a->cls == mxUINT32_CLASS; }
inline bool mxIsInt64( mxArray const * a ) { return a->cls == mxINT64_CLASS; }
inline bool mxIsUint64( mxArray const * a ) { return a->cls == mxUINT64_CLASS; }
inline bool mxIsNumeric( mxArray const * a ) { return a->cls >= mxDOUBLE_CLASS && a->cls <= mxUINT64_CLASS; }
inline bool mxIsScalar( mxArray const * a ) { return mxGetNumberOfElements( a ) == 1; }
inline bool mxIsFunctionHandle( mxArray const * a ) { return a->cls == mxFUNCTION_CLASS; }
inline size_t mxGetElementSize( mxArray const * a ) { return mexSize( a->cls ); }
inline mwSize mxGetNzmax( mxArray const * a ) { return a->jc ? a->jc[mxGetN( a )] : 0; }
inline int mxGetFieldNumber( mxArray const * a, char const * f ) { for ( size_t k=0;k<a->field.size();++k ) if ( a->field[k] == f ) return int( k ); return -1; }
inline mxArray * mxGetField( mxArray const * a, mwIndex i, char const * f ) { return mxGetFieldByNumber( a, i, mxGetFieldNumber( a, f ) ); }
inline void mxSetField( mxArray * a, mwIndex i, char const * f, mxArray * v ) { mxSetFieldByNumber( a, i, mxGetFieldNumber( a, f ), v ); }
inline int mxAddField( mxArray * a, char const * f ) { if ( a->cls != mxSTRUCT_CLASS ) return -1; int k = mxGetFieldNumber( a, f ); if ( k >= 0 ) return k; size_t n = mxGetNumberOfElements( a ), nf = a->field.size(); std::vector<mxArray*> c; for ( size_t i=0;i<n;++i ) { for ( size_t j=0;j<nf;++j ) c.push_back( a->cell[i*nf+j] ); c.push_back( nullptr ); } a->cell = c; a->field.push_back( f ); return int( nf ); }
inline mxArray * mxCreateStructArray( mwSize nd, mwSize const * d, int nf, char const ** f ) { mxArray * a = mexNew( mxSTRUCT_CLASS, nd, d ); for ( int k=0;k<nf;++k ) a->field.push_back( f[k] ); a->cell.resize( mxGetNumberOfElements( a )*size_t(nf) ); return a; }
inline mxArray * mxCreateCharArray( mwSize nd, mwSize const * d ) { return mxCreateNumericArray( nd, d, mxCHAR_CLASS, mxREAL ); }
inline mxArray * mxCreateUninitNumericArray( mwSize nd, mwSize * d, mxClassID c, mxComplexity x ) { return mxCreateNumericArray( nd, d, c, x ); }
inline mxArray * mxCreateUninitNumericMatrix( size_t m, size_t n, mxClassID c, mxComplexity x ) { return mxCreateNumericMatrix( m, n, c, x ); }
inline mxArray * mxCreateStringFromNChars( char const * s, mwSize n ) { mxArray * a = mxCreateNumericMatrix( n ? 1 : 0, n, mxCHAR_CLASS, mxREAL ); for ( size_t k=0;k<n;++k ) mxGetChars( a )[k] = (unsigned char)s[k]; return a; }
inline char * mxArrayToUTF8String( mxArray const * a ) { return mxArrayToString( a ); }
inline void mxSetData( mxArray * a, void * p ) { a->re = static_cast<char*>( p ); }
inline void mxSetImagData( mxArray * a, void * p ) { a->im = static_cast<char*>( p ); }
inline void mxSetPr( mxArray * a, double * p ) { a->re = reinterpret_cast<char*>( p ); }
inline void mxSetPi( mxArray * a, double * p ) { a->im = reinterpret_cast<char*>( p ); }
inline void mxSetM( mxArray * a, mwSize m ) { a->dims[0] = m; }
inline void mxSetN( mxArray * a, mwSize n ) { a->dims.resize( 2 ); a->dims[1] = n; }
inline void mexWarnMsgTxt( char const * ) { ++mexThe().printed; }
inline void mexErrMsgIdAndTxt( char const *, char const *, ... ) { throw mexError(); }
inline void mexWarnMsgIdAndTxt( char const *, char const *, ... ) { ++mexThe().printed; }
inline void mexMakeArrayPersistent( mxArray * ) {}
inline void mexMakeMemoryPersistent( void * ) {}
