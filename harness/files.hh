#pragma once
// Files that exist while a harness runs: in the engine an entry of the table of the stream model, natively a file in a scratch directory
// (removed at exit). fail: the position at which reading fails, -1 if it never does (natively only 0, with a directory in place of the file).
#include <string>
#include <fstream>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#ifdef GCSHIM_IO
inline std::string file_path( char const * name ) { return std::string( "/gc/" ) + name; }
inline std::string make_file( char const * name, std::string const & data, long fail = -1 ) {
  std::string p = file_path( name ); char * n = new char[p.size()+1]; strcpy( n, p.c_str() ); char * d = new char[data.size()+1]; memcpy( d, data.data(), data.size() );
  std::_gcfiles[std::_gcnfiles++] = { n, d, long( data.size() ), fail }; return p;
}
#else
#include <unistd.h>
#include <sys/stat.h>
#include <vector>
struct Scratch { std::string dir; std::vector<std::string> files, dirs; Scratch() { char const * e = getenv( "GC_SCRATCH" ); std::string t = std::string( e ? e : "/tmp" ) + "/gcreplay.XXXXXX"; dir = mkdtemp( &t[0] ) ? t : "/nonexistent"; } ~Scratch() { for ( auto & f : files ) unlink( f.c_str() ); for ( auto & f : dirs ) rmdir( f.c_str() ); rmdir( dir.c_str() ); } };
inline Scratch & scratch() { static Scratch s; return s; }
inline std::string file_path( char const * name ) { return scratch().dir + "/" + name; }
inline std::string make_file( char const * name, std::string const & data, long fail = -1 ) {
  std::string p = file_path( name );
  if ( fail == 0 ) { if ( mkdir( p.c_str(), 0700 ) == 0 ) scratch().dirs.push_back( p ); return p; }
  FILE * f = fopen( p.c_str(), "wb" ); if ( f ) { fwrite( data.data(), 1, data.size(), f ); fclose( f ); scratch().files.push_back( p ); } return p;
}
#endif
// a stream whose reading fails (as a stream of the library does: with an exception of its buffer) at position `fail`, or that ends there
class FailBuf : public std::streambuf { std::string d; bool bad; public: FailBuf( std::string const & t, long fail ) : d( t ), bad( fail >= 0 ) { if ( bad ) d.resize( size_t( fail ) ); char * b = &d[0]; setg( b, b, b+d.size() ); } protected: int_type underflow() override { if ( gptr() < egptr() ) return traits_type::to_int_type( *gptr() ); if ( bad ) throw std::ios_base::failure( "read error" ); return traits_type::eof(); } };
