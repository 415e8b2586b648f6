//@ modules: core jsonall yaml toml
//@ split: 40
//@ bounds: (a) every text of 0..LT bytes (quick 1, thorough 2) of any value and (b) documents with two symbolic bytes, in JSON, YAML and TOML, read by file name, from a text, from a stream and by the member function, into a container that holds nothing, a string, a vector, a matrix or a map; (c) tables read by name and from a stream by both readers; (d) files that do not exist, names that are part of a longer text, directories, streams in a failed state; (e) streams and files whose reading fails at any position of the document, for all six readers; (f) containers with a symbolic text and integer, written into a string (with or without old content) and a stream (with content), in JSON, YAML and TOML
//@ stubs: files are entries of a table of the stream model (harness/files.hh); replays use real files in a scratch directory
//@ quick: -DLT=1 time=150
//@ thorough: -DLT=2 time=800
//@ covers: short document refused table missing partname failed readerr ok written
#include "gcm.hh"
#include "files.hh"
#include "GenericContainer/GenericContainerInterface_json.hh"
#include "GenericContainer/GenericContainerInterface_yaml.hh"
#include "GenericContainer/GenericContainerInterface_toml.hh"
static void gsame( G const & a, G const & b, char const * msg ) {
  sym_assert( a.get_type() == b.get_type(), msg ); if ( a.get_type() != b.get_type() ) return;
  auto n = [&]{ bool e = a.get_num_elements() == b.get_num_elements(); sym_assert( e, msg ); return e; };
  #define GSV(GET,EQ) { auto const & x = a.GET; auto const & y = b.GET; sym_assert( x.size() == y.size(), msg ); if ( x.size() == y.size() ) for ( unsigned k=0;k<x.size();++k ) sym_assert( EQ, msg ); }
  #define GSM(GET,EQ) sym_assert( a.num_rows() == b.num_rows() && a.num_cols() == b.num_cols(), msg ); GSV(GET,EQ)
  switch ( a.get_type() ) {
  case T::NOTYPE: break;
  case T::BOOL: sym_assert( a.get_bool() == b.get_bool(), msg ); break;
  case T::INTEGER: sym_assert( a.get_int() == b.get_int(), msg ); break;
  case T::LONG: sym_assert( a.get_long() == b.get_long(), msg ); break;
  case T::REAL: sym_assert( deq( a.get_real(), b.get_real() ), msg ); break;
  case T::STRING: sym_assert( sveq( a.get_string(), std::string( b.get_string() ) ), msg ); break;
  case T::VEC_BOOL: GSV( get_vec_bool(), x[k] == y[k] ) break;
  case T::VEC_INTEGER: GSV( get_vec_int(), x[k] == y[k] ) break;
  case T::VEC_LONG: GSV( get_vec_long(), x[k] == y[k] ) break;
  case T::VEC_REAL: GSV( get_vec_real(), deq( x[k], y[k] ) ) break;
  case T::VEC_STRING: GSV( get_vec_string(), streq( x[k], y[k] ) ) break;
  case T::MAT_INTEGER: GSM( get_mat_int(), x[k] == y[k] ) break;
  case T::MAT_LONG: GSM( get_mat_long(), x[k] == y[k] ) break;
  case T::MAT_REAL: GSM( get_mat_real(), deq( x[k], y[k] ) ) break;
  case T::VECTOR: if ( n() ) for ( unsigned k=0;k<a.get_num_elements();++k ) gsame( a( k, "" ), b( k, "" ), msg ); break;
  case T::MAP: if ( n() ) { auto const & x = a.get_map(); auto const & y = b.get_map(); auto q = y.begin(); for ( auto p = x.begin(); p != x.end(); ++p, ++q ) { sym_assert( streq( p->first, q->first ), msg ); gsame( p->second, q->second, msg ); } } break;
  default: sym_fail( "unexpected type" );
  }
}
enum F { FJ, FY, FT, F1, F2, FJ2 };
static bool member( int f, std::istream & s, G & g ) { switch ( f ) { case FJ: return g.from_json( s ); case FY: return g.from_yaml( s ); case FT: return g.from_toml( s ); case F1: g.read_formatted_data( s, "#", "," ); return true; case F2: g.read_formatted_data2( s, "#", ",", nullptr ); return true; default: return g.from_json2( s ); } }
static bool by_stream( int f, std::istream & s, G & g ) { return f == FJ ? JSON_to_GC( s, g ) : f == FY ? YAML_to_GC( s, g ) : TOML_to_GC( s, g ); }
static bool by_text( int f, std::string const & s, G & g ) { return f == FJ ? JSON_to_GC( s, g ) : f == FY ? YAML_to_GC( s, g ) : TOML_to_GC( s, g ); }
static bool by_name( int f, std::string const & p, G & g ) { switch ( f ) { case FJ: return file_JSON_to_GC( p, g ); case FY: return file_YAML_to_GC( p, g ); case FT: return file_TOML_to_GC( p, g ); case F1: g.read_formatted_data( p.c_str(), "#", "," ); return true; default: g.read_formatted_data2( p.c_str(), "#", ",", nullptr ); return true; } }
static void old_content( G & g ) { switch ( sym_choose( 5, "old" ) ) { case 0: break; case 1: g = "old text"; break; case 2: { auto & v = g.set_vector( 2 ); v[0] = 1; v[1] = "x"; } break; case 3: g.set_mat_real( 2, 2 ); break; case 4: g["a"] = 1; g["old"]["b"] = 2; break; } }
static void agree( int f, std::string const & t ) {
  G r; std::istringstream is( t ); bool ok = member( f, is, r ); int way = sym_choose( 3, "way" ); G g; old_content( g ); bool o2;
  if ( way == 0 ) o2 = by_name( f, make_file( "doc", t ), g ); else if ( way == 1 ) o2 = by_text( f, t, g ); else { std::istringstream i2( t ); o2 = by_stream( f, i2, g ); }
  sym_assert( ok == o2, "a document is accepted or refused alike by name, as a text and from a stream" );
  if ( ok != o2 ) return;
  if ( ok ) { gsame( g, r, "a document read by name, as a text or from a stream has the same content" ); }
  else { sym_cover( "refused" ); sym_assert( g.get_type() == T::NOTYPE || ( g.get_type() != T::STRING && !g.exists( "old" ) ), "after a refused document nothing of the old content is left" ); }
}
static char const * const DOC[] = { "{\"a\": [1, 2.5, \"x?\"], \"b?\": {\"c\": null}}", "a: [1, 2.5, \"x?\"]\nb?:\n  c: null\n", "a = [1, 2.5, \"x?\"]\nb?.c = true\n", "h,k?\n1,2?\n3,4\n", "h,k?\n1,2?\n3,4\n", "{\"a\": [1, 2.5, \"x?\"], \"b?\": {\"c\": null}}" };
static std::string doc( int f, bool symb ) { std::string t = DOC[f]; std::string b = symb ? sstr( 2, "byte" ) : std::string( "pq" ); if ( f == F1 || f == F2 ) { if ( symb ) sym_assume( (b[1] >= '0') & (b[1] <= '9') & (b[0] >= 'a') & (b[0] <= 'z') ); else b = "p5"; } else if ( symb ) { unsigned char c = (unsigned char)b[1]; sym_assume( (c >= 'a') & (c <= 'z') ); } unsigned n = 0; for ( char & c : t ) if ( c == '?' ) c = b[n++]; return t; }
extern "C" int harness_main() {
  int part = sym_choose( 9, "part" ), f = sym_choose( part == 0 || part == 1 || part == 8 ? 3 : part == 2 ? 2 : 6, "format" );
  if ( part == 0 ) { int L = sym_choose( LT+1, "len" ); std::string t = sstr( unsigned(L), "text" ); sym_cover( "short" ); agree( f, t ); return 0; }
  if ( part == 1 ) { sym_cover( "document" ); agree( f, doc( f, true ) ); return 0; }
  if ( part == 2 ) { // tables
    std::string t = doc( F1+f, true ); std::string p = make_file( "table", t ); G a, b; std::istringstream is( t ); bool t1 = throws( [&]{ member( F1+f, is, a ); } ), t2 = throws( [&]{ by_name( F1+f, p, b ); } );
    sym_assert( t1 == t2, "a table is accepted or refused alike by name and from a stream" ); if ( t1 || t2 ) return 0; sym_cover( "table" ); gsame( a, b, "a table read by name or from a stream has the same content" ); return 0;
  }
  if ( part == 8 ) { // writing
    G w; w["a"] = sstr( 1, "text" ); { int n = 0; sym_bytes( &n, 4, "int" ); w["b"] = n; } auto & v = w["c"].set_vec_bool( 2 ); v[0] = true; std::ostringstream o; if ( f == FJ ) w.to_json( o ); else if ( f == FY ) w.to_yaml( o ); else w.to_toml( o );
    std::string x( sym_choose( 2, "was" ) ? "old text that is longer than the document that is written over it, so that something would be left of it at the end" : "" ); std::ostringstream o2; o2 << "#";
    if ( f == FJ ) { GC_to_JSON( w, x ); GC_to_JSON( w, o2 ); } else if ( f == FY ) { GC_to_YAML( w, x ); GC_to_YAML( w, o2 ); } else { GC_to_TOML( w, x ); GC_to_TOML( w, o2 ); }
    sym_cover( "written" ); sym_assert( streq( x, o.str() ), "the text of a container is written into a string in place of the old content" ); sym_assert( streq( o2.str(), "#" + o.str() ), "the text of a container is written to a stream after its content" ); return 0;
  }
  G g; old_content( g ); bool r = true, th = false; auto call = [&]( auto fn ) { try { r = fn(); } catch ( ... ) { th = true; } };
  switch ( part ) {
  case 3: if ( f == FJ2 ) sym_skip(); { std::string n = sstr( 2, "name" ); for ( char c : n ) sym_assume( (c >= 'a') & (c <= 'z') ); sym_cover( "missing" ); make_file( "doc", doc( f, false ) ); call( [&]{ return by_name( f, file_path( ( "no" + n ).c_str() ), g ); } ); }
    sym_assert( th || !r, "a file that does not exist is an error" ); return 0;
  case 4: // the name is a part of a longer text
    if ( f != FY && f != FT ) sym_skip(); { sym_cover( "partname" ); std::string t = doc( f, true ), p = make_file( "doc", t ), q = make_file( "doc.bak", "" ); string_view n( q.data(), p.size() ); bool o = f == FY ? file_YAML_to_GC( n, g ) : file_TOML_to_GC( n, g ); G x; bool w = by_text( f, t, x ); sym_assert( o == w, "the file of the given name is read" ); if ( o && w ) gsame( g, x, "the file of the given name is read" ); } return 0;
  case 5: // a stream that has failed already
    { std::istringstream is( doc( f, false ) ); is.setstate( sym_choose( 2, "bad" ) ? std::ios_base::badbit : std::ios_base::failbit ); sym_cover( "failed" ); call( [&]{ return member( f, is, g ); } ); sym_assert( th || !r, "a stream that cannot be read is an error" ); } return 0;
  case 6: // reading fails at any position; without a failure the same stream is read
    { std::string t = doc( f, false ); long k = sym_choose( int( t.size() )+2, "at" ) - 1; FailBuf fb( t, k ); std::istream is( &fb ); call( [&]{ return member( f, is, g ); } ); if ( k < 0 ) { sym_cover( "ok" ); sym_assert( !th && r, "a document is read" ); G w; std::istringstream i2( t ); member( f, i2, w ); gsame( g, w, "a document read from a stream that cannot be rewound has the same content" ); } else { sym_cover( "readerr" ); sym_assert( th || !r, "a document whose reading fails is not taken as complete" ); } } return 0;
  default: // a directory, or a file whose reading fails at once
    if ( f == FJ2 ) sym_skip(); { std::string p = make_file( "dir", doc( f, false ), 0 ); call( [&]{ return by_name( f, p, g ); } ); sym_assert( th || !r, "a document whose reading fails is not taken as complete" ); } return 0;
  }
}
