// SX-SOURCES: vital/bindings/c/*.cxx vital/bindings/c/helpers/*.cxx vital/types/*.cxx vital/io/camera_io.cxx vital/io/camera_map_io.cxx vital/io/track_set_io.cxx vital/io/io_mapping.cxx vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx vital/bindings/c/algorithm_plugin_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: absent unreadable malformed other fine unwritable reused merged first cast krtd tracks
#include "hx.h"
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/camera.h>
#include <vital/bindings/c/track_set.h>
#include <vital/config/config_block_io.h>
#include <vital/io/camera_io.h>
#include <vital/io/track_set_io.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cstdio>
#include <cstdlib>
#include <fstream>
using namespace kwiver::vital;
static void put( std::string const& f, std::string const& s ) { std::ofstream o( f.c_str() ); o << s; }
template < class F > static std::string complaint( F f ) { try { f(); } catch ( std::exception const& e ) { return e.what(); } sx_fail( "the C++ function does not fail" ); return ""; }
// the state of the handle after a call that failed with this code and message
static void told( vital_error_handle_t* e, int code, std::string const& what )
{
  if ( ! e ) return;
  sx_assert( e->error_code == code && e->message ); std::string m( e->message );
  sx_assert( hx_eq( m, code == -1 ? "Caught exception in C interface: " + what : what ) );
}
static void quiet( vital_error_handle_t* e ) { if ( e ) sx_assert( e->error_code == 0 && ! e->message ); }
static bool value_is( vital_config_block_t* c, const char* k, std::string const& want ) { vital_string_t* v = vital_config_block_get_value( c, k ); if ( ! v ) return false; sx_assert( v->str[v->length] == 0 ); bool r = hx_eq( std::string( v->str, v->length ), want ); vital_string_free( v ); return r; }
// a short or a long name of a file that is not there
static std::string missing_name( std::string const& p ) { static const int len[] = { 0, 130, 700 }; std::string r; int n = len[sx_choice( "long", 3 )]; while ( (int)r.size() < n ) r += "./"; return r + p; }
static void reading( vital_error_handle_t* e )
{
  int n = sx_param( "bytes of a name", 2, 4 );
  switch ( sx_choice( "file", 5 ) )
  {
  case 0:
  {
    std::string p = "no" + hx_strr( "name", 0, n, 'a', 'z' ); for ( size_t i = 0; i < p.size(); ++i ) p[i] = (char)sx_concretize( p[i] ); p = missing_name( p );
    sx_assert( ! vital_config_block_file_read( p.c_str(), e ) ); told( e, 1, complaint( [&]{ read_config_file( p ); } ) ); sx_reach( "absent" ); break;
  }
  case 1: mkdir( "dir", 0700 ); sx_assert( ! vital_config_block_file_read( "dir", e ) ); { std::string w; int c; try { read_config_file( "dir" ); sx_fail( "no error" ); } catch ( config_file_not_found_exception const& x ) { c = 1; w = x.what(); } catch ( config_file_not_read_exception const& x ) { c = 2; w = x.what(); } told( e, c, w ); } sx_reach( "unreadable" ); break;
  case 2:
  {
    std::string junk = hx_strr( "junk", 1, n, 'a', 'z' ); put( "bad.conf", "a = 1\n" + junk + "\n" );
    sx_assert( ! vital_config_block_file_read( "bad.conf", e ) ); told( e, 3, complaint( [&]{ read_config_file( "bad.conf" ); } ) ); sx_reach( "malformed" ); break;
  }
  case 3: sx_assert( ! vital_config_block_file_read( 0, e ) ); if ( e ) sx_assert( e->error_code == -1 && e->message && strlen( e->message ) > 33 ); sx_reach( "other" ); break;
  case 4:
  {
    std::string v = hx_strr( "value", 1, n, 'a', 'z' ); put( "good.conf", "a = " + v + "\nb:c = 2\n" );
    vital_config_block_t* c = vital_config_block_file_read( "good.conf", e ); sx_assert( c ); quiet( e );
    sx_assert( value_is( c, "a", v ) && value_is( c, "b:c", "2" ) );
    vital_config_block_file_write( c, "sub/out.conf", e ); quiet( e );
    vital_config_block_t* d = vital_config_block_file_read( "sub/out.conf", e ); sx_assert( d && d != c ); quiet( e ); sx_assert( value_is( d, "a", v ) && value_is( d, "b:c", "2" ) );
    vital_config_block_destroy( c, e ); vital_config_block_destroy( d, e ); quiet( e );
    sx_reach( "fine" ); break;
  }
  }
}
static void writing( vital_error_handle_t* e )
{
  vital_config_block_t* c = vital_config_block_new(); bool empty = sx_bool( "empty block" ); if ( ! empty ) vital_config_block_set_value( c, "a", "1" );
  config_block_sptr b = config_block::empty_config(); if ( ! empty ) b->set_value( "a", "1" );
  put( "plain", "x" ); mkdir( "dir", 0700 ); int k = sx_choice( "target", 4 ); const char* p[4] = { "dir", "plain/x/y.conf", "out.conf", 0 };
  vital_config_block_file_write( c, p[k], e );
  if ( k == 3 ) { if ( e ) sx_assert( e->error_code == -1 && e->message ); }
  else if ( k == 2 && ! empty ) quiet( e );
  else { told( e, 1, complaint( [&]{ write_config_file( b, p[k] ); } ) ); sx_reach( "unwritable" ); }
  vital_config_block_destroy( c, 0 );
}
static void reusing( vital_error_handle_t* e )
{
  // the second failure replaces the first, a success in between leaves the handle as it is
  std::string a = complaint( [&]{ read_config_file( "nofile" ); } ); vital_config_block_file_read( "nofile", e ); told( e, 1, a );
  vital_config_block_t* c = vital_config_block_new(); vital_config_block_set_value( c, "k", "maybe" );
  bool v = sx_bool( "default" ); sx_assert( vital_config_block_get_value_default_bool( c, "absent", v, e ) == v ); told( e, 1, a );
  std::string w; { config_block_sptr b = config_block::empty_config(); b->set_value( "k", "maybe" ); bool missing = sx_bool( "missing" ); const char* k = missing ? "gone" : "k"; w = complaint( [&]{ b->get_value< bool >( k ); } ); sx_assert( ! vital_config_block_get_value_bool( c, k, e ) ); told( e, -1, w ); sx_reach( "cast" ); }
  vital_config_block_destroy( c, 0 ); sx_reach( "reused" );
}
static void standard( vital_error_handle_t* e )
{
  char cwd[512]; sx_assert( getcwd( cwd, sizeof cwd ) ); std::string here( cwd );
  setenv( "KWIVER_CONFIG_PATH", here.c_str(), 1 ); setenv( "HOME", here.c_str(), 1 ); unsetenv( "XDG_CONFIG_HOME" ); setenv( "XDG_CONFIG_DIRS", here.c_str(), 1 );
  mkdir( "pre", 0700 ); mkdir( "pre/share", 0700 ); mkdir( "pre/share/app", 0700 ); mkdir( "pre/share/app/config", 0700 ); mkdir( "pre/share/app/1.0", 0700 ); mkdir( "pre/share/app/1.0/config", 0700 );
  bool ver = sx_bool( "version given" ), pre = sx_bool( "prefix given" ), merge = sx_bool( "merge" ), have0 = sx_bool( "first" ), have1 = sx_bool( "second" ), have2 = sx_bool( "third" ), bad = sx_bool( "malformed" );
  if ( have0 ) put( "x.conf", bad ? "oops\n" : "a = 0\n" ); if ( have1 ) put( "pre/share/app/1.0/config/x.conf", "a = 1\nb = 1\n" ); if ( have2 ) put( "pre/share/app/config/x.conf", "a = 2\nc = 2\n" );
  std::string prefix = here + "/pre";
  vital_config_block_t* c = vital_config_block_file_read_from_standard_location( "x.conf", "app", ver ? "1.0" : 0, pre ? prefix.c_str() : 0, merge, e );
  int code = 0; std::string what; config_block_sptr b;
  try { b = read_config_file( "x.conf", "app", ver ? "1.0" : "", pre ? prefix : "", merge ); } catch ( config_file_not_found_exception const& x ) { code = 1; what = x.what(); } catch ( config_file_not_parsed_exception const& x ) { code = 3; what = x.what(); }
  sx_assert( !! c == !! b );
  if ( ! c ) { told( e, code, what ); sx_reach( code == 1 ? "absent" : "malformed" ); return; }
  quiet( e ); unsigned len = 0; char** keys = 0; vital_config_block_available_values( c, &len, &keys );
  std::vector< std::string > k = b->available_values(); sx_assert( len == k.size() );
  for ( unsigned i = 0; i < len; ++i ) { sx_assert( hx_eq( keys[i], k[i] ) ); sx_assert( value_is( c, keys[i], b->get_value< std::string >( k[i] ) ) ); }
  vital_common_free_string_list( len, keys ); vital_config_block_destroy( c, 0 );
  sx_reach( merge ? "merged" : "first" );
}
static void others( vital_error_handle_t* e )
{
  switch ( sx_choice( "file", 4 ) )
  {
  case 0: { std::string p = sx_bool( "directory" ) ? std::string( "." ) : missing_name( "none.krtd" ); sx_assert( ! vital_camera_read_krtd_file( p.c_str(), e ) ); told( e, -1, complaint( [&]{ read_krtd_file( p ); } ) ); break; }
  case 1: put( "bad.krtd", "1 0 0\n0 x\n" ); sx_assert( ! vital_camera_read_krtd_file( "bad.krtd", e ) ); told( e, -1, complaint( [&]{ read_krtd_file( "bad.krtd" ); } ) ); sx_reach( "krtd" ); break;
  case 2: { std::string p = sx_bool( "directory" ) ? std::string( "." ) : missing_name( "none.txt" ); sx_assert( ! vital_trackset_new_from_file( p.c_str(), e ) ); told( e, -1, complaint( [&]{ read_track_file( p ); } ) ); break; }
  case 3:
  {
    vital_trackset_t* s = vital_trackset_new( 0, 0 ); sx_assert( s ); put( "plain", "x" ); vital_trackset_write_track_file( s, "plain/x.txt", e );
    told( e, -1, complaint( [&]{ write_track_file( std::make_shared< simple_track_set >(), "plain/x.txt" ); } ) ); vital_trackset_destroy( s, 0 ); sx_reach( "tracks" ); break;
  }
  }
}
void sx_main()
{
  vital_error_handle_t* e = sx_bool( "no error handle" ) ? 0 : vital_eh_new();
  switch ( sx_choice( "what", 5 ) ) { case 0: reading( e ); break; case 1: writing( e ); break; case 2: reusing( e ); break; case 3: standard( e ); break; case 4: others( e ); break; }
  vital_eh_destroy( e );
}
