// SX-SOURCES: vital/bindings/c/*.cxx vital/bindings/c/helpers/*.cxx vital/types/*.cxx vital/io/camera_io.cxx vital/io/camera_map_io.cxx vital/io/track_set_io.cxx vital/io/io_mapping.cxx vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx vital/bindings/c/algorithm_plugin_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: read-only absent merged view booleans default listed refused-null constants
#include "hx.h"
#include <vital/bindings/c/config_block.h>
#include <vital/config/config_block.h>
#include <map>
using namespace kwiver::vital;
static std::string take( vital_string_t* s ) { sx_assert( s && s->str[s->length] == 0 ); std::string r( s->str, s->length ); vital_string_free( s ); return r; }
template < class F > static bool ok( F f ) { try { f(); return true; } catch ( std::exception const& ) { return false; } }
static const char* keys[] = { "a", "b:a", "b:c" };
static void same( vital_config_block_t* c, config_block_sptr b, int k )
{
  const char* key = keys[k];
  sx_assert( vital_config_block_has_value( c, key ) == b->has_value( key ) );
  sx_assert( vital_config_block_is_read_only( c, key ) == b->is_read_only( key ) );
  vital_string_t* v = vital_config_block_get_value( c, key ); std::string d = take( vital_config_block_get_value_default( c, key, "dflt" ) );
  vital_string_t* t = vital_config_block_get_description( c, key );
  if ( b->has_value( key ) ) { std::string w = b->get_value< std::string >( key ); sx_assert( hx_eq( take( v ), w ) && hx_eq( d, w ) ); sx_assert( hx_eq( take( t ), b->get_description( key ) ) ); }
  else { sx_assert( ! v && ! t && d == "dflt" ); sx_reach( "absent" ); }
}
static void booleans( vital_config_block_t* c, config_block_sptr b )
{
  const char* key = keys[sx_choice( "key", 2 )]; bool dflt = sx_bool( "default" ), want = false, good = ok( [&]{ want = b->get_value< bool >( key ); } );
  vital_error_handle_t* e = vital_eh_new();
  bool r = vital_config_block_get_value_bool( c, key, e ); sx_assert( good ? r == want && e->error_code == 0 && ! e->message : ! r && e->error_code == -1 && e->message );
  vital_eh_destroy( e ); e = vital_eh_new();
  bool w2 = b->has_value( key ) && good ? want : dflt, g2 = ok( [&]{ w2 = b->get_value< bool >( key, dflt ); } );
  r = vital_config_block_get_value_default_bool( c, key, dflt, e ); sx_assert( g2 ? r == w2 && e->error_code == 0 : ! r && e->error_code == -1 );
  vital_eh_destroy( e ); sx_reach( "booleans" ); if ( ! b->has_value( key ) ) sx_reach( "default" );
}
static void listed( vital_config_block_t* c, config_block_sptr b )
{
  unsigned n = 77; char** l = 0; vital_config_block_available_values( c, &n, &l ); std::vector< std::string > w = b->available_values();
  sx_assert( n == w.size() ); for ( unsigned i = 0; i < n; ++i ) sx_assert( hx_eq( l[i], w[i] ) );
  vital_common_free_string_list( n, l ); if ( n > 1 ) sx_reach( "listed" );
  unsigned q = 5; char** z = (char**)&q; vital_config_block_available_values( c, 0, &z ); vital_config_block_available_values( c, &q, 0 ); sx_assert( q == 5 && z == (char**)&q );
}
void sx_main()
{
  if ( sx_bool( "names" ) )
  {
    std::string n = hx_strr( "name", 0, 2, 1, 127 ); vital_config_block_t* c = vital_config_block_new_named( n.c_str() ); sx_assert( hx_eq( take( vital_config_block_get_name( c ) ), n ) );
    sx_assert( take( vital_config_block_get_name( vital_config_block_new() ) ).empty() );
    config_block_sptr b = config_block::empty_config( n ); b->set_value( "x:y", "1" ); vital_config_block_set_value( c, "x:y", "1" );
    sx_assert( hx_eq( take( vital_config_block_get_name( vital_config_block_subblock( c, "x" ) ) ), b->subblock( "x" )->get_name() ) );
    sx_assert( hx_eq( take( vital_config_block_get_name( vital_config_block_subblock_view( c, "x" ) ) ), b->subblock_view( "x" )->get_name() ) );
    vital_string_t* s = vital_config_block_block_sep(), *g = vital_config_block_global_value();
    sx_assert( s == vital_config_block_block_sep() && std::string( s->str, s->length ) == config_block::block_sep && g == vital_config_block_global_value() && std::string( g->str, g->length ) == config_block::global_value );
    sx_reach( "constants" );
    return;
  }
  vital_config_block_t* c = vital_config_block_new(); config_block_sptr b = config_block::empty_config();
  int n = sx_param( "steps", 3, 4 ), len = sx_param( "bytes of a value", 1, 3 );
  for ( int s = 0; s < n; ++s )
  {
    int k = sx_choice( "key", sx_param( "keys", 2, 3 ) ); const char* key = keys[k]; bool view = k && sx_bool( "through a view" );
    vital_config_block_t* h = view ? vital_config_block_subblock_view( c, "b" ) : c; config_block_sptr m = view ? b->subblock_view( "b" ) : b; if ( view ) { key += 2; sx_reach( "view" ); }
    switch ( sx_choice( "operation", s ? 6 : 2 ) )
    {
    case 0: { std::string v = s ? std::string( 1, (char)( '0' + s ) ) : hx_strr( "value", 0, len, 1, 127 ); vital_config_block_set_value( h, key, v.c_str() ); if ( ! ok( [&]{ m->set_value( key, v ); } ) ) sx_reach( "read-only" ); break; }
    case 1: { std::string v = s ? std::string( " false" ) : "true", d = hx_strr( "description", 0, 1, 1, 127 ); vital_config_block_set_value_descr( h, key, v.c_str(), d.c_str() ); ok( [&]{ m->set_value( key, v, d ); } ); break; }
    case 2: vital_config_block_unset_value( h, key ); ok( [&]{ m->unset_value( key ); } ); break;
    case 3: vital_config_block_mark_read_only( h, key ); m->mark_read_only( key ); break;
    case 4:
    {
      vital_config_block_t* o = vital_config_block_new(); config_block_sptr p = config_block::empty_config();
      for ( int i = 0; i < 2; ++i ) { std::string v( 1 + i, (char)( 'p' + s ) ); vital_config_block_set_value( o, keys[i], v.c_str() ); p->set_value( keys[i], v ); }
      vital_config_block_merge_config( c, o ); ok( [&]{ b->merge_config( p ); } );
      for ( int i = 0; i < 3; ++i ) same( o, p, i );
      vital_config_block_destroy( o, 0 ); sx_reach( "merged" ); break;
    }
    case 5: vital_config_block_set_value( h, key, 0 ); vital_config_block_set_value( h, 0, "x" ); vital_config_block_set_value_descr( h, key, "x", 0 ); vital_config_block_unset_value( h, 0 ); vital_config_block_mark_read_only( h, 0 ); vital_config_block_merge_config( c, 0 ); vital_config_block_merge_config( 0, c ); sx_reach( "refused-null" ); break;
    }
    if ( view ) vital_config_block_destroy( h, 0 );
    if ( s == n - 1 ) for ( int i = 0; i < 3; ++i ) same( c, b, i );
  }
  if ( sx_bool( "lists" ) ) listed( c, b ); else booleans( c, b );
}
