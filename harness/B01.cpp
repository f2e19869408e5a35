// SX-SOURCES: vital/bindings/c/*.cxx vital/bindings/c/helpers/*.cxx vital/types/*.cxx vital/io/camera_io.cxx vital/io/camera_map_io.cxx vital/io/track_set_io.cxx vital/io/io_mapping.cxx vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx vital/bindings/c/algorithm_plugin_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: twice last outlives null unknown tracks cameras image view sub many
#include "hx.h"
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/config_block.h>
#include <vital/bindings/c/track_set.h>
#include <vital/bindings/c/camera_map.h>
#include <vital/types/track_set.h>
#include <vital/types/camera.h>
#include <vital/io/camera_io.h>
#include <memory>
using namespace kwiver::vital;
// Three objects of one kind that are handed out and destroyed any number of times.
template < class T > struct pool
{
  std::shared_ptr< T > own[3]; std::weak_ptr< T > seen[3]; void* handle[3]; int given[3];
  pool() { for ( int i = 0; i < 3; ++i ) { handle[i] = 0; given[i] = 0; } }
};
struct images : pool< image_container >
{
  std::shared_ptr< image_container > fresh( int i ) { return std::make_shared< simple_image_container >( image( 2 + i, 1 ) ); }
  void* give( int i ) { return vital_image_container_from_sptr( own[i] ); }
  void destroy( void* h, vital_error_handle_t* e ) { vital_image_container_destroy( (vital_image_container_t*)h, e ); }
  bool alive( void* h, int i ) { size_t w = vital_image_container_width( (vital_image_container_t*)h ); sx_assert( w == 0 || w == size_t( 2 + i ) ); sx_assert( ( vital_image_container_to_sptr( (vital_image_container_t*)h ) != 0 ) == ( w != 0 ) ); return w != 0; }
};
struct sets : pool< track_set >
{
  std::shared_ptr< track_set > fresh( int i ) { return std::make_shared< simple_track_set >( std::vector< track_sptr >( 1 + i, std::make_shared< track >() ) ); }
  void* give( int i ) { return vital_trackset_from_sptr( &own[i] ); }
  void destroy( void* h, vital_error_handle_t* e ) { vital_trackset_destroy( (vital_trackset_t*)h, e ); }
  bool alive( void* h, int i )
  {
    vital_error_handle_t* e = vital_eh_new(); size_t n = vital_trackset_size( (vital_trackset_t*)h, e ); bool ok = e->error_code == 0;
    sx_assert( ok ? n == size_t( 1 + i ) && ! e->message : n == 0 && e->error_code == -1 && e->message ); vital_eh_destroy( e ); return ok;
  }
};
template < class P > static void history( P& p )
{
  int n = sx_param( "steps", 4, 6 ), objects = sx_param( "objects", 2, 2 );
  for ( int i = 0; i < objects; ++i ) { p.own[i] = p.fresh( i ); p.seen[i] = p.own[i]; p.handle[i] = p.own[i].get(); }
  for ( int s = 0; s < n; ++s )
  {
    int i = s ? sx_choice( "object", objects ) : 0;
    switch ( sx_choice( "step", 3 ) )
    {
    case 0: if ( ! p.own[i] ) break; sx_assert( p.give( i ) == p.handle[i] ); if ( ++p.given[i] == 2 ) sx_reach( "twice" ); break;
    case 1:
    {
      bool known = p.given[i] > 0; vital_error_handle_t* e = sx_bool( "no error handle" ) ? 0 : vital_eh_new();
      p.destroy( p.handle[i], e );
      if ( known ) { sx_assert( ! e || ( e->error_code == 0 && ! e->message ) ); if ( ! --p.given[i] ) sx_reach( "last" ); }
      else sx_reach( "unknown" );
      vital_eh_destroy( e );
      break;
    }
    case 2: p.own[i].reset(); break;
    }
    for ( int k = 0; k < objects; ++k )
    {
      sx_assert( p.alive( p.handle[k], k ) == ( p.given[k] > 0 ) );
      sx_assert( p.seen[k].expired() == ( ! p.given[k] && ! p.own[k] ) );
      if ( ! p.own[k] && p.given[k] ) sx_reach( "outlives" );
    }
  }
}
// handed out any number of times, it goes with the last of as many destructions and not before
template < class P > static void many( P& p )
{
  int n = 1 + sx_choice( "times", sx_param( "times", 4, 8 ) ), early = sx_choice( "own reference", 2 );
  p.own[0] = p.fresh( 0 ); p.seen[0] = p.own[0]; p.handle[0] = p.own[0].get();
  int back = sx_choice( "destroyed between", 2 );
  for ( int i = 0; i < n; ++i ) sx_assert( p.give( 0 ) == p.handle[0] );
  if ( back ) { p.destroy( p.handle[0], 0 ); sx_assert( p.alive( p.handle[0], 0 ) == ( n > 1 ) ); sx_assert( p.give( 0 ) == p.handle[0] ); }
  if ( early ) p.own[0].reset();
  for ( int i = 0; i < n; ++i ) { sx_assert( p.alive( p.handle[0], 0 ) && ! p.seen[0].expired() ); p.destroy( p.handle[0], 0 ); }
  sx_assert( ! p.alive( p.handle[0], 0 ) && p.seen[0].expired() == !! early );
  if ( n > 2 ) sx_reach( "many" );
}
static void nothing()
{
  vital_error_handle_t* e = sx_bool( "no error handle" ) ? 0 : vital_eh_new(); if ( e ) sx_assert( e->error_code == 0 && ! e->message );
  switch ( sx_choice( "null handle", 12 ) )
  {
  case 0: vital_image_container_destroy( 0, e ); break;
  case 1: vital_trackset_destroy( 0, e ); break;
  case 2: vital_track_destroy( 0, e ); break;
  case 3: vital_camera_destroy( 0, e ); break;
  case 4: vital_camera_map_destroy( 0, e ); break;
  case 5: vital_config_block_destroy( 0, e ); break;
  case 6: sx_assert( vital_track_size( 0, e ) == 0 ); break;
  case 7: sx_assert( vital_track_empty( 0, e ) ); break;
  case 8: sx_assert( vital_trackset_size( 0, e ) == 0 ); break;
  case 9: sx_assert( vital_camera_map_size( 0, e ) == 0 ); break;
  case 10: sx_assert( ! vital_config_block_get_value_bool( 0, "a", e ) ); break;
  case 11: vital_camera_write_krtd_file( 0, "x", e ); break;
  }
  if ( e ) { sx_assert( e->error_code == -1 && e->message && strncmp( e->message, "Caught exception in C interface: ", 33 ) == 0 ); sx_assert( strlen( e->message ) > 33 ); }
  vital_eh_destroy( e );
  sx_assert( ! vital_image_container_get_image( 0 ) && vital_image_container_size( 0 ) == 0 && vital_image_container_depth( 0 ) == 0 && vital_image_container_height( 0 ) == 0 );
  sx_assert( ! vital_config_block_get_name( 0 ) && ! vital_config_block_subblock( 0, "a" ) && ! vital_config_block_get_value( 0, "a" ) && ! vital_config_block_has_value( 0, "a" ) && ! vital_config_block_new_named( 0 ) );
  vital_config_block_set_value( 0, "a", "b" ); vital_config_block_merge_config( 0, 0 );
  sx_reach( "null" );
}
static void held_tracks()
{
  vital_track_t* t[3]; int n = sx_choice( "tracks", 4 ); for ( int i = 0; i < n; ++i ) t[i] = vital_track_new();
  for ( int i = 0; i < n; ++i ) { sx_assert( t[i] && vital_track_size( t[i], 0 ) == 0 && vital_track_empty( t[i], 0 ) ); for ( int j = 0; j < i; ++j ) sx_assert( t[i] != t[j] ); }
  std::vector< std::weak_ptr< track > > w;
  vital_trackset_t* s = vital_trackset_new( n, t ); sx_assert( s );
  std::shared_ptr< track_set > keep; for ( int i = 0; i < n; ++i ) { vital_track_destroy( t[i], 0 ); sx_assert( vital_track_empty( t[i], 0 ) ); }
  sx_assert( vital_trackset_size( s, 0 ) == size_t( n ) );
  // the set's own tracks can be looked at
  vital_error_handle_t* e = vital_eh_new(); 
  if ( n ) { vital_track_t* bad[1] = { t[0] }; sx_assert( ! vital_trackset_new( 1, bad ) ); vital_track_size( t[0], e ); sx_assert( e->error_code == -1 ); }
  vital_eh_destroy( e ); vital_trackset_destroy( s, 0 ); sx_assert( vital_trackset_size( s, 0 ) == 0 );
  sx_reach( "tracks" );
}
static void held_cameras()
{
  int n = 1 + sx_choice( "cameras", 3 ); vital_camera_t* c[3]; unsigned f[3];
  for ( int i = 0; i < n; ++i )
  {
    simple_camera one( vector_3d( i, 2, 3 ), rotation_d() ); write_krtd_file( one, "c.krtd" );
    c[i] = vital_camera_read_krtd_file( "c.krtd", 0 ); sx_assert( c[i] ); f[i] = sx_var( "frame", 32 );
  }
  vital_camera_map_t* m = vital_camera_map_new( n, f, c ); sx_assert( m );
  // the last camera given for a frame counts
  std::vector< int > want; for ( int i = 0; i < n; ++i ) { bool last = true; for ( int j = i + 1; j < n; ++j ) if ( f[j] == f[i] ) last = false; if ( last ) want.push_back( i ); }
  int gone = sx_choice( "destroyed first", 2 ); if ( gone ) for ( int i = 0; i < n; ++i ) vital_camera_destroy( c[i], 0 );
  vital_error_handle_t* e = vital_eh_new();
  sx_assert( vital_camera_map_size( m, e ) == want.size() );
  size_t len = 99; unsigned* fr = 0; vital_camera_t** cs = 0; vital_camera_map_get_map( m, &len, &fr, &cs, e );
  sx_assert( e->error_code == 0 && len == want.size() );
  for ( size_t k = 0; k < len; ++k )
  {
    if ( k ) sx_assert( fr[k-1] < fr[k] );
    int hit = -1; for ( int i : want ) if ( f[i] == fr[k] ) hit = i;
    sx_assert( hit >= 0 && cs[k] == c[hit] );
  }
  vital_camera_map_destroy( m, e ); sx_assert( e->error_code == 0 ); sx_assert( vital_camera_map_size( m, 0 ) == 0 );
  // each camera of the map was handed out once more and works without the map
  for ( size_t k = 0; k < len; ++k )
  {
    vital_camera_map_t* again = vital_camera_map_new( 1, fr + k, cs + k ); sx_assert( again ); vital_camera_map_destroy( again, 0 );
    vital_camera_destroy( cs[k], e ); sx_assert( e->error_code == 0 );
    again = vital_camera_map_new( 1, fr + k, cs + k ); sx_assert( !! again == ! gone );
    vital_camera_map_destroy( again, 0 );
  }
  sx_assert( vital_camera_map_size( vital_camera_map_new( 3, 0, c ), 0 ) == 0 && vital_camera_map_size( vital_camera_map_new( 3, f, 0 ), 0 ) == 0 && vital_camera_map_size( vital_camera_map_new( 0, f, c ), 0 ) == 0 );
  vital_free_pointer( fr ); vital_free_pointer( cs ); vital_eh_destroy( e );
  sx_reach( "cameras" );
}
static void held_images()
{
  unsigned char px[2]; sx_bytes( px, 2, "pixels" );
  vital_image_t* a = vital_image_new_from_data( px, 2, 1, 1, 1, 2, 2 );
  vital_image_container_t* c = vital_image_container_new_simple( a ); sx_assert( c );
  if ( sx_bool( "image first" ) ) { vital_image_destroy( a ); a = 0; }
  vital_image_t* b = vital_image_container_get_image( c ); sx_assert( b );
  vital_image_t* d = vital_image_new_from_image( b ); sx_assert( d && vital_image_first_pixel( d ) == vital_image_first_pixel( b ) );
  vital_image_container_destroy( c, 0 ); vital_image_destroy( a ); if ( sx_bool( "copy first" ) ) { vital_image_destroy( b ); b = d; } else vital_image_destroy( d );
  sx_assert( vital_image_get_pixel2( b, 0, 0 ) == px[0] && vital_image_get_pixel2( b, 1, 0 ) == px[1] );
  vital_image_destroy( b );
  sx_reach( "image" );
}
static void held_blocks()
{
  vital_config_block_t* c = vital_config_block_new(); vital_config_block_set_value( c, "a:b", "1" );
  bool view = sx_bool( "view" ); vital_config_block_t* s = view ? vital_config_block_subblock_view( c, "a" ) : vital_config_block_subblock( c, "a" ); sx_assert( s && s != c );
  vital_config_block_t* s2 = view ? vital_config_block_subblock_view( c, "a" ) : vital_config_block_subblock( c, "a" );
  vital_error_handle_t* e = vital_eh_new(); vital_config_block_destroy( c, e ); sx_assert( e->error_code == 0 ); vital_eh_destroy( e );
  sx_assert( ! vital_config_block_get_value( c, "a:b" ) );
  vital_string_t* v = vital_config_block_get_value( s, "b" ); sx_assert( v && v->length == 1 && ! strcmp( v->str, "1" ) ); vital_string_free( v );
  std::string w = hx_strr( "value", 1, 2, '!', '~' ); vital_config_block_set_value( s, "b", w.c_str() );
  v = vital_config_block_get_value( s2, "b" ); sx_assert( v && hx_eq( std::string( v->str, v->length ), view ? w : "1" ) ); vital_string_free( v );
  vital_config_block_destroy( s, 0 ); sx_assert( ! vital_config_block_has_value( s, "b" ) ); sx_assert( vital_config_block_has_value( s2, "b" ) ); vital_config_block_destroy( s2, 0 );
  sx_reach( view ? "view" : "sub" );
}
void sx_main()
{
  switch ( sx_choice( "what", 9 ) )
  {
  case 0: { images p; history( p ); break; }
  case 1: { sets p; history( p ); break; }
  case 2: nothing(); break;
  case 3: held_tracks(); break;
  case 4: held_cameras(); break;
  case 5: held_images(); break;
  case 6: held_blocks(); break;
  case 7: { images p; many( p ); break; }
  case 8: { sets p; many( p ); break; }
  }
}
