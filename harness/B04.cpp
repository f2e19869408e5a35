// SX-SOURCES: vital/bindings/c/*.cxx vital/bindings/c/helpers/*.cxx vital/types/*.cxx vital/io/camera_io.cxx vital/io/camera_map_io.cxx vital/io/track_set_io.cxx vital/io/io_mapping.cxx vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx vital/bindings/c/algorithm_plugin_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: copied reversed backwards empty interleaved planar shared container
#include "hx.h"
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/image.h>
using namespace kwiver::vital;
static int step( const char* n ) { return sx_choice( n, 2 * sx_param( "largest step", 2, 4 ) + 1 ) - sx_param( "largest step", 2, 4 ); }
// what the C accessors say about the image equals what the object says
static void same( vital_image_t* c, image const& i )
{
  sx_assert( vital_image_width( c ) == i.width() && vital_image_height( c ) == i.height() && vital_image_depth( c ) == i.depth() && vital_image_size( c ) == i.size() );
  sx_assert( vital_image_w_step( c ) == size_t( i.w_step() ) && vital_image_h_step( c ) == size_t( i.h_step() ) && vital_image_d_step( c ) == size_t( i.d_step() ) );
}
static void data()
{
  enum { side = 60 }; unsigned char px[2 * side + 1]; sx_bytes( px, sizeof px, "memory" );
  size_t w = 1 + sx_choice( "width", 2 ), h = 1 + sx_choice( "height", sx_param( "rows", 2, 3 ) ), d = 1 + sx_choice( "depth", 3 );
  int ws = step( "column step" ), hs = step( "row step" ) * ( 1 + 2 * sx_choice( "long rows", 2 ) ), ds = step( "plane step" );
  vital_image_t* c = vital_image_new_from_data( px + side, w, h, d, ws, hs, ds ); sx_assert( c );
  sx_assert( vital_image_width( c ) == w && vital_image_height( c ) == h && vital_image_depth( c ) == d && vital_image_size( c ) == w * h * d );
  unsigned char keep[sizeof px]; memcpy( keep, px, sizeof px ); memset( px, 0, sizeof px );
  for ( size_t k = 0; k < d; ++k ) for ( size_t j = 0; j < h; ++j ) for ( size_t i = 0; i < w; ++i )
  {
    // a negative plane step reverses the order of the planes above the given address
    int plane = ds >= 0 ? int( k ) * ds : int( d - 1 - k ) * -ds;
    int want = keep[side + int( i ) * ws + int( j ) * hs + plane];
    sx_assert( vital_image_get_pixel3( c, i, j, k ) == want );
    if ( d == 1 ) sx_assert( vital_image_get_pixel2( c, i, j ) == want );
    sx_assert( vital_image_first_pixel( c )[i * vital_image_w_step( c ) + j * vital_image_h_step( c ) + k * vital_image_d_step( c )] == want );
  }
  vital_image_t* s = vital_image_new_from_image( c ); vital_image_first_pixel( c )[0] ^= 1; sx_assert( vital_image_get_pixel3( s, 0, 0, 0 ) == vital_image_get_pixel3( c, 0, 0, 0 ) ); sx_assert( vital_image_first_pixel( s ) == vital_image_first_pixel( c ) && vital_image_w_step( s ) == vital_image_w_step( c ) && vital_image_h_step( s ) == vital_image_h_step( c ) && vital_image_d_step( s ) == vital_image_d_step( c ) && vital_image_depth( s ) == d && vital_image_height( s ) == h && vital_image_width( s ) == w );
  vital_image_destroy( c ); vital_image_destroy( s );
  sx_reach( "copied" ); if ( ds < 0 && d > 1 ) sx_reach( "reversed" ); if ( ws < 0 || hs < 0 ) sx_reach( "backwards" );
}
static void sizes()
{
  size_t w = sx_choice( "width", 4 ), h = sx_choice( "height", 4 ), d = 1 + sx_choice( "depth", 4 ); bool inter = sx_bool( "interleaved" );
  vital_image_t* c = vital_image_new_with_dim( w, h, d, inter ); image i( w, h, d, inter ); same( c, i );
  if ( w && h )
  {
    unsigned v = sx_var( "pixel", 8 ), x = sx_choice( "x", (int)w ), y = sx_choice( "y", (int)h ), z = sx_choice( "z", (int)d );
    vital_image_first_pixel( c )[x * i.w_step() + y * i.h_step() + z * i.d_step()] = (unsigned char)v; sx_assert( vital_image_get_pixel3( c, x, y, z ) == int( v ) );
    if ( d == 1 ) sx_assert( vital_image_get_pixel2( c, x, y ) == int( v ) );
    vital_image_container_t* b = vital_image_container_new_simple( c ); sx_assert( b );
    sx_assert( vital_image_container_width( b ) == w && vital_image_container_height( b ) == h && vital_image_container_depth( b ) == d && vital_image_container_size( b ) == i.size() );
    vital_image_t* g = vital_image_container_get_image( b ); sx_assert( g != c && vital_image_first_pixel( g ) == vital_image_first_pixel( c ) ); same( g, i ); sx_assert( vital_image_get_pixel3( g, x, y, z ) == int( v ) );
    image_container_sptr p = vital_image_container_to_sptr( b ); sx_assert( p && p->get_image()( x, y, z ) == v && vital_image_container_from_sptr( p ) == b );
    vital_image_destroy( g ); vital_image_container_destroy( b, 0 ); sx_assert( vital_image_container_to_sptr( b ) == p ); vital_image_container_destroy( b, 0 ); sx_assert( ! vital_image_container_to_sptr( b ) );
    sx_reach( "container" );
  }
  vital_image_destroy( c ); sx_reach( inter ? "interleaved" : "planar" );
  vital_image_t* n = vital_image_new(); same( n, image() ); vital_image_destroy( n ); sx_assert( ! vital_image_container_from_sptr( image_container_sptr() ) ); sx_reach( "empty" );
  if ( w + h + d > 2 ) return;
  // views with any steps are described as they are
  unsigned char* m = new unsigned char[200]; int ws = step( "column step" ), hs = step( "row step" );
  image view( m + 100, 2, 2, 2, ws, hs, 1 ); image_container_sptr p = std::make_shared< simple_image_container >( view ); vital_image_container_t* b = vital_image_container_from_sptr( p );
  vital_image_t* g = vital_image_container_get_image( b ); same( g, view ); sx_assert( vital_image_first_pixel( g ) == m + 100 ); m[100 + ws + hs + 1] = 7; sx_assert( vital_image_get_pixel3( g, 1, 1, 1 ) == 7 );
  vital_image_destroy( g ); vital_image_container_destroy( b, 0 ); delete[] m; sx_reach( "shared" );
}
void sx_main() { if ( sx_bool( "sizes" ) ) sizes(); else data(); }
