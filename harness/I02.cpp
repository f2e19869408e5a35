// SX-SOURCES: vital/io/camera_io.cxx vital/io/camera_map_io.cxx vital/types/camera.cxx vital/types/camera_intrinsics.cxx vital/types/rotation.cxx vital/types/similarity.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: some none no-directory malformed
#include "hx.h"
#include <vital/io/camera_map_io.h>
#include <vital/exceptions/io.h>
#include <sys/stat.h>
#include <cstdio>
#include <vital/types/camera.h>
using namespace kwiver::vital;
static void put( std::string const& f, std::string const& s ) { FILE* o = fopen( f.c_str(), "w" ); fwrite( s.data(), 1, s.size(), o ); fclose( o ); }
static std::string text( int x ) { char b[200]; snprintf( b, sizeof b, "100 0 320\n0 100 240\n0 0 1\n\n1 0 0\n0 1 0\n0 0 1\n\n%d 0 0\n\n0\n", -x ); return b; }
void sx_main()
{
  // names with and without directory, with several dots, without extension, hidden, the same name twice
  static const char* name[] = { "im1.png", "/data/set.1/im2.tar.gz", "plain", "a/im1.jpg", "im4.", "b.c/.im5.png" };
  static const char* stem[] = { "im1", "im2.tar", "plain", "im1", "im4", ".im5" };
  int total = sx_choice( "images", sx_param( "images", 4, 5 ) );
  std::vector< path_t > imgs; std::vector< int > pick; for ( int i = 0; i < total; ++i ) { int k = sx_choice( "name", 6 ); pick.push_back( k ); imgs.push_back( name[k] ); }
  if ( total < 2 && sx_bool( "no directory" ) ) { sx_assert( HX_THROWS( read_krtd_files( imgs, "cams" ), path_not_exists ) ); sx_reach( "no-directory" ); return; }
  ::mkdir( "cams", 0700 );
  bool have[6], any = false, bad = false;
  for ( int k = 0; k < 6; ++k )
  {
    bool used = false; for ( int p : pick ) used |= p == k;
    have[k] = used && k != 3 ? sx_bool( "present" ) : false;
    if ( have[k] ) put( std::string( "cams/" ) + stem[k] + ".krtd", text( 10 + k ) );
  }
  // the fourth name has the file name of the first
  bool used0 = false, used3 = false; for ( int p : pick ) { used0 |= p == 0; used3 |= p == 3; }
  if ( used3 && ! used0 ) { have[0] = sx_bool( "present" ); if ( have[0] ) put( "cams/im1.krtd", text( 10 ) ); }
  have[3] = have[0];
  if ( total == 2 && have[pick[1]] && sx_bool( "malformed" ) ) { put( std::string( "cams/" ) + stem[pick[1]] + ".krtd", "1 2 x" ); bad = true; }
  for ( int p : pick ) any |= have[p];
  if ( bad ) { sx_assert( HX_THROWS( read_krtd_files( imgs, "cams" ), invalid_data ) ); sx_reach( "malformed" ); return; }
  if ( ! any ) { sx_assert( HX_THROWS( read_krtd_files( imgs, "cams" ), invalid_data ) ); sx_reach( "none" ); return; }
  camera_map_sptr m = read_krtd_files( imgs, "cams" );
  camera_map::map_camera_t c = m->cameras();
  size_t n = 0;
  for ( int i = 0; i < total; ++i )
  {
    sx_assert( ( c.find( i ) != c.end() ) == have[pick[i]] );
    if ( have[pick[i]] ) { ++n; sx_assert( c[i] && c[i]->center()[0] == 10 + ( pick[i] == 3 ? 0 : pick[i] ) ); }
  }
  sx_assert( c.size() == n && m->size() == n );
  sx_reach( "some" );
}
