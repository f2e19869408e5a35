// SX-SOURCES: vital/io/camera_io.cxx vital/io/camera_map_io.cxx vital/types/camera.cxx vital/types/camera_intrinsics.cxx vital/types/rotation.cxx vital/types/similarity.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: round by-image incomplete malformed absent directory unwritable
// SX-ASSUME: the numbers of the camera are integers within the stated ranges (the file holds twelve digits), rotations those of the cube
#include "geom.h"
#include <vital/io/camera_io.h>
#include <vital/exceptions/io.h>
#include <sys/stat.h>
#include <fstream>
#include <cmath>
using namespace kwiver::vital;
static void put( const char* f, std::string const& s ) { std::ofstream o( f ); o.write( s.data(), s.size() ); }
// one number of a round trip is symbolic in its whole range, which one is a choice of its own
static int wide, turn; static double num( const char* nm, int lo, int hi, double other ) { return turn++ == wide ? sx_idouble( nm, lo, hi ) : other; }
static bool same( vector_3d const& a, vector_3d const& b ) { bool x = a[0] == b[0], y = a[1] == b[1], z = a[2] == b[2]; return x & y & z; }
static void round_trip()
{
  iquat q = hx_unit_quaternion( ( 5 * sx_choice( "rotation", sx_param( "rotations", 5, 24 ) ) ) % 24 ); imat R = hx_matrix_of( q );
  wide = sx_choice( "number", 5 ); int n = sx_choice( "coefficients", 3 ) * 4; double first = n && sx_choice( "first coefficient", 2 ) ? -1.5 : 0; turn = n ? 0 : 1; Eigen::VectorXd d( n ); for ( int i = 0; i < n; ++i ) d[i] = i == 2 ? num( "d", -9999, 9999, 0.125 ) : i * 0.25 + first;
  double f = num( "focal length", 1, 99999, 250 ), px = num( "px", -99999, 99999, -31.5 );
  simple_camera cam( vector_3d( num( "x", -99999, 99999, 12 ), num( "y", -99999, 99999, 7 ), -3 ), rotation_d( Eigen::Quaterniond( q.w * 0.5, q.x * 0.5, q.y * 0.5, q.z * 0.5 ) ), simple_camera_intrinsics( f, vector_2d( px, 11 ), 1, 0.5, d ) );
  bool by = sx_bool( "by image" );
  write_krtd_file( cam, by ? "p/q/im.v2.krtd" : "c.krtd" );
  camera_sptr r;
  if ( by )
  {
    static const char* im[] = { "im.v2.png", "/data/im.v2.png", "a.b/im.v2.jpeg", "./im.v2." };
    r = read_krtd_file( im[sx_choice( "image", 4 )], sx_bool( "slash" ) ? "p/q/" : "p/q" );
    sx_reach( "by-image" );
  }
  else r = read_krtd_file( "c.krtd" );
  sx_assert( !! r );
  vector_3d c = r->center(), want = cam.center();
  sx_assert( same( c, want ) );
  matrix_3x3d M( r->rotation() );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) sx_assert( std::fabs( M( i, j ) - R.m[i][j] ) < 1e-11 );
  camera_intrinsics_sptr k = r->intrinsics();
  sx_assert( k->focal_length() == f && k->skew() == 0.5 && k->principal_point().x() == px && k->principal_point().y() == 11 && k->aspect_ratio() == 1 );
  std::vector< double > e = k->dist_coeffs(); sx_assert( (int)e.size() == n );
  for ( int i = 0; i < n; ++i ) sx_assert( e[i] == d[i] );
  sx_reach( "round" );
}
void sx_main()
{
  static const char* nums[] = { "100", "0", "320", "0", "100", "240", "0", "0", "1", "1", "0", "0", "0", "1", "0", "0", "0", "1", "5", "6", "7", "0" };
  switch ( sx_choice( "what", 4 ) )
  {
  case 0: round_trip(); break;
  case 1:
  {
    // a file that ends early
    int k = sx_choice( "numbers", 22 ); std::string s; for ( int i = 0; i < k; ++i ) s += std::string( nums[i] ) + ( i % 3 == 2 ? "\n" : " " );
    put( "c.krtd", s );
    bool t = HX_THROWS( read_krtd_file( "c.krtd" ), invalid_data );
    sx_assert( t == ( k < 21 ) );
    sx_reach( "incomplete" );
    break;
  }
  case 2:
  {
    // one number replaced by a character that does not begin one
    int k = sx_choice( "number", 22 ); std::string b( 1, (char)sx_var( "character", 8 ) );
    sx_assume( ! ( ( b[0] >= '0' ) & ( b[0] <= '9' ) ) && ! hx_space( b[0] ) && ! hx_in( b[0], "+-." ) );
    std::string s; for ( int i = 0; i < 22; ++i ) s += ( i == k ? b : std::string( nums[i] ) ) + ( i % 3 == 2 ? "\n" : " " );
    put( "c.krtd", s );
    sx_assert( HX_THROWS( read_krtd_file( "c.krtd" ), invalid_data ) );
    sx_reach( "malformed" );
    break;
  }
  case 3:
  {
    ::mkdir( "dir", 0700 ); ::mkdir( "dir/x.krtd", 0700 ); put( "plain", "" );
    switch ( sx_choice( "path", 4 ) )
    {
    case 0: sx_assert( HX_THROWS( read_krtd_file( "none.krtd" ), file_not_found_exception ) ); sx_assert( HX_THROWS( read_krtd_file( "y.png", "dir" ), file_not_found_exception ) ); sx_reach( "absent" ); break;
    case 1: sx_assert( HX_THROWS( read_krtd_file( "dir" ), file_not_found_exception ) ); sx_assert( HX_THROWS( read_krtd_file( "x.png", "dir" ), file_not_found_exception ) ); sx_assert( HX_THROWS( write_krtd_file( simple_camera(), "dir" ), file_write_exception ) ); sx_reach( "directory" ); break;
    case 2: sx_assert( HX_THROWS( write_krtd_file( simple_camera(), "plain/x.krtd" ), file_write_exception ) ); sx_reach( "unwritable" ); break;
    case 3: sx_assert( HX_THROWS( write_krtd_file( simple_camera(), std::string( 300, 'f' ) ), file_write_exception ) ); sx_reach( "unwritable" ); break;
    }
    break;
  }
  }
}
