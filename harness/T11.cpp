// SX-SOURCES: vital/types/camera.cxx vital/types/camera_intrinsics.cxx vital/types/rotation.cxx vital/types/similarity.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp
// SX-REACH: matrix project project-distorted depth translation copy default-intrinsics look-at text fine
// SX-ASSUME: rotations are the 24 of the cube, focal length, aspect ratio and the depth of projected points powers of two, so that all arithmetic is exact; coordinates are integers within the stated range; look_at is evaluated for directions along the axes from a fixed centre
#include "geom.h"
#include <vital/types/camera.h>
#include <sstream>
#include <cmath>
using namespace kwiver::vital;
static rotation_d mk( iquat q ) { return rotation_d( Eigen::Quaterniond( q.w * 0.5, q.x * 0.5, q.y * 0.5, q.z * 0.5 ) ); }
static int big;
static vector_3d vec( const char* nm ) { double a = sx_idouble( nm, -big, big ), b = sx_idouble( nm, -big, big ), c = sx_idouble( nm, -big, big ); return vector_3d( a, b, c ); }
static vector_3d turn( imat m, vector_3d const& v ) { double r[3]; hx_apply( m, v, r ); return vector_3d( r[0], r[1], r[2] ); }
static imat flip( imat m ) { imat r; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) r.m[i][j] = m.m[j][i]; return r; }
static bool same( vector_3d const& a, vector_3d const& b ) { bool x = a[0] == b[0], y = a[1] == b[1], z = a[2] == b[2]; return x & y & z; }
static bool same( camera_intrinsics const& a, camera_intrinsics const& b )
{
  bool ok = a.focal_length() == b.focal_length(); ok &= a.principal_point().x() == b.principal_point().x(); ok &= a.principal_point().y() == b.principal_point().y();
  ok &= a.aspect_ratio() == b.aspect_ratio(); ok &= a.skew() == b.skew();
  std::vector< double > x = a.dist_coeffs(), y = b.dist_coeffs();
  if ( x.size() != y.size() ) return false;
  for ( size_t i = 0; i < x.size(); ++i ) ok &= x[i] == y[i];
  return ok;
}
static void fine()
{
  // small changes count
  double e = std::ldexp( 1., -sx_choice( "size", 5 ) * 12 ), was = sx_choice( "before", 2 ) ? 3 : 0; int at = sx_choice( "axis", 3 );
  iquat q = hx_unit_quaternion( sx_choice( "rotation", 24 ) ); imat R = hx_matrix_of( q );
  vector_3d C( was, -was, 2 * was ); simple_camera cam( C, mk( q ) );
  vector_3d t = turn( R, C ), n = -t; n[at] += e;
  cam.set_translation( n );
  for ( int i = 0; i < 3; ++i ) sx_assert( cam.translation()[i] == n[i] );
  vector_3d back = turn( flip( R ), n );
  for ( int i = 0; i < 3; ++i ) sx_assert( cam.center()[i] == -back[i] );
  vector_3d D = C; D[at] += e; cam.set_center( D );
  for ( int i = 0; i < 3; ++i ) sx_assert( cam.center()[i] == D[i] );
  sx_reach( "fine" );
}
void sx_main()
{
  big = sx_param( "coordinate", 1000, 10000 );
  int what = sx_choice( "what", 6 );
  if ( what == 5 ) { fine(); return; }
  iquat q = hx_unit_quaternion( what < 2 ? sx_choice( "rotation", 24 ) : what == 3 ? 0 : ( 5 * sx_choice( "some rotation", sx_param( "rotations for copying and text", 6, 24 ) ) ) % 24 ); imat R = hx_matrix_of( q );
  // focal length, aspect ratio, depth
  static const double prof[][3] = { { 256, 1, 2 }, { 2, 2, -1 }, { 0.5, 1, 0.5 }, { 1, 2, -0.5 } };
  int pr = what == 0 ? sx_choice( "focal length, aspect ratio and depth", sx_param( "combinations of focal length, aspect ratio and depth", 2, 4 ) ) : 0;
  double f = prof[pr][0], a = prof[pr][1], s = sx_idouble( "skew", -20, 20 ), px = sx_idouble( "px", -big, big ), py = sx_idouble( "py", -big, big );
  vector_3d C = vec( "centre" );
  if ( what == 0 )
  {
    int dist = sx_choice( "distortion", 2 );
    Eigen::VectorXd d; if ( dist ) { d.resize( 4 ); for ( int i = 0; i < 4; ++i ) d[i] = sx_idouble( "d", -9, 9 ); }
    simple_camera_intrinsics in( f, vector_2d( px, py ), a, s, d );
    simple_camera cam( C, mk( q ), in );
    matrix_3x4d P = cam.as_matrix();
    double K[3][3] = { { f, s, px }, { 0, f / a, py }, { 0, 0, 1 } };
    vector_3d t = turn( R, C );
    for ( int i = 0; i < 3; ++i )
    {
      for ( int j = 0; j < 3; ++j ) sx_assert( P( i, j ) == K[i][0] * R.m[0][j] + K[i][1] * R.m[1][j] + K[i][2] * R.m[2][j] );
      sx_assert( P( i, 3 ) == -( K[i][0] * t[0] + K[i][1] * t[1] + K[i][2] * t[2] ) );
    }
    sx_reach( "matrix" );
    // the point with the camera coordinates X, Y times the depth, and the depth
    double X = sx_idouble( "X", -50, 50 ), Y = sx_idouble( "Y", -50, 50 ), Z = prof[pr][2];
    vector_3d pt = turn( flip( R ), vector_3d( X * Z, Y * Z, Z ) ) + C;
    vector_2d p = cam.project( pt );
    double u = X, v = Y;
    if ( dist )
    {
      double r2 = X * X + Y * Y, sc = 1 + d[0] * r2 + d[1] * r2 * r2;
      u = X * sc + 2 * d[2] * X * Y + d[3] * ( r2 + 2 * X * X ); v = Y * sc + d[2] * ( r2 + 2 * Y * Y ) + 2 * d[3] * X * Y;
    }
    sx_assert( p.x() == f * u + s * v + px ); sx_assert( p.y() == f * v / a + py );
    sx_reach( dist ? "project-distorted" : "project" );
    vector_3d any = vec( "point" );
    sx_assert( cam.depth( any ) == turn( R, any - C )[2] );
    sx_assert( cam.depth( pt ) == Z );
    sx_reach( "depth" );
  }
  else if ( what == 1 )
  {
    simple_camera cam( C, mk( q ) );
    vector_3d t = turn( R, C ), n = vec( "translation" );
    sx_assert( same( cam.translation(), -t ) && same( cam.center(), C ) && same( cam.get_center(), C ) );
    sx_assert( cam.rotation() == mk( q ) && cam.get_rotation() == mk( q ) );
    cam.set_translation( n );
    sx_assert( same( cam.translation(), n ) && same( cam.center(), -turn( flip( R ), n ) ) );
    iquat q2 = hx_unit_quaternion( ( 5 * sx_choice( "second rotation", sx_param( "second rotations", 6, 24 ) ) ) % 24 );
    vector_3d c = cam.center();
    cam.set_rotation( mk( q2 ) );
    sx_assert( same( cam.center(), c ) && same( cam.translation(), -turn( hx_matrix_of( q2 ), c ) ) );
    cam.set_center( C ); sx_assert( same( cam.center(), C ) );
    sx_reach( "translation" );
  }
  else if ( what == 2 )
  {
    camera_intrinsics_sptr none;
    simple_camera c0, c1( C, mk( q ) ), c2( C, mk( q ), none ), c3( C, mk( q ), camera_intrinsics_sptr( new simple_camera_intrinsics( 5, vector_2d( px, py ) ) ) );
    simple_camera_intrinsics def;
    sx_assert( c0.intrinsics() && same( *c0.intrinsics(), def ) && c1.intrinsics() && same( *c1.intrinsics(), def ) && c2.intrinsics() && same( *c2.intrinsics(), def ) );
    sx_assert( same( c0.center(), vector_3d( 0, 0, 0 ) ) && c0.rotation() == rotation_d() );
    sx_assert( c3.intrinsics()->focal_length() == 5 );
    c3.set_intrinsics( none ); sx_assert( c3.intrinsics() && same( *c3.intrinsics(), def ) && same( *c3.get_intrinsics(), def ) );
    sx_reach( "default-intrinsics" );
    simple_camera_intrinsics in( 7, vector_2d( px, py ), a, s );
    simple_camera cam( C, mk( q ), in );
    in.set_focal_length( 9 ); sx_assert( cam.intrinsics()->focal_length() == 7 ); // by value: detached
    covariance_3d cov; for ( int i = 0; i < 3; ++i ) for ( int j = i; j < 3; ++j ) cov( i, j ) = sx_idouble( "covariance", -9, 9 );
    cam.set_center_covar( cov );
    camera_sptr cl = cam.clone(); simple_camera b( static_cast< camera const& >( cam ) ), e( cam ), m; m = cam;
    cam.set_center( vec( "other" ) ); cam.set_rotation( rotation_d() ); cam.set_intrinsics( none ); cam.set_center_covar( covariance_3d() );
    camera const* all[] = { cl.get(), &b, &e, &m };
    for ( int k = 0; k < 4; ++k )
    {
      sx_assert( same( all[k]->center(), C ) && all[k]->rotation() == mk( q ) && all[k]->intrinsics()->focal_length() == 7 && all[k]->intrinsics()->skew() == s && all[k]->intrinsics()->principal_point().x() == px );
      covariance_3d cc = all[k]->center_covar();
      for ( int i = 0; i < 3; ++i ) for ( int j = i; j < 3; ++j ) sx_assert( cc( i, j ) == cov( i, j ) && cc( j, i ) == cov( i, j ) );
    }
    sx_reach( "copy" );
  }
  else if ( what == 3 )
  {
    static const double dir[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { -4, 0, 0 }, { 0, -3, 0 }, { 3, 4, 0 }, { 1, 2, 3 }, { -5, 1, -2 }, { 2, -2, 9 } };
    int k = sx_choice( "direction", 8 );
    vector_3d c0( 10, -20, 5 ), d( dir[k][0], dir[k][1], dir[k][2] );
    simple_camera cam( c0, rotation_d(), simple_camera_intrinsics( 100, vector_2d( 50, 60 ) ) );
    cam.look_at( c0 + d );
    double n = d.norm();
    sx_assert( same( cam.center(), c0 ) );
    sx_assert( std::fabs( cam.depth( c0 + d ) - n ) < 1e-8 * n );
    vector_2d p = cam.project( c0 + d );
    sx_assert( std::fabs( p.x() - 50 ) < 1e-6 && std::fabs( p.y() - 60 ) < 1e-6 );
    vector_2d up = cam.project( c0 + d + vector_3d( 0, 0, 0.25 ) );
    sx_assert( std::fabs( up.x() - 50 ) < 1e-6 && up.y() < 60 ); // up is towards smaller rows
    sx_reach( "look-at" );
  }
  else
  {
    double X = sx_idouble( "Cx", -99, 99 ), W = sx_idouble( "ppx", 0, 9 );
    int n = sx_choice( "coefficients", 4 ); Eigen::VectorXd d( n ); for ( int i = 0; i < n; ++i ) d[i] = i == 1 ? sx_idouble( "d", -9, 9 ) : i - 0.25;
    simple_camera cam( vector_3d( X, 7, -3 ), mk( q ), simple_camera_intrinsics( 4, vector_2d( W, 11 ), 2, 0.5, d ) ), r;
    std::stringstream o; o << cam; o >> r;
    sx_assert( ! o.fail() );
    sx_assert( same( r.center(), cam.center() ) );
    matrix_3x3d M( r.rotation() );
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) sx_assert( std::fabs( M( i, j ) - R.m[i][j] ) < 1e-12 );
    sx_assert( same( *r.intrinsics(), *cam.intrinsics() ) );
    sx_reach( "text" );
  }
}
