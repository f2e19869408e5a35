// SX-SOURCES: vital/types/camera_intrinsics.cxx vital/exceptions/*.cxx
// SX-REACH: matrix map map-3d unmap from-matrix copy distort-2 distort-4 distort-8 undistort text
// SX-ASSUME: focal length, aspect ratio, depths and the denominator of the rational distortion are powers of two, every other number an integer in the stated range, so that all arithmetic is exact; the convergence of undistort with coefficients is evaluated at fixed points only
#include "hx.h"
#include <vital/types/camera_intrinsics.h>
#include <sstream>
#include <cmath>
using namespace kwiver::vital;
static const double p2[] = { 1, 2, 0.5, 1024 };
static double pw( const char* nm, int k ) { return p2[sx_choice( nm, k )]; }
static Eigen::VectorXd coeffs( int n, const int* v ) { Eigen::VectorXd d( n ); for ( int i = 0; i < n; ++i ) d[i] = v[i]; return d; }
static bool same( camera_intrinsics const& a, camera_intrinsics const& b )
{
  bool ok = a.focal_length() == b.focal_length();
  ok &= a.principal_point().x() == b.principal_point().x();
  ok &= a.principal_point().y() == b.principal_point().y();
  ok &= a.aspect_ratio() == b.aspect_ratio();
  ok &= a.skew() == b.skew();
  std::vector< double > x = a.dist_coeffs(), y = b.dist_coeffs();
  if ( x.size() != y.size() ) return false;
  for ( size_t i = 0; i < x.size(); ++i ) ok &= x[i] == y[i];
  return ok;
}
static void linear()
{
  int big = sx_param( "coordinate", 2000, 20000 );
  double f = pw( "focal length", 4 ), a = pw( "aspect ratio", 3 );
  double s = sx_idouble( "skew", -100, 100 ), px = sx_idouble( "px", -big, big ), py = sx_idouble( "py", -big, big );
  simple_camera_intrinsics k( f, vector_2d( px, py ), a, s );
  matrix_3x3d K = k.as_matrix();
  double want[3][3] = { { f, s, px }, { 0, f / a, py }, { 0, 0, 1 } };
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) sx_assert( K( i, j ) == want[i][j] );
  sx_reach( "matrix" );
  double x = sx_idouble( "x", -big, big ), y = sx_idouble( "y", -big, big );
  vector_2d p = k.map( vector_2d( x, y ) );
  sx_assert( p.x() == x * f + y * s + px && p.y() == y * f / a + py );
  sx_reach( "map" );
  double z = pw( "depth", 3 ) * ( sx_choice( "behind", 2 ) ? -1 : 1 );
  vector_2d q = k.map( vector_3d( x * z, y * z, z ) );
  sx_assert( q.x() == x * f + y * s + px && q.y() == y * f / a + py );
  sx_reach( "map-3d" );
  vector_2d n = k.unmap( p );
  sx_assert( n.x() == x && n.y() == y );
  vector_2d d = k.distort( vector_2d( x, y ) ), u = k.undistort( vector_2d( x, y ) );
  sx_assert( d.x() == x && d.y() == y && u.x() == x && u.y() == y );
  sx_reach( "unmap" );
  simple_camera_intrinsics again( K );
  sx_assert( same( again, k ) );
  sx_reach( "from-matrix" );
}
static void copies()
{
  int v[8]; for ( int i = 0; i < 8; ++i ) v[i] = (int)sx_range( "d", -999, 999 );
  int n = sx_choice( "coefficients", 9 );
  double f = sx_idouble( "f", 1, 5000 ), a = sx_idouble( "a", 1, 50 ), s = sx_idouble( "s", -99, 99 ), px = sx_idouble( "px", -999, 999 ), py = sx_idouble( "py", -999, 999 );
  simple_camera_intrinsics k( f, vector_2d( px, py ), a, s, coeffs( n, v ) );
  sx_assert( k.focal_length() == f && k.principal_point().x() == px && k.principal_point().y() == py && k.aspect_ratio() == a && k.skew() == s );
  std::vector< double > d = k.dist_coeffs(); sx_assert( (int)d.size() == n );
  for ( int i = 0; i < n; ++i ) sx_assert( d[i] == v[i] );
  camera_intrinsics_sptr c = k.clone();
  simple_camera_intrinsics b( static_cast< camera_intrinsics const& >( k ) ), e( k ), m; m = k;
  sx_assert( same( *c, k ) && same( b, k ) && same( e, k ) && same( m, k ) );
  // a copy is detached
  k.set_focal_length( f + 1 ); k.set_skew( s + 1 ); k.set_aspect_ratio( a + 1 ); k.set_principal_point( vector_2d( px + 1, py + 2 ) ); k.set_dist_coeffs( coeffs( 1, v ) );
  sx_assert( k.get_focal_length() == f + 1 && k.get_skew() == s + 1 && k.get_aspect_ratio() == a + 1 && k.get_principal_point().x() == px + 1 && k.get_principal_point().y() == py + 2 && k.get_dist_coeffs().rows() == 1 );
  sx_assert( c->focal_length() == f && c->skew() == s && c->aspect_ratio() == a && c->principal_point().x() == px && c->principal_point().y() == py && (int)c->dist_coeffs().size() == n );
  sx_assert( b.focal_length() == f && (int)b.dist_coeffs().size() == n );
  simple_camera_intrinsics z;
  sx_assert( z.focal_length() == 1 && z.aspect_ratio() == 1 && z.skew() == 0 && z.principal_point().x() == 0 && z.principal_point().y() == 0 && z.dist_coeffs().empty() );
  sx_reach( "copy" );
}
static void distortion()
{
  int n = sx_choice( "coefficients", 9 ), lim = sx_param( "normalised coordinate", 6, 12 );
  double x, y, d[8];
  for ( int i = 0; i < 8; ++i ) d[i] = (int)sx_range( "d", -50, 50 );
  if ( n < 8 ) { x = sx_idouble( "x", -lim, lim ); y = sx_idouble( "y", -lim, lim ); }
  else { static const int xs[][2] = { { 1, 0 }, { 0, -1 }, { 1, 1 }, { -1, 1 }, { 2, 1 } }; int k = sx_choice( "point", 5 ); x = xs[k][0]; y = xs[k][1]; }
  double r2 = x * x + y * y, r4 = r2 * r2, r6 = r4 * r2, den = 1;
  if ( n == 8 )
  {
    // choose the rational coefficients so that the denominator is a power of two
    den = pw( "denominator", 3 );
    if ( r2 == 5 ) { d[5] = 0; d[6] = 0; d[7] = 0; den = 1; }
    else d[5] = ( ( den - 1 ) - r4 * d[6] - r6 * d[7] ) / r2;
  }
  Eigen::VectorXd dv( n ); for ( int i = 0; i < n; ++i ) dv[i] = d[i];
  simple_camera_intrinsics k( 1, vector_2d( 0, 0 ), 1, 0, dv );
  double scale = 1, ox = 0, oy = 0;
  if ( n > 0 ) scale += d[0] * r2;
  if ( n > 1 ) scale += d[1] * r4;
  if ( n > 4 ) scale += d[4] * r6;
  if ( n > 7 ) scale = scale / den;
  if ( n > 3 ) { ox = 2 * d[2] * x * y + d[3] * ( r2 + 2 * x * x ); oy = d[2] * ( r2 + 2 * y * y ) + 2 * d[3] * x * y; }
  vector_2d p = k.distort( vector_2d( x, y ) );
  sx_assert( p.x() == x * scale + ox ); sx_assert( p.y() == y * scale + oy );
  vector_2d q = k.map( vector_2d( x, y ) );
  sx_assert( q.x() == p.x() && q.y() == p.y() );
  if ( n == 2 ) sx_reach( "distort-2" );
  if ( n == 4 ) sx_reach( "distort-4" );
  if ( n == 8 ) sx_reach( "distort-8" );
}
static void undistortion()
{
  static const double set[][8] = { { -0.05 }, { 0.05, 0.01 }, { -0.03, 0.01, 0.02, -0.015 }, { 0.02, 0.01, -0.02, 0.03, 0.005 }, { 0.02, 0.01, 0.02, 0.03, 0.005, 0.01, -0.01, 0.004 }, { 0.1, -0.05, 0, 0, 0.02, 0.1, 0.15, 0.1 }, { 0.05, 0.02, 0.01, -0.01, 0.02, -0.05, 0.1, 0.05 }, { -0.05, 0.05, 0, 0, 0.05, 0.05, 0.02, -0.06 } };
  static const int len[] = { 1, 2, 4, 5, 8, 8, 8, 8 };
  static const double pts[][2] = { { 0, 0 }, { 0.3, -0.2 }, { -0.1, 0.45 }, { 0.5, 0.5 }, { 0.6, 0.5 } };
  int k = sx_choice( "set", 8 ), p = sx_choice( "point", 5 );
  Eigen::VectorXd dv( len[k] ); for ( int i = 0; i < len[k]; ++i ) dv[i] = set[k][i];
  simple_camera_intrinsics c( 1, vector_2d( 0, 0 ), 1, 0, dv );
  vector_2d pt( pts[p][0], pts[p][1] ), u = c.undistort( c.distort( pt ) ), r = c.unmap( c.map( pt ) );
  sx_assert( std::fabs( u.x() - pt.x() ) < 1e-11 && std::fabs( u.y() - pt.y() ) < 1e-11 );
  sx_assert( std::fabs( r.x() - pt.x() ) < 1e-11 && std::fabs( r.y() - pt.y() ) < 1e-11 );
  sx_reach( "undistort" );
}
static void text()
{
  int v[8]; int n = sx_choice( "coefficients", 6 ), lead = sx_choice( "leading zero", 2 );
  for ( int i = 0; i < 8; ++i ) v[i] = i < 2 ? (int)sx_range( "d", -9, 9 ) : i + 3;
  if ( lead ) v[0] = 0;
  if ( n == 1 ) sx_assume( v[0] != 0 );  // a lone zero stands for no coefficients
  simple_camera_intrinsics k( pw( "f", 3 ), vector_2d( sx_idouble( "px", 0, 99 ), 7 ), pw( "a", 2 ), sx_idouble( "s", -9, 9 ), coeffs( n, v ) ), r;
  std::stringstream s; s << k << "\n";
  int more = sx_choice( "followed by", 2 ); if ( more ) s << "42\n";
  s >> r;
  sx_assert( ! s.fail() && same( k, r ) );
  if ( more ) { int left = 0; s >> left; sx_assert( left == 42 ); }
  sx_reach( "text" );
}
void sx_main()
{
  switch ( sx_choice( "what", 5 ) ) { case 0: linear(); break; case 1: copies(); break; case 2: distortion(); break; case 3: undistortion(); break; default: text(); }
}
