// SX-SOURCES: vital/types/rotation.cxx vital/exceptions/*.cxx
// SX-REACH: angle-forms interpolate apply compose compose-apply inverse from-matrix precision text equality matrix-of-any small-turn
// SX-ASSUME: rotations are the 24 of the cube (the quaternions of both signs, 24), whose arithmetic is exact in floating point; vectors are arbitrary integers within the stated range; the angle forms (axis and angle, Rodrigues vector, yaw-pitch-roll) and interpolation, which need sines and cosines, are evaluated at those rotations and pairs of them within a tolerance, and at turns by powers of two about the coordinate axes
#include "geom.h"
#include <vital/types/rotation.h>
#include <vital/io/eigen_io.h>
#include <sstream>
#include <cmath>
using namespace kwiver::vital;
template < typename T > static rotation_< T > mk( iquat q )
{ return rotation_< T >( Eigen::Quaternion< T >( q.w * T( 0.5 ), q.x * T( 0.5 ), q.y * T( 0.5 ), q.z * T( 0.5 ) ) ); }
template < typename T > static bool is( Eigen::Matrix< T, 3, 3 > const& m, imat r )
{ bool ok = true; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) ok &= m( i, j ) == T( r.m[i][j] ); return ok; }
template < typename T > static bool near( rotation_< T > const& a, rotation_< T > const& b )
{ Eigen::Matrix< T, 3, 3 > x( a ), y( b ); bool ok = true; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) ok &= std::fabs( x( i, j ) - y( i, j ) ) < ( sizeof( T ) == 8 ? 1e-6 : 2e-3 ); return ok; }
template < typename T > static void check()
{
  typedef Eigen::Matrix< T, 3, 1 > vec; typedef Eigen::Matrix< T, 3, 3 > mat;
  int big = sx_param( "coordinate", 1000, 1000000 );
  int what = sx_choice( "what", 7 );
  iquat qa = hx_unit_quaternion( what < 2 || what == 4 || what == 5 ? sx_choice( "rotation", 24 ) : 0 );
  imat a = hx_matrix_of( qa );
  rotation_< T > ra = mk< T >( qa );
  vec v( T( sx_range( "x", -big, big ) ), T( sx_range( "y", -big, big ) ), T( sx_range( "z", -big, big ) ) );
  double want[3]; hx_apply( a, v, want );
  switch ( what )
  {
  case 0:
  {
    vec r = ra * v;
    for ( int i = 0; i < 3; ++i ) sx_assert( r[i] == T( want[i] ) );
    vec mr = mat( ra ) * v;
    for ( int i = 0; i < 3; ++i ) sx_assert( mr[i] == T( want[i] ) );
    sx_assert( is< T >( mat( ra ), a ) );
    sx_reach( "apply" );
    vec back = ra.inverse() * r, back2 = ra * ( ra.inverse() * v );
    for ( int i = 0; i < 3; ++i ) sx_assert( back[i] == v[i] && back2[i] == v[i] );
    sx_reach( "inverse" );
    mat plain = mat( ra ); rotation_< T > rm( plain );
    mat again = rm;
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) sx_assert( std::fabs( again( i, j ) - T( a.m[i][j] ) ) < 1e-5 );
    sx_reach( "from-matrix" );
    break;
  }
  case 1:
  {
    iquat qb = hx_unit_quaternion( sx_choice( "second rotation", 24 ) );
    rotation_< T > rb = mk< T >( qb ), rc = ra * rb;
    imat c = hx_mul( a, hx_matrix_of( qb ) );
    sx_assert( is< T >( mat( rc ), c ) );
    sx_reach( "compose" );
    vec x = rc * v, y = ra * ( rb * v );
    for ( int i = 0; i < 3; ++i ) sx_assert( x[i] == y[i] );
    sx_reach( "compose-apply" );
    bool same = qa.w == qb.w && qa.x == qb.x && qa.y == qb.y && qa.z == qb.z;
    sx_assert( ( ra == rb ) == same && ( ra != rb ) == ! same );
    sx_reach( "equality" );
    break;
  }
  case 2:
  {
    // arbitrary components, not only unit ones, are kept
    // a single one first, which is decided without the solver
    bool any = sx_choice( "components", 2 );
    Eigen::Quaternion< T > q( 4, 2, -6, 10 );
    if ( any ) { q = Eigen::Quaternion< T >( T( sx_range( "w", -500, 500 ) ), T( sx_range( "i", -500, 500 ) ), T( sx_range( "j", -500, 500 ) ), T( sx_range( "k", -500, 500 ) ) ); }
    rotation_< T > r( q );
    sx_assert( r.quaternion().w() == q.w() && r.quaternion().x() == q.x() && r.quaternion().y() == q.y() && r.quaternion().z() == q.z() );
    rotation_< double > d( r ); rotation_< float > f( r );
    sx_assert( d.quaternion().w() == q.w() && d.quaternion().x() == q.x() && d.quaternion().y() == q.y() && d.quaternion().z() == q.z() );
    sx_assert( f.quaternion().w() == q.w() && f.quaternion().x() == q.x() && f.quaternion().y() == q.y() && f.quaternion().z() == q.z() );
    rotation_< T > copy( q ); sx_assert( copy == r && ! ( copy != r ) );
    Eigen::Matrix< T, 4, 1 > coeffs = q.coeffs(); rotation_< T > four( coeffs );
    sx_assert( four == r );
    sx_reach( "precision" );
    if ( sizeof( T ) == 8 )
    {
      // the matrix is the rotation, for every quaternion
      vec x = r * v, y = mat( r ) * v;
      for ( int i = 0; i < 3; ++i ) sx_assert( x[i] == y[i] );
      sx_reach( "matrix-of-any" );
    }
    break;
  }
  case 3:
  {
    // text carries six digits
    Eigen::Quaternion< T > q( T( sx_range( "w", -500000, 500000 ) ), T( sx_range( "i", -9, 9 ) ) / 2, T( sx_range( "j", 0, 99 ) ), T( sx_range( "k", -9, 0 ) ) );
    rotation_< T > r( q );
    std::stringstream s; s << r; rotation_< T > t; s >> t;
    sx_assert( ! s.fail() && t == r );
    sx_reach( "text" );
    break;
  }
  case 4:
  {
    static const T ang[] = { T( 0 ), T( 0.5 ), T( 2 ), T( 3.125 ) };
    rotation_< T > rs[2] = { ra, ra * rotation_< T >( ang[sx_choice( "further angle", 4 )], vec( 2, -1, 2 ) ) };
    for ( rotation_< T > const& r : rs )
    {
      T an = r.angle(); vec ax = r.axis(), rod = r.rodrigues();
      sx_assert( near( rotation_< T >( an, ax ), r ) && near( rotation_< T >( rod ), r ) && near( rotation_< T >( an, vec( ax * T( 4 ) ) ), r ) );
      sx_assert( std::fabs( ax.norm() - 1 ) < 1e-4 && std::fabs( rod.norm() - std::fabs( an ) ) < 1e-3 && std::fabs( an ) < T( 3.1417 ) );
      T trace = mat( r ).trace(); sx_assert( std::fabs( 1 + 2 * std::cos( an ) - trace ) < 1e-3 );
      T yaw, pitch, roll; r.get_yaw_pitch_roll( yaw, pitch, roll );
      if ( std::fabs( std::fabs( pitch ) - T( 1.5708 ) ) > 0.01 ) sx_assert( near( rotation_< T >( yaw, pitch, roll ), r ) ); // elsewhere the three angles are not unique
    }
    sx_reach( "angle-forms" );
    break;
  }
  case 6:
  {
    // turns by as little as one likes are still turns
    static const int down[2][6] = { { 3, 10, 20, 30, 40, 60 }, { 3, 20, 60, 120, 250, 400 } };
    T small = T( std::ldexp( 1.0, -down[sizeof( T ) == 8][sx_choice( "magnitude", 6 )] ) );
    int axis = sx_choice( "axis", 3 ); bool neg = sx_choice( "negative", 2 );
    vec w( 0, 0, 0 ); w[axis] = neg ? -small : small;
    rotation_< T > r( w ); vec u( 0, 0, 0 ); u[axis] = 1; rotation_< T > s( neg ? -small : small, u );
    vec h = r.rodrigues(), g = s.rodrigues();
    for ( int i = 0; i < 3; ++i )
    {
      sx_assert( std::fabs( r.quaternion().vec()[i] - w[i] / 2 ) <= small / 500 && std::fabs( s.quaternion().vec()[i] - w[i] / 2 ) <= small / 500 );
      if ( sizeof( T ) == 8 ) sx_assert( std::fabs( h[i] - w[i] ) <= small / 500 && std::fabs( g[i] - w[i] ) <= small / 500 );
    }
    sx_reach( "small-turn" );
    break;
  }
  case 5:
  {
    iquat qb = hx_unit_quaternion( sx_choice( "second rotation", 24 ) ); rotation_< T > rb = mk< T >( qb ), d = ra.inverse() * rb;
    sx_assert( near( interpolate_rotation( ra, rb, T( 0 ) ), ra ) && near( interpolate_rotation( ra, rb, T( 1 ) ), rb ) );
    int n = 1 + sx_choice( "steps", 3 ); std::vector< rotation_< T > > v( 1, ra ); interpolated_rotations( ra, rb, n, v );
    sx_assert( (int)v.size() == n + 1 && v[0] == ra );
    v.push_back( rb );
    for ( int i = 0; i <= n; ++i ) { rotation_< T > step = v[i].inverse() * v[i + 1]; sx_assert( std::fabs( std::fabs( step.angle() ) - std::fabs( d.angle() ) / ( n + 1 ) ) < 1e-3 ); }
    sx_reach( "interpolate" );
    break;
  }
  }
}
void sx_main() { if ( sx_bool( "float" ) ) check< float >(); else check< double >(); }
