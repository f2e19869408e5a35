// SX-SOURCES: vital/types/similarity.cxx vital/types/rotation.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp
// SX-REACH: apply matrix inverse compose not-a-similarity from-matrix text precision equality
// SX-ASSUME: rotations are the 24 of the cube and scales powers of two, whose arithmetic is exact; translations and points are integers within the stated range
#include "geom.h"
#include <vital/types/similarity.h>
#include <vital/io/eigen_io.h>
#include <sstream>
#include <cmath>
using namespace kwiver::vital;
static const double p2[] = { 1, 2, 0.5, 8 };
template < typename T > static rotation_< T > mk( iquat q )
{ return rotation_< T >( Eigen::Quaternion< T >( q.w * T( 0.5 ), q.x * T( 0.5 ), q.y * T( 0.5 ), q.z * T( 0.5 ) ) ); }
template < typename T > static void run()
{
  typedef Eigen::Matrix< T, 3, 1 > vec; typedef Eigen::Matrix< T, 4, 4 > mat4;
  int big = sx_param( "coordinate", 1000, 10000 );
  int what = sx_choice( "what", 4 );
  iquat qa = hx_unit_quaternion( sx_choice( "rotation", 24 ) ); imat a = hx_matrix_of( qa );
  T s = T( p2[sx_choice( "scale", 3 )] );
  vec t( T( sx_range( "tx", -big, big ) ), T( sx_range( "ty", -big, big ) ), T( sx_range( "tz", -big, big ) ) );
  vec v( T( sx_range( "x", -big, big ) ), T( sx_range( "y", -big, big ) ), T( sx_range( "z", -big, big ) ) );
  similarity_< T > x( s, mk< T >( qa ), t );
  sx_assert( x.scale() == s && x.translation() == t && x.rotation() == mk< T >( qa ) );
  double r[3]; hx_apply( a, v, r );
  if ( what == 0 )
  {
    vec y = x * v;
    for ( int i = 0; i < 3; ++i ) sx_assert( y[i] == T( s * r[i] ) + t[i] );
    sx_reach( "apply" );
    mat4 m = mat4( x );
    for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) sx_assert( m( i, j ) == s * T( a.m[i][j] ) ); sx_assert( m( i, 3 ) == t[i] && m( 3, i ) == 0 ); }
    sx_assert( m( 3, 3 ) == 1 );
    sx_reach( "matrix" );
    similarity_< T > in = x.inverse();
    vec back = in * y, there = x * ( in * v );
    for ( int i = 0; i < 3; ++i ) sx_assert( back[i] == v[i] && there[i] == v[i] );
    sx_assert( in.scale() == T( 1 ) / s );
    sx_reach( "inverse" );
    similarity_< double > d( x ); similarity_< float > f( x );
    for ( int i = 0; i < 3; ++i ) sx_assert( d.translation()[i] == double( t[i] ) && f.translation()[i] == float( t[i] ) );
    sx_assert( d.scale() == double( s ) && f.scale() == float( s ) && d.rotation() == mk< double >( qa ) && f.rotation() == mk< float >( qa ) );
    sx_reach( "precision" );
  }
  else if ( what == 1 )
  {
    iquat qb = hx_unit_quaternion( sx_choice( "second rotation", 24 ) );
    T sb = T( p2[sx_choice( "second scale", 2 )] );
    vec u( T( sx_range( "ux", -big, big ) ), T( sx_range( "uy", -big, big ) ), T( sx_range( "uz", -big, big ) ) );
    similarity_< T > y( sb, mk< T >( qb ), u ), c = x * y;
    vec p = c * v, q = x * ( y * v );
    for ( int i = 0; i < 3; ++i ) sx_assert( p[i] == q[i] );
    mat4 m = mat4( c ); double ru[3]; hx_apply( a, u, ru ); imat ab = hx_mul( a, hx_matrix_of( qb ) );
    for ( int i = 0; i < 3; ++i ) { for ( int j = 0; j < 3; ++j ) sx_assert( m( i, j ) == s * sb * T( ab.m[i][j] ) ); sx_assert( m( i, 3 ) == T( s * ru[i] ) + t[i] ); }
    sx_assert( c.scale() == s * sb );
    sx_reach( "compose" );
    bool sameq = qa.w == qb.w && qa.x == qb.x && qa.y == qb.y && qa.z == qb.z;
    bool same = ( s == sb ) & sameq & ( t[0] == u[0] ) & ( t[1] == u[1] ) & ( t[2] == u[2] );
    bool e = ( x == y ), ne = ( x != y );
    sx_assert( e == same && ne == ! same );
    sx_reach( "equality" );
  }
  else if ( what == 2 )
  {
    mat4 m = mat4( x );
    int bad = sx_choice( "defect", 3 );
    if ( bad == 1 )
    {
      // a bottom row other than 0 0 0 1
      T b[4]; for ( int i = 0; i < 4; ++i ) { b[i] = T( sx_range( "bottom", -3, 3 ) ); m( 3, i ) = b[i]; }
      sx_assume( ( b[0] != 0 ) | ( b[1] != 0 ) | ( b[2] != 0 ) | ( b[3] != 1 ) );
    }
    if ( bad == 2 ) { T k = sx_choice( "k", 2 ) ? T( -1 ) : T( 0 ); for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) m( i, j ) *= k; }
    similarity_< T > y( m );
    if ( bad )
    {
      // what is no similarity becomes the identity
      vec z = y * v;
      for ( int i = 0; i < 3; ++i ) sx_assert( z[i] == v[i] );
      sx_assert( y.scale() == 1 && y.translation()[0] == 0 && y.translation()[1] == 0 && y.translation()[2] == 0 );
      sx_reach( "not-a-similarity" );
    }
    else
    {
      for ( int i = 0; i < 3; ++i ) sx_assert( y.translation()[i] == t[i] );
      sx_assert( std::fabs( y.scale() - s ) < s * T( 1e-5 ) );
      Eigen::Matrix< T, 3, 3 > rm( y.rotation() );
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) sx_assert( std::fabs( rm( i, j ) - T( a.m[i][j] ) ) < T( 1e-5 ) );
      sx_reach( "from-matrix" );
    }
  }
  else
  {
    sx_assume( ( t[0] >= 0 ) & ( t[0] < 100 ) & ( t[1] == 3 ) );
    std::stringstream o; o << x; similarity_< T > y; o >> y;
    sx_assert( ! o.fail() && y == x );
    sx_reach( "text" );
    similarity_< T > z; vec w = z * v;
    for ( int i = 0; i < 3; ++i ) sx_assert( w[i] == v[i] );
  }
}
void sx_main() { if ( sx_bool( "float" ) ) run< float >(); else run< double >(); }
