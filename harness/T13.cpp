// SX-SOURCES: vital/types/homography.cxx vital/exceptions/*.cxx
// SX-REACH: identity map infinity map-any product inverse singular normalise normalise-zero copy precision fine
// SX-ASSUME: matrix elements and points are integers in the stated range; divisors (normalisation, homogeneous coordinate, determinant) are powers of two where a value is compared, so that all arithmetic is exact
#include "hx.h"
#include <vital/types/homography.h>
#include <vital/exceptions/math.h>
using namespace kwiver::vital;
static const double p2[] = { 1, 2, -4, 0.5 };
template < typename T > struct H { typedef Eigen::Matrix< T, 3, 3 > mat; typedef Eigen::Matrix< T, 2, 1 > pt; };
template < typename T > static bool eq( Eigen::Matrix< T, 3, 3 > const& a, Eigen::Matrix< T, 3, 3 > const& b )
{ bool ok = true; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) ok &= a( i, j ) == b( i, j ); return ok; }
template < typename T > static typename H< T >::mat any( const char* nm, int lim )
{ typename H< T >::mat m; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) m( i, j ) = T( sx_range( nm, -lim, lim ) ); return m; }
template < typename T > static void mapping()
{
  typedef typename H< T >::mat mat; typedef typename H< T >::pt pt;
  int lim = sx_param( "element", 50, 200 );
  T x = T( sx_range( "x", -lim, lim ) ), y = T( sx_range( "y", -lim, lim ) );
  if ( sx_choice( "fine", 2 ) )
  {
    // points are mapped as they are given, in double precision
    mat m = mat::Identity(); m( 0, 2 ) = x; m( 1, 2 ) = y; homography_< T > h( m ); homography const& b = h;
    vector_2d p( 1 + sx_idouble( "fine x", 0, 1000 ) / 1099511627776., 2 - sx_idouble( "fine y", 0, 1000 ) / 1099511627776. ), r = b.map( p );
    sx_assert( r[0] == p[0] + double( x ) && r[1] == p[1] + double( y ) );
    sx_reach( "fine" );
    return;
  }
  mat m = any< T >( "h", lim );
  if ( sx_bool( "any" ) )
  {
    // the point is refused exactly when the homogeneous coordinate vanishes
    long w = (long)m( 2, 0 ) * (long)x + (long)m( 2, 1 ) * (long)y + (long)m( 2, 2 );
    homography_< T > h( m );
    bool inf = HX_THROWS( h.map_point( pt( x, y ) ), point_maps_to_infinity ), inf2 = HX_THROWS( h.map( vector_2d( x, y ) ), point_maps_to_infinity );
    sx_assert( inf == ( w == 0 ) ); sx_assert( inf2 == ( w == 0 ) );
    sx_reach( inf ? "infinity" : "map-any" );
    return;
  }
  T w = T( p2[sx_choice( "w", 4 )] );
  m( 2, 2 ) = w - m( 2, 0 ) * x - m( 2, 1 ) * y;
  homography_< T > h( m );
  pt p = h.map_point( pt( x, y ) ); vector_2d q = h.map( vector_2d( x, y ) );
  T ex = ( m( 0, 0 ) * x + m( 0, 1 ) * y + m( 0, 2 ) ) / w, ey = ( m( 1, 0 ) * x + m( 1, 1 ) * y + m( 1, 2 ) ) / w;
  sx_assert( p[0] == ex && p[1] == ey && q[0] == ex && q[1] == ey );
  sx_reach( "map" );
}
template < typename T > static void algebra()
{
  typedef typename H< T >::mat mat;
  int lim = sx_param( "element of a factor", 9, 20 );
  homography_< T > id; sx_assert( eq< T >( id.get_matrix(), mat::Identity() ) ); sx_reach( "identity" );
  mat a = any< T >( "a", 200 ), b = any< T >( "b", 200 );
  homography_< T > ha( a ), hb( b ), hc = ha * hb;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) sx_assert( hc.get_matrix()( i, j ) == a( i, 0 ) * b( 0, j ) + a( i, 1 ) * b( 1, j ) + a( i, 2 ) * b( 2, j ) );
  sx_assert( eq< T >( ha.get_matrix(), a ) && eq< T >( hb.get_matrix(), b ) );
  sx_reach( "product" );
  // every matrix whose determinant is a power of two, up to the bound on its factors
  T e[6]; for ( int i = 0; i < 6; ++i ) e[i] = T( sx_range( "e", -lim, lim ) );
  T d = T( p2[sx_choice( "determinant", 4 )] );
  mat l, u; l << 1, 0, 0, e[0], 1, 0, e[1], e[2], 1; u << d, e[3], e[4], 0, 1, e[5], 0, 0, 1;
  mat m = l * u;
  int perm = sx_choice( "permutation", 3 );
  mat n = m; if ( perm == 1 ) n.row( 0 ).swap( n.row( 1 ) ); else if ( perm == 2 ) { n.row( 0 ).swap( n.row( 2 ) ); n.col( 0 ).swap( n.col( 1 ) ); }
  homography_< T > h( n );
  homography_sptr inv = h.inverse();
  matrix_3x3d nd = n.template cast< double >(), im = inv->matrix(), one = nd * im;
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) sx_assert( one( i, j ) == ( i == j ) );
  sx_assert( eq< T >( h.get_matrix(), n ) );
  sx_reach( "inverse" );
}
template < typename T > static void singular()
{
  typedef typename H< T >::mat mat;
  mat m = any< T >( "m", 20 );
  int r = sx_choice( "row", 3 );
  T k = T( sx_range( "k", -5, 5 ) ), l = T( sx_range( "l", -5, 5 ) );
  for ( int j = 0; j < 3; ++j ) m( r, j ) = k * m( ( r + 1 ) % 3, j ) + l * m( ( r + 2 ) % 3, j );
  homography_< T > h( m );
  sx_assert( HX_THROWS( h.inverse(), non_invertible_matrix ) );
  sx_reach( "singular" );
}
template < typename T > static void rest()
{
  typedef typename H< T >::mat mat;
  mat m = any< T >( "m", 1000 );
  if ( sx_bool( "normalise" ) )
  {
    int z = sx_choice( "corner", 5 ); T c = z == 4 ? T( 0 ) : T( p2[z] );
    m( 2, 2 ) = c;
    homography_< T > h( m );
    homography_sptr n = h.normalize();
    matrix_3x3d nm = n->matrix();
    for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) sx_assert( nm( i, j ) == ( z == 4 ? m( i, j ) : m( i, j ) / c ) );
    sx_assert( eq< T >( h.get_matrix(), m ) );
    sx_reach( z == 4 ? "normalise-zero" : "normalise" );
    return;
  }
  homography_< T > h( m ), c( h );
  homography_sptr cl = h.clone();
  h.get_matrix()( 0, 1 ) += 1;
  matrix_3x3d cm = cl->matrix(), hm = h.matrix();
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
  {
    sx_assert( cm( i, j ) == double( m( i, j ) ) && c.get_matrix()( i, j ) == m( i, j ) );
    sx_assert( hm( i, j ) == double( m( i, j ) ) + ( i == 0 && j == 1 ) );
  }
  sx_reach( "copy" );
  homography_< double > d( c ); homography_< float > f( c );
  homography const& base = c;
  homography_< double > bd( base ); homography_< float > bf( base );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
    sx_assert( d.get_matrix()( i, j ) == double( m( i, j ) ) && f.get_matrix()( i, j ) == float( m( i, j ) ) && bd.get_matrix()( i, j ) == double( m( i, j ) ) && bf.get_matrix()( i, j ) == float( m( i, j ) ) );
  sx_reach( "precision" );
}
template < typename T > static void run()
{ switch ( sx_choice( "what", 4 ) ) { case 0: mapping< T >(); break; case 1: algebra< T >(); break; case 2: singular< T >(); break; default: rest< T >(); } }
void sx_main() { if ( sx_bool( "float" ) ) run< float >(); else run< double >(); }
