// SX-SOURCES: vital/types/essential_matrix.cxx vital/types/fundamental_matrix.cxx vital/types/rotation.cxx vital/exceptions/*.cxx
// SX-REACH: matrix twisted copy precision fundamental nearest
// SX-ASSUME: rotations are the 24 of the cube and translations lie along an axis with a power of two for length, so that all arithmetic is exact; the matrix form is decided at unit length, the decomposition of a given matrix at fixed matrices only
#include "geom.h"
#include <vital/types/essential_matrix.h>
#include <vital/types/fundamental_matrix.h>
#include <cmath>
using namespace kwiver::vital;
template < typename T > static rotation_< T > mk( iquat q )
{ return rotation_< T >( Eigen::Quaternion< T >( q.w * T( 0.5 ), q.x * T( 0.5 ), q.y * T( 0.5 ), q.z * T( 0.5 ) ) ); }
template < typename T > static void run()
{
  typedef Eigen::Matrix< T, 3, 1 > vec; typedef Eigen::Matrix< T, 3, 3 > mat;
  iquat q = hx_unit_quaternion( sx_choice( "rotation", 24 ) ); imat R = hx_matrix_of( q );
  int axis = sx_choice( "axis", 3 ), neg = sx_choice( "sign", 2 );
  vec t( 0, 0, 0 ); static const double len[] = { 1, 4, 0.25 }; t[axis] = T( len[sx_choice( "length", 3 )] ) * ( neg ? -1 : 1 );
  essential_matrix_< T > e( mk< T >( q ), t );
  int u[3] = { 0, 0, 0 }; u[axis] = neg ? -1 : 1;
  int x[3][3] = { { 0, -u[2], u[1] }, { u[2], 0, -u[0] }, { -u[1], u[0], 0 } };
  matrix_3x3d m = e.matrix(); mat cm = e.compute_matrix();
  double want[3][3];
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
  {
    want[i][j] = 0; for ( int k = 0; k < 3; ++k ) want[i][j] += x[i][k] * R.m[k][j];
    sx_assert( m( i, j ) == want[i][j] && cm( i, j ) == T( want[i][j] ) );
  }
  for ( int i = 0; i < 3; ++i ) sx_assert( e.translation()[i] == u[i] && e.get_translation()[i] == T( u[i] ) );
  sx_assert( e.rotation() == mk< double >( q ) && e.get_rotation() == mk< T >( q ) );
  sx_reach( "matrix" );
  // the other rotation gives the same matrix up to sign
  matrix_3x3d tw( e.twisted_rotation() ); mat ctw( e.compute_twisted_rotation() );
  essential_matrix_< T > e2( e.compute_twisted_rotation(), t );
  matrix_3x3d base_tw( static_cast< essential_matrix const& >( e ).essential_matrix::twisted_rotation() );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
  {
    double half = ( i == j ? -1 : 0 ), r = 0; (void)half;
    for ( int k = 0; k < 3; ++k ) r += ( 2 * u[i] * u[k] - ( i == k ) ) * R.m[k][j];
    sx_assert( tw( i, j ) == r && ctw( i, j ) == T( r ) && base_tw( i, j ) == r );
    sx_assert( e2.matrix()( i, j ) == -want[i][j] );
  }
  sx_reach( "twisted" );
  essential_matrix_sptr c = e.clone(); essential_matrix_< T > cp( e ); essential_matrix const& base = e;
  essential_matrix_< double > bd( base ), xd( e ); essential_matrix_< float > bf( base ), xf( e );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
    sx_assert( c->matrix()( i, j ) == want[i][j] && cp.matrix()( i, j ) == want[i][j] && bd.matrix()( i, j ) == want[i][j] && bf.matrix()( i, j ) == want[i][j] && xd.matrix()( i, j ) == want[i][j] && xf.matrix()( i, j ) == want[i][j] );
  sx_reach( "copy" );
  // a given essential matrix is represented up to sign and scale
  T k = T( sx_choice( "scale", 2 ) ? 3 : 1 );
  mat given; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) given( i, j ) = k * T( want[i][j] );
  essential_matrix_< T > g( given ); matrix_3x3d gm = g.matrix();
  double plus = 0, minus = 0; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) { plus = std::max( plus, std::fabs( gm( i, j ) - want[i][j] ) ); minus = std::max( minus, std::fabs( gm( i, j ) + want[i][j] ) ); }
  sx_assert( plus < 1e-5 || minus < 1e-5 );
  sx_reach( "precision" );
  fundamental_matrix_< T > f( given ), fc( f ); fundamental_matrix const& fb = f; fundamental_matrix_< double > fd( fb ), xfd( f ); fundamental_matrix_< float > ff( fb ), xff( f );
  fundamental_matrix_sptr fcl = f.clone();
  matrix_3x3d fm = f.matrix(); double s = std::sqrt( T( 0.5 ) );
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
  {
    sx_assert( std::fabs( fm( i, j ) - s * want[i][j] ) < 1e-5 );
    sx_assert( fc.matrix()( i, j ) == fm( i, j ) && fcl->matrix()( i, j ) == fm( i, j ) && fd.matrix()( i, j ) == fm( i, j ) && xfd.matrix()( i, j ) == fm( i, j ) && ff.matrix()( i, j ) == float( fm( i, j ) ) && xff.matrix()( i, j ) == float( fm( i, j ) ) );
  }
  sx_reach( "fundamental" );
}
// the nearest matrix of rank two drops the smallest singular value, and its length is one
template < typename T > static void nearest()
{
  static const int perm[6][3] = { {0,1,2}, {0,2,1}, {1,0,2}, {1,2,0}, {2,0,1}, {2,1,0} }, size[3] = { 4, 3, 1 };
  int const* rows = perm[sx_choice( "rows", 6 )]; int const* order = perm[sx_choice( "order", 6 )]; int signs = sx_choice( "signs", 8 );
  Eigen::Matrix< T, 3, 3 > given; given.setZero(); double want[3][3] = {};
  for ( int i = 0; i < 3; ++i ) { int v = size[order[i]] * ( signs >> i & 1 ? -1 : 1 ); given( rows[i], i ) = T( v ); want[rows[i]][i] = v * v == 1 ? 0 : v / 5.0; }
  fundamental_matrix_< T > f( given ); matrix_3x3d m = f.matrix();
  for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) sx_assert( std::fabs( m( i, j ) - want[i][j] ) < 1e-5 );
  sx_reach( "nearest" );
}
void sx_main() { if ( sx_bool( "nearest" ) ) { if ( sx_bool( "float" ) ) nearest< float >(); else nearest< double >(); return; } if ( sx_bool( "float" ) ) run< float >(); else run< double >(); }
