// SX-SOURCES: vital/types/homography.cxx vital/types/homography_f2f.cxx vital/types/homography_f2w.cxx vital/exceptions/*.cxx
// SX-REACH: identity composed refused inverse detached world
// SX-ASSUME: matrix elements are integers in the stated range; the inverted matrices have determinant one
#include "hx.h"
#include <vital/types/homography_f2f.h>
#include <vital/types/homography_f2w.h>
#include <vital/exceptions/math.h>
using namespace kwiver::vital;
typedef matrix_3x3d mat;
static bool eq( mat const& a, mat const& b ) { bool ok = true; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) ok &= a( i, j ) == b( i, j ); return ok; }
static mat any( const char* nm, int lim ) { mat m; for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j ) m( i, j ) = sx_idouble( nm, -lim, lim ); return m; }
static frame_id_t id( const char* nm ) { return (frame_id_t)sx_var( nm, 64 ); }
void sx_main()
{
  frame_id_t a = id( "a" ), b = id( "b" ), c = id( "c" ), d = id( "d" );
  mat m = any( "m", 100 ), n = any( "n", 100 );
  switch ( sx_choice( "what", 4 ) )
  {
  case 0:
  {
    f2f_homography one( a );
    sx_assert( one.from_id() == a && one.to_id() == a && eq( one.homography()->matrix(), mat::Identity() ) );
    f2w_homography w( b );
    sx_assert( w.frame_id() == b && eq( w.homography()->matrix(), mat::Identity() ) );
    sx_reach( "identity" );
    break;
  }
  case 1:
  {
    f2f_homography x( m, a, b ), y( homography_sptr( new homography_< double >( n ) ), c, d );
    sx_assert( x.from_id() == a && x.to_id() == b && y.from_id() == c && y.to_id() == d );
    sx_assert( eq( x.homography()->matrix(), m ) && eq( y.homography()->matrix(), n ) );
    bool refused = false;
    try
    {
      f2f_homography z = x * y;
      sx_assert( a == d );
      sx_assert( z.from_id() == c && z.to_id() == b );
      for ( int i = 0; i < 3; ++i ) for ( int j = 0; j < 3; ++j )
        sx_assert( z.homography()->matrix()( i, j ) == m( i, 0 ) * n( 0, j ) + m( i, 1 ) * n( 1, j ) + m( i, 2 ) * n( 2, j ) );
      sx_reach( "composed" );
    }
    catch ( invalid_matrix_operation const& ) { refused = true; }
    sx_assert( refused == ( a != d ) );
    if ( refused ) sx_reach( "refused" );
    sx_assert( x.from_id() == a && x.to_id() == b && eq( x.homography()->matrix(), m ) && eq( y.homography()->matrix(), n ) );
    break;
  }
  case 2:
  {
    double e[6]; for ( int i = 0; i < 6; ++i ) e[i] = sx_idouble( "e", -9, 9 );
    mat l, u; l << 1, 0, 0, e[0], 1, 0, e[1], e[2], 1; u << 1, e[3], e[4], 0, 1, e[5], 0, 0, 1;
    mat lu = l * u;
    f2f_homography x( lu, a, b ), y = x.inverse();
    sx_assert( y.from_id() == b && y.to_id() == a && x.from_id() == a && x.to_id() == b );
    sx_assert( eq( lu * y.homography()->matrix(), mat::Identity() ) && eq( x.homography()->matrix(), lu ) );
    f2f_homography back = y * x;
    sx_assert( back.from_id() == a && back.to_id() == a && eq( back.homography()->matrix(), mat::Identity() ) );
    sx_reach( "inverse" );
    break;
  }
  case 3:
  {
    // the transform handed in, and the one of a copy, are detached
    std::shared_ptr< homography_< double > > h( new homography_< double >( m ) );
    f2f_homography x( h, a, b ), y( x ); f2w_homography w( h, c ), v( w );
    h->get_matrix()( 1, 2 ) += 1;
    sx_assert( eq( x.homography()->matrix(), m ) && eq( w.homography()->matrix(), m ) );
    homography_< double >* hx = dynamic_cast< homography_< double >* >( x.homography().get() ), * hw = dynamic_cast< homography_< double >* >( w.homography().get() );
    sx_assert( hx && hw );
    hx->get_matrix()( 0, 0 ) += 1; hw->get_matrix()( 0, 0 ) += 1;
    sx_assert( eq( y.homography()->matrix(), m ) && y.from_id() == a && y.to_id() == b );
    sx_reach( "detached" );
    sx_assert( eq( v.homography()->matrix(), m ) && v.frame_id() == c && w.frame_id() == c );
    sx_reach( "world" );
    break;
  }
  }
}
