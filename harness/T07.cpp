// SX-SOURCES: vital/types/feature.cxx vital/types/landmark.cxx vital/exceptions/base.cxx vital/exceptions/io.cxx
// SX-REACH: feature landmark clone feature-text landmark-text bad-text
// SX-ASSUME: whole-number values up to 10^5 (exact in both precisions), any colour and observation count; text round trips with one field at a time taking every value of a small set
#include "hx.h"
#include <vital/types/feature.h>
#include <vital/types/landmark.h>
#include <vital/exceptions/io.h>
#include <sstream>
using namespace kwiver::vital;
template < typename T > static T num( const char* n ) { return (T)sx_range( n, -100000, 100000 ); }
static rgb_color col() { return rgb_color( (unsigned char)sx_var( "r", 8 ), (unsigned char)sx_var( "g", 8 ), (unsigned char)sx_var( "b", 8 ) ); }
template < typename T, typename U > static void feat()
{
  T x = num< T >( "x" ), y = num< T >( "y" ), m = num< T >( "magnitude" ), s = num< T >( "scale" ), a = num< T >( "angle" );
  rgb_color c = col();
  covariance_< 2, T > cv( num< T >( "variance" ) ); cv( 0, 1 ) = num< T >( "cov" ); cv( 1, 1 ) = num< T >( "variance y" );
  feature_< T > f;
  sx_assert( f.get_loc() == ( Eigen::Matrix< T, 2, 1 >( 0, 0 ) ) && f.get_magnitude() == 0 && f.get_scale() == 1 && f.get_angle() == 0 && f.get_color() == rgb_color( 255, 255, 255 ) );
  if ( sx_bool( "constructed" ) ) f = feature_< T >( Eigen::Matrix< T, 2, 1 >( x, y ), m, s, a, c );
  else { f.set_loc( Eigen::Matrix< T, 2, 1 >( x, y ) ); f.set_magnitude( m ); f.set_scale( s ); f.set_angle( a ); f.set_color( c ); }
  f.set_covar( cv );
  feature const& b = f;
  feature_< U > u( b ); feature_< T > t( b );
  feature const* all[3] = { &b, &u, &t };
  for ( int i = 0; i < 3; ++i )
  {
    feature const& q = *all[i];
    sx_assert( q.loc()[0] == x && q.loc()[1] == y && q.magnitude() == m && q.scale() == s && q.angle() == a && q.color() == c );
    covariance_2d qc = q.covar();
    for ( int r = 0; r < 2; ++r ) for ( int k = 0; k < 2; ++k ) sx_assert( qc( r, k ) == cv( r, k ) );
    sx_assert( q.data_type() == ( i == 1 ? typeid( U ) : typeid( T ) ) );
  }
  sx_reach( "feature" );
}
template < typename T, typename U > static void land()
{
  Eigen::Matrix< T, 3, 1 > p( num< T >( "x" ), num< T >( "y" ), num< T >( "z" ) ), n( num< T >( "nx" ), num< T >( "ny" ), num< T >( "nz" ) );
  T s = num< T >( "scale" ); rgb_color c = col(); unsigned o = (unsigned)sx_var( "observations", 32 );
  covariance_< 3, T > cv( T( 0 ) );
  for ( int r = 0; r < 3; ++r ) for ( int k = r; k < 3; ++k ) cv( r, k ) = num< T >( "cov" );
  landmark_< T > d, l( p, s );
  sx_assert( d.observations() == 0 && d.scale() == 1 && d.loc() == vector_3d( 0, 0, 0 ) && d.normal() == vector_3d( 0, 0, 0 ) && d.color() == rgb_color( 255, 255, 255 ) );
  sx_assert( l.observations() == 0 && l.normal() == vector_3d( 0, 0, 0 ) );
  if ( sx_bool( "constructed" ) ) d = l; else { d.set_loc( p ); d.set_scale( s ); }
  d.set_normal( n ); d.set_color( c ); d.set_observations( o ); d.set_covar( cv );
  landmark const& b = d;
  landmark_< U > u( b ); landmark_< T > t( b ); landmark_sptr k = b.clone(), ku = u.clone();
  sx_assert( dynamic_cast< landmark_< T >* >( k.get() ) && dynamic_cast< landmark_< U >* >( ku.get() ) );
  d.set_loc( Eigen::Matrix< T, 3, 1 >( 0, 0, 0 ) ); d.set_observations( o + 1 );
  landmark const* all[4] = { &u, &t, k.get(), ku.get() };
  for ( int i = 0; i < 4; ++i )
  {
    landmark const& q = *all[i];
    vector_3d ql = q.loc(), qn = q.normal(); covariance_3d qc = q.covar();
    for ( int r = 0; r < 3; ++r ) { sx_assert( ql[r] == p[r] && qn[r] == n[r] ); for ( int z = 0; z < 3; ++z ) sx_assert( qc( r, z ) == cv( r, z ) ); }
    sx_assert( q.scale() == s && q.color() == c && q.observations() == o );
  }
  sx_reach( "landmark" ); sx_reach( "clone" );
}
static unsigned count()
{
  switch ( sx_choice( "size", 3 ) )
  {
  case 0: return (unsigned)sx_range( "observations", 0, 70000 );
  case 1: return 0x7fffff80u + (unsigned)sx_var( "observations", 8 );
  default: return 0xffffff00u + (unsigned)sx_var( "observations", 8 );
  }
}
static double pick( int field, int which, double dflt ) { if ( field != which ) return dflt; return (double)sx_choice( "eighths", 40 ) / 8. - 2.5; }
void sx_main()
{
  switch ( sx_choice( "case", 7 ) )
  {
  case 0: feat< double, float >(); break;
  case 1: feat< float, double >(); break;
  case 2: land< double, float >(); break;
  case 3: land< float, double >(); break;
  case 4:
  {
    int w = sx_choice( "field", 6 );
    feature_d f( vector_2d( pick( 0, w, 1.5 ), pick( 1, w, -2 ) ), pick( 2, w, 3 ), pick( 3, w, 4 ), pick( 4, w, 5.25 ), w == 5 ? col() : rgb_color( 1, 2, 3 ) ), g;
    std::stringstream s; s << f; s >> g;
    sx_assert( ! s.fail() && g.loc() == f.loc() && g.magnitude() == f.magnitude() && g.scale() == f.scale() && g.angle() == f.angle() && g.color() == f.color() );
    std::stringstream b; b << static_cast< feature const& >( f ); sx_assert( hx_eq( b.str(), s.str() ) );
    sx_reach( "feature-text" );
    break;
  }
  case 5:
  {
    int w = sx_choice( "field", 9 );
    landmark_d f( vector_3d( pick( 0, w, 1.5 ), pick( 1, w, -2 ), pick( 2, w, 7 ) ), pick( 3, w, 4 ) ), g;
    f.set_normal( vector_3d( pick( 4, w, 8 ), pick( 5, w, 9 ), pick( 6, w, 10 ) ) );
    f.set_color( w == 7 ? col() : rgb_color( 1, 2, 3 ) );
    f.set_observations( w == 8 ? count() : 12 );
    std::stringstream s; s << f; s >> g;
    sx_assert( ! s.fail() && g.loc() == f.loc() && g.scale() == f.scale() && g.normal() == f.normal() && g.color() == f.color() && g.observations() == f.observations() );
    std::stringstream b; b << static_cast< landmark const& >( f ); sx_assert( hx_eq( b.str(), s.str() ) );
    sx_reach( "landmark-text" );
    break;
  }
  case 6: // text without numbers is refused
  {
    char ch = (char)sx_var( "byte", 8 );
    sx_assume( ! hx_space( ch ) && ! ( ch >= '0' && ch <= '9' ) );
    std::stringstream s( std::string( 1, ch ) + " 1 1 1 1 1 1" );
    feature_d g;
    sx_assert( HX_THROWS( s >> g, invalid_data ) );
    sx_reach( "bad-text" );
    break;
  }
  }
}
