// SX-SOURCES: vital/exceptions/base.cxx vital/exceptions/io.cxx
// SX-REACH: element matrix scaled converted assigned
// SX-ASSUME: 2x2 and 3x3 covariances of both precisions; arbitrary bit patterns where values are only stored, whole numbers where they are averaged
#include "hx.h"
#include <vital/types/covariance.h>
using namespace kwiver::vital;
template < typename T > static bool same( T a, T b ) { return memcmp( &a, &b, sizeof a ) == 0; }
template < typename T > static T any( const char* n );
template <> double any( const char* n ) { return sx_free_double( n ); }
template <> float any( const char* n ) { uint32_t b = (uint32_t)sx_var( n, 32 ); float f; memcpy( &f, &b, 4 ); return f; }
template < unsigned N, typename T, typename U > static void run()
{
  typedef Eigen::Matrix< T, N, N > M;
  covariance_< N, T > c( T( 0 ) );
  switch ( sx_choice( "operation", 4 ) )
  {
  case 0: // element access is symmetric and hits one element only
  {
    unsigned i = (unsigned)sx_choice( "row", N ), j = (unsigned)sx_choice( "column", N );
    T v = any< T >( "value" );
    T was[N][N];
    for ( unsigned a = 0; a < N; ++a ) for ( unsigned b = a; b < N; ++b ) { was[a][b] = was[b][a] = any< T >( "old" ); c( a, b ) = was[a][b]; }
    for ( unsigned a = 0; a < N; ++a ) for ( unsigned b = 0; b < N; ++b ) sx_assert( same< T >( c( a, b ), was[a][b] ) );
    c( i, j ) = v;
    covariance_< N, T > const& cc = c;
    M m = c;
    for ( unsigned a = 0; a < N; ++a ) for ( unsigned b = 0; b < N; ++b )
    {
      T want = ( ( a == i && b == j ) || ( a == j && b == i ) ) ? v : was[a][b];
      sx_assert( same< T >( cc( a, b ), want ) && same< T >( m( a, b ), want ) );
    }
    covariance_< N, T > k( c ), z( T( 1 ) );
    covariance_< N, T >& r = ( z = c );
    sx_assert( &r == &z );
    c( i, j ) = T( 5 );
    for ( unsigned a = 0; a < N; ++a ) for ( unsigned b = 0; b < N; ++b ) { sx_assert( same< T >( k( a, b ), m( a, b ) ) ); sx_assert( same< T >( z( a, b ), m( a, b ) ) ); }
    sx_reach( "element" ); sx_reach( "assigned" );
    break;
  }
  case 1: // from a matrix: symmetric part
  {
    M m;
    for ( unsigned a = 0; a < N; ++a ) for ( unsigned b = 0; b < N; ++b ) m( a, b ) = (T)sx_range( "entry", -500, 500 );
    covariance_< N, T > s( m );
    M o = s;
    for ( unsigned a = 0; a < N; ++a ) for ( unsigned b = 0; b < N; ++b ) sx_assert( o( a, b ) == ( m( a, b ) + m( b, a ) ) / T( 2 ) );
    sx_reach( "matrix" );
    break;
  }
  case 2:
  {
    T v = any< T >( "value" );
    covariance_< N, T > s( v );
    for ( unsigned a = 0; a < N; ++a ) for ( unsigned b = 0; b < N; ++b ) sx_assert( same< T >( s( a, b ), a == b ? v : T( 0 ) ) );
    sx_reach( "scaled" );
    break;
  }
  case 3: // to the other precision and back
  {
    for ( unsigned a = 0; a < N; ++a ) for ( unsigned b = a; b < N; ++b ) c( a, b ) = (T)sx_range( "entry", -100000, 100000 );
    covariance_< N, U > u( c );
    covariance_< N, T > back( u );
    for ( unsigned a = 0; a < N; ++a ) for ( unsigned b = 0; b < N; ++b )
    {
      sx_assert( u( a, b ) == (U)c( a, b ) );
      sx_assert( back( a, b ) == c( a, b ) );
    }
    sx_reach( "converted" );
    break;
  }
  }
}
void sx_main()
{
  switch ( sx_choice( "type", 4 ) )
  {
  case 0: run< 2, double, float >(); break;
  case 1: run< 2, float, double >(); break;
  case 2: run< 3, double, float >(); break;
  case 3: run< 3, float, double >(); break;
  }
}
