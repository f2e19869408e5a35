// SX-REACH: none some all empty-outer
// SX-ASSUME: matrices of up to 3x3, and long ones with a single row or column, with every pattern of stored cells, column and row major, compressed or not
#include "hx.h"
#include <vital/util/enumerate_matrix.h>
#include <vital/vital_foreach.h>
template < int Opt > static void go( int r, int c )
{
  typedef Eigen::SparseMatrix< int, Opt > M;
  M m( r, c );
  int val[6][6]; bool on[6][6]; int n = 0;
  for ( int i = 0; i < r; ++i ) for ( int j = 0; j < c; ++j )
  {
    on[i][j] = sx_bool( "stored" ) ? true : false;
    val[i][j] = (int)sx_range( "value", 1, 1000 );
    if ( on[i][j] ) { m.insert( i, j ) = val[i][j]; ++n; }
  }
  if ( sx_bool( "compressed" ) ) m.makeCompressed();
  int seen[6][6] = { { 0 } }, visited = 0;
  long last = -1;
  VITAL_FOREACH( auto const& it, kwiver::vital::enumerate( m ) )
  {
    int i = it.row(), j = it.col();
    sx_assert( i >= 0 && i < r && j >= 0 && j < c );
    sx_assert( on[i][j] );
    sx_assert( it.value() == val[i][j] );
    ++seen[i][j]; ++visited;
    long order = ( Opt == Eigen::RowMajor ) ? i * 6 + j : j * 6 + i;
    sx_assert( order > last ); last = order;
    sx_assert( visited <= n );
  }
  sx_assert( visited == n );
  for ( int i = 0; i < r; ++i ) for ( int j = 0; j < c; ++j ) sx_assert( seen[i][j] == ( on[i][j] ? 1 : 0 ) );
  if ( n == 0 ) sx_reach( "none" ); else if ( n == r * c ) sx_reach( "all" ); else sx_reach( "some" );
  if ( ( Opt == Eigen::RowMajor ? r : c ) == 0 ) sx_reach( "empty-outer" );
  // iterators: copies are equal and independent
  auto e = kwiver::vital::enumerate( m );
  auto a = e.begin(), z = e.end();
  sx_assert( ( a == z ) == ( n == 0 ) );
  if ( n ) { auto b = a; sx_assert( b == a ); ++b; sx_assert( b != a ); sx_assert( ( b == z ) == ( n == 1 ) ); }
}
void sx_main()
{
  int lim = sx_param( "dimension", 2, 3 );
  int r = sx_choice( "rows", lim + 1 ), c = sx_choice( "columns", lim + 1 );
  if ( sx_thorough() ) sx_assume( r * c <= 6 );
  // long and thin: several empty rows or columns in a row
  int thin = sx_choice( "thin", 3 );
  if ( thin ) { sx_assume( r == 0 && c == 0 ); r = thin == 1 ? sx_param( "length", 4, 6 ) : 1; c = thin == 1 ? 1 : sx_param( "length", 4, 6 ); }
  if ( sx_bool( "row major" ) ) go< Eigen::RowMajor >( r, c ); else go< Eigen::ColMajor >( r, c );
}
