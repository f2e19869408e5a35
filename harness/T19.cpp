// SX-SOURCES: vital/exceptions/*.cxx
// SX-REACH: fixed dynamic bytes numbers copy assign self empty large
#include "hx.h"
#include <vital/types/descriptor.h>
#include <vital/types/descriptor_set.h>
using namespace kwiver::vital;
template < typename T > static T val( const char* n );
template < > unsigned char val< unsigned char >( const char* n ) { return (unsigned char)sx_var( n, 8 ); }
template < > short val< short >( const char* n ) { return (short)sx_var( n, 16 ); }
template < > int val< int >( const char* n ) { return (int)sx_var( n, 32 ); }
template < > float val< float >( const char* n ) { return (float)sx_range( n, -10000, 10000 ); }
template < > double val< double >( const char* n ) { return sx_idouble( n, -1000000, 1000000 ); }
template < typename T > static void matches( descriptor const& d, T const* v, int n )
{
  sx_assert( (int)d.size() == n && d.num_bytes() == n * sizeof( T ) );
  std::vector< double > x = d.as_double(); sx_assert( (int)x.size() == n );
  for ( int i = 0; i < n; ++i ) sx_assert( x[i] == double( v[i] ) );
  sx_reach( "numbers" );
  std::vector< unsigned char > b = d.as_bytes(); sx_assert( b.size() == n * sizeof( T ) );
  unsigned char ref[64]; if ( n ) memcpy( ref, v, n * sizeof( T ) );
  for ( size_t i = 0; i < b.size(); ++i ) sx_assert( b[i] == ref[i] );
  sx_reach( "bytes" );
}
template < typename T > static void large()
{
  static const int lengths[] = { 32, 64, 128, 255, 256, 300 };
  int n = lengths[sx_choice( "large length", 6 )], at = sx_choice( "place", 3 ); at = at == 0 ? 0 : at == 1 ? n / 2 : n - 1;
  descriptor_dynamic< T > d( n ); for ( int i = 0; i < n; ++i ) d.raw_data()[i] = T( i * 7 + 1 );
  T v = val< T >( "v" ); d.raw_data()[at] = v;
  descriptor_dynamic< T > c( d ), a( 2 ); a = d;
  sx_assert( (int)c.size() == n && (int)a.size() == n && c.num_bytes() == n * sizeof( T ) );
  std::vector< double > x = c.as_double(); std::vector< unsigned char > b = a.as_bytes(), e = d.as_bytes(); sx_assert( (int)x.size() == n && b.size() == n * sizeof( T ) && e.size() == b.size() );
  bool same = true;
  for ( int i = 0; i < n; ++i )
  {
    T w = i == at ? v : T( i * 7 + 1 );
    same &= c.raw_data()[i] == w && a.raw_data()[i] == w && x[i] == double( w );
    unsigned char ref[sizeof( T )]; memcpy( ref, &w, sizeof( T ) );
    for ( size_t k = 0; k < sizeof( T ); ++k ) same &= b[i * sizeof( T ) + k] == ref[k] && e[i * sizeof( T ) + k] == ref[k];
  }
  sx_assert( same );
  sx_reach( "large" );
}
template < typename T > static void run()
{
  if ( sx_choice( "large", 2 ) ) { large< T >(); return; }
  T v[5], w[5]; for ( int i = 0; i < 5; ++i ) { v[i] = val< T >( "v" ); w[i] = val< T >( "w" ); }
  if ( sx_choice( "kind", 2 ) == 0 )
  {
    descriptor_fixed< T, 3 > d; for ( int i = 0; i < 3; ++i ) d.raw_data()[i] = v[i];
    matches< T >( d, v, 3 );
    descriptor_fixed< T, 3 > c( d ); d.raw_data()[1] = w[1];
    matches< T >( c, v, 3 );
    sx_reach( "fixed" );
  }
  else
  {
    int n = sx_choice( "length", 5 ), m = sx_choice( "other length", 3 ) * 2;
    descriptor_dynamic< T > d( n ), o( m );
    for ( int i = 0; i < n; ++i ) d.raw_data()[i] = v[i];
    for ( int i = 0; i < m; ++i ) o.raw_data()[i] = w[i];
    matches< T >( d, v, n ); matches< T >( o, w, m );
    if ( n == 0 ) sx_reach( "empty" );
    sx_reach( "dynamic" );
    {
      descriptor_dynamic< T > c( d );
      for ( int i = 0; i < n; ++i ) d.raw_data()[i] = w[i];
      matches< T >( c, v, n ); matches< T >( d, w, n );
      sx_reach( "copy" );
      o = c; matches< T >( o, v, n );
      for ( int i = 0; i < n; ++i ) c.raw_data()[i] = w[4 - i];
      matches< T >( o, v, n );
      sx_reach( "assign" );
      descriptor_dynamic< T >& alias = o; o = alias; matches< T >( o, v, n );
      sx_reach( "self" );
    }
    matches< T >( o, v, n ); matches< T >( d, w, n );
  }
}
void sx_main()
{
  switch ( sx_choice( "type", 5 ) ) { case 0: run< unsigned char >(); break; case 1: run< short >(); break; case 2: run< int >(); break; case 3: run< float >(); break; default: run< double >(); }
}
