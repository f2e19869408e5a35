// SX-SOURCES: vital/types/geo_lat_lon.cxx
// SX-REACH: empty valid invalid equal not-number text set
// SX-ASSUME: latitude and longitude are any of the 2^64 values of a double each, except in the text part, where they are multiples of 1/8
#include "hx.h"
#include <vital/types/geo_lat_lon.h>
#include <sstream>
using namespace kwiver::vital;
void sx_main()
{
  if ( sx_bool( "text" ) )
  {
    double a = sx_idouble( "lat", -720, 720 ) / 8, b = sx_idouble( "lon", -1000, 1000 ) / 8;
    std::stringstream s; int prec = 1 + sx_choice( "precision", 6 ); s.precision( prec );
    s << geo_lat_lon( a, b );
    sx_assert( s.precision() == prec );
    std::string open, slash, close; double x = 0, y = 0;
    s >> open >> x >> slash >> y >> close;
    sx_assert( ! s.fail() && open == "[" && slash == "/" && close == "]" );
    sx_assert( x == a && y == b );
    sx_reach( "text" );
    return;
  }
  double a = sx_free_double( "lat" ), b = sx_free_double( "lon" );
  geo_lat_lon none, p( a, b );
  sx_assert( none.is_empty() && ! none.is_valid() );
  sx_assert( none.get_latitude() == geo_lat_lon::INVALID && none.get_longitude() == geo_lat_lon::INVALID );
  bool nan = ( a != a ) | ( b != b );
  if ( sx_bool( "setters" ) )
  {
    geo_lat_lon q;
    geo_lat_lon& r = q.set_latitude( a ).set_longitude( b );
    sx_assert( &r == &q );
    sx_assert( ( a != a || q.get_latitude() == a ) && ( b != b || q.get_longitude() == b ) );
    sx_reach( "set" );
    return;
  }
  bool empty = ( a == geo_lat_lon::INVALID ) & ( b == geo_lat_lon::INVALID );
  sx_assert( p.is_empty() == empty );
  if ( empty ) sx_reach( "empty" );
  bool valid = ( a >= -90 ) & ( a <= 90 ) & ( b >= -180 ) & ( b <= 360 );
  sx_assert( p.is_valid() == valid );
  sx_reach( valid ? "valid" : "invalid" );
  double c = sx_free_double( "lat2" ), d = sx_free_double( "lon2" );
  geo_lat_lon o( c, d ), copy( p );
  bool eq = ( a == c ) & ( b == d ), e = ( p == o ), ne = ( p != o );
  sx_assert( e == eq && ne == ! eq );
  if ( eq ) sx_reach( "equal" );
  if ( nan ) { sx_reach( "not-number" ); sx_assert( ! ( copy == p ) ); } else sx_assert( copy == p );
}
