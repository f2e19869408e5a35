// SX-SOURCES: vital/exceptions/*.cxx
// SX-REACH: white equal different text
#include "hx.h"
#include <vital/types/color.h>
#include <sstream>
using namespace kwiver::vital;
static unsigned char by( const char* n ) { return (unsigned char)sx_var( n, 8 ); }
void sx_main()
{
  unsigned char r = by( "r" ), g = by( "g" ), b = by( "b" );
  rgb_color c( r, g, b ), w;
  sx_assert( w.r == 255 && w.g == 255 && w.b == 255 );
  sx_reach( "white" );
  sx_assert( c.r == r && c.g == g && c.b == b );
  if ( sx_bool( "text" ) )
  {
    std::stringstream s; s << c << "\n" << 7; rgb_color d( 1, 2, 3 ); int rest = 0; s >> d; sx_assert( s.get() == '\n' ); s >> rest;
    sx_assert( ! s.fail() && d == c && rest == 7 );
    sx_reach( "text" );
    return;
  }
  unsigned char x = by( "x" ), y = by( "y" ), z = by( "z" );
  rgb_color d( x, y, z );
  bool same = ( r == x ) & ( g == y ) & ( b == z ), e = ( c == d ), n = ( c != d );
  sx_assert( e == same && n == ! same );
  sx_reach( e ? "equal" : "different" );
}
