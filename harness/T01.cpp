// SX-SOURCES: vital/types/image.cxx vital/types/color.cxx
// SX-REACH: planar interleaved empty gray rgb out-of-range in-range window negative-step
// SX-ASSUME: images of up to the stated dimensions; every 32-bit pixel coordinate; windows into a buffer with every step combination that stays inside
#include "hx.h"
#include <vital/types/image.h>
using namespace kwiver::vital;
static void probe( image& im, image::byte* base, size_t bytes )
{
  image const& ci = im;
  unsigned i = (unsigned)sx_var( "column", 32 ), j = (unsigned)sx_var( "row", 32 ), k = (unsigned)sx_var( "channel", 32 );
  bool in2 = ( i < im.width() ) & ( j < im.height() ), in3 = in2 & ( k < im.depth() );
  bool t1 = HX_THROWS( im( i, j ), std::out_of_range ), t2 = HX_THROWS( ci( i, j ), std::out_of_range );
  bool t3 = HX_THROWS( im( i, j, k ), std::out_of_range ), t4 = HX_THROWS( ci( i, j, k ), std::out_of_range );
  sx_assert( t1 == ! in2 ); sx_assert( t2 == ! in2 ); sx_assert( t3 == ! in3 ); sx_assert( t4 == ! in3 );
  if ( im.depth() > 0 ) sx_assert( HX_THROWS( ci.at( i, j ), std::out_of_range ) == ! in2 );
  if ( in3 )
  {
    sx_reach( "in-range" );
    image::byte* want = im.first_pixel() + ( ptrdiff_t( i ) * im.w_step() + ptrdiff_t( j ) * im.h_step() + ptrdiff_t( k ) * im.d_step() );
    sx_assert( &im( i, j, k ) == want && &ci( i, j, k ) == want );
    sx_assert( want >= base && want < base + bytes );
    if ( k == 0 ) sx_assert( &im( i, j ) == want && &ci( i, j ) == want );
  }
  else sx_reach( "out-of-range" );
  if ( in2 && im.depth() > 0 )
  {
    rgb_color c = ci.at( i, j );
    if ( im.depth() < 3 ) { sx_assert( c.r == ci( i, j ) && c.g == ci( i, j ) && c.b == ci( i, j ) ); sx_reach( "gray" ); }
    else { sx_assert( c.r == ci( i, j, 0 ) && c.g == ci( i, j, 1 ) && c.b == ci( i, j, 2 ) ); sx_reach( "rgb" ); }
  }
}
void sx_main()
{
  int lim = sx_param( "dimension", 3, 4 );
  if ( sx_bool( "allocated" ) )
  {
    size_t w = sx_choice( "width", lim + 1 ), h = sx_choice( "height", lim + 1 ), d = sx_choice( "depth", lim + 1 );
    bool il = sx_bool( "interleave" );
    image im( w, h, d, il );
    sx_assert( im.width() == w && im.height() == h && im.depth() == d );
    sx_assert( im.size() == w * h * d && im.memory() && im.memory()->size() == w * h * d );
    sx_assert( im.first_pixel() == im.memory()->data() );
    image::byte* base = (image::byte*)im.memory()->data();
    if ( w * h * d == 0 ) sx_reach( "empty" );
    // no two pixels share a byte: write each, read all back
    for ( size_t x = 0; x < w; ++x ) for ( size_t y = 0; y < h; ++y ) for ( size_t z = 0; z < d; ++z ) im( x, y, z ) = (image::byte)( ( x * 5 + y ) * 5 + z );
    for ( size_t x = 0; x < w; ++x ) for ( size_t y = 0; y < h; ++y ) for ( size_t z = 0; z < d; ++z )
    {
      sx_assert( im( x, y, z ) == (image::byte)( ( x * 5 + y ) * 5 + z ) );
      // documented pixel orders
      if ( il ) { sx_assert( &im( x, y, z ) == base + ( y * w + x ) * d + z ); sx_reach( "interleaved" ); }
      else { sx_assert( &im( x, y, z ) == base + ( z * h + y ) * w + x ); sx_reach( "planar" ); }
    }
    if ( w * h * d && d < 4 ) probe( im, base, w * h * d );
  }
  else
  {
    // a window into existing memory
    static image::byte buf[16];
    sx_bytes( buf, sizeof buf, "pixels" );
    size_t w = 1 + sx_choice( "width", 2 ), h = 1 + sx_choice( "height", 2 ), d = 1 + sx_choice( "depth", 3 );
    ptrdiff_t f = sx_range( "first", 0, 15 ), ws = sx_range( "w_step", -4, 4 ), hs = sx_range( "h_step", -4, 4 ), ds = sx_range( "d_step", -4, 4 );
    ptrdiff_t lo = f, hi = f, e[3] = { ws * ptrdiff_t( w - 1 ), hs * ptrdiff_t( h - 1 ), ds * ptrdiff_t( d - 1 ) };
    for ( int n = 0; n < 3; ++n ) { lo += e[n] < 0 ? e[n] : 0; hi += e[n] > 0 ? e[n] : 0; }
    sx_assume( ( lo >= 0 ) & ( hi < 16 ) );
    f = sx_concretize( f );
    image im( buf + f, w, h, d, ws, hs, ds );
    sx_assert( ! im.memory() && im.size() == 0 && im.first_pixel() == buf + f );
    sx_assert( im.width() == w && im.height() == h && im.depth() == d && im.w_step() == ws && im.h_step() == hs && im.d_step() == ds );
    if ( hs < 0 ) sx_reach( "negative-step" );
    sx_reach( "window" );
    probe( im, buf, 16 );
  }
}
