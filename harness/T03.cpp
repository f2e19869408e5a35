// SX-SOURCES: vital/types/image.cxx vital/types/color.cxx
// SX-REACH: equal different dimension-differs transformed memory-order mixed-layout same-memory-different gaps
// SX-ASSUME: images of up to the stated dimensions, symbolic pixels, any order of the three steps, positive or negative; dimensions that differ are compared at the stated bound
#include "hx.h"
#include <vital/types/image.h>
#include <algorithm>
using namespace kwiver::vital;
static unsigned char table[256]; static image::byte const* seen[64]; static int calls;
static image::byte op( image::byte const& b ) { seen[calls++] = &b; return (image::byte)( b * 3 + 7 ); }
static image layout( image::byte* buf, size_t w, size_t h, size_t d, int order, int flip, int gap = 0 )
{
  ptrdiff_t s[3]; size_t n[3] = { w, h, d }; static const int perm[6][3] = { {0,1,2},{0,2,1},{1,0,2},{1,2,0},{2,0,1},{2,1,0} };
  ptrdiff_t step = 1; ptrdiff_t off = 0;
  for ( int q = 0; q < 3; ++q ) { int a = perm[order][q]; s[a] = step; step *= n[a] + gap; }
  for ( int a = 0; a < 3; ++a ) if ( flip & ( 1 << a ) ) { off += s[a] * ptrdiff_t( n[a] - 1 ); s[a] = -s[a]; }
  return image( buf + off, w, h, d, s[0], s[1], s[2] );
}
void sx_main()
{
  int lim = sx_param( "dimension", 2, 3 );
  size_t w = 1 + sx_choice( "width", lim ), h = 1 + sx_choice( "height", lim ), d = 1 + sx_choice( "depth", 3 );
  size_t n = w * h * d;
  static image::byte a[36], b[36];
  int oa = sx_choice( "layout", 6 ), what = sx_choice( "operation", 3 );
  if ( what == 0 )
  {
    // same bytes, different shape
    sx_assume( oa == 0 );
    size_t w2 = 1 + sx_choice( "w2", lim ), h2 = 1 + sx_choice( "h2", lim ), d2 = 1 + sx_choice( "d2", 3 );
    sx_assume( w2 != w || h2 != h || d2 != d );
    static image::byte big[36];
    image p( big, w, h, d, 1, w, w * h ), q( big, w2, h2, d2, 1, w2, w2 * h2 );
    sx_assert( ! equal_content( p, q ) ); sx_reach( "dimension-differs" );
  }
  else if ( what == 1 )
  {
    if ( sx_choice( "gaps", 2 ) )
    {
      // both with the same steps and a byte or more between rows and planes, which is no part of either
      sx_assume( d == 1 || ( w == 2 && h == 2 && d == 2 ) );
      static image::byte ga[64], gb[64];
      sx_bytes( ga, 64, "first" ); sx_bytes( gb, 64, "second" );
      image x = layout( ga, w, h, d, oa, 0, 1 ), y = layout( gb, w, h, d, oa, 0, 1 );
      bool same = true;
      for ( size_t k = 0; k < d; ++k ) for ( size_t j = 0; j < h; ++j ) for ( size_t i = 0; i < w; ++i ) same &= x( i, j, k ) == y( i, j, k );
      sx_assert( equal_content( x, y ) == same );
      sx_reach( "gaps" );
      return;
    }
    sx_bytes( a, n, "first" ); sx_bytes( b, n, "second" );
    bool shared = sx_bool( "on the same memory" );
    image x = layout( a, w, h, d, oa, 0 ), y = layout( shared ? a : b, w, h, d, ( oa + 1 + sx_choice( "other layout", 2 ) * 2 ) % 6, shared ? 0 : oa & 7 );
    bool same = true;
    for ( size_t k = 0; k < d; ++k ) for ( size_t j = 0; j < h; ++j ) for ( size_t i = 0; i < w; ++i ) same &= x( i, j, k ) == y( i, j, k );
    sx_assert( equal_content( x, y ) == same );
    if ( same ) sx_reach( "equal" ); else sx_reach( "different" );
    if ( shared && ! same ) sx_reach( "same-memory-different" );
    sx_reach( "mixed-layout" );
  }
  else
  {
    sx_bytes( a, n, "pixels" );
    int flip = sx_choice( "flip", 8 );
    image x = layout( a, w, h, d, oa, flip );
    image::byte was[36]; memcpy( was, a, n );
    calls = 0;
    transform_image( x, op );
    sx_assert( calls == int( n ) );
    for ( size_t i = 0; i < n; ++i ) sx_assert( a[i] == (image::byte)( was[i] * 3 + 7 ) );
    bool asc = true;
    for ( int i = 1; i < calls; ++i ) asc &= seen[i] > seen[i-1];
    // contiguous layouts with steps all positive are visited in memory order
    if ( flip == 0 && w > 1 && h > 1 && d > 1 ) { sx_assert( asc ); sx_reach( "memory-order" ); }
    sx_reach( "transformed" );
  }
}
