// SX-SOURCES: vital/types/image.cxx vital/types/color.cxx
// SX-REACH: shared deep resized kept-size interleave-kept from-window memory-assign outlives
// SX-ASSUME: images of up to the stated dimensions with symbolic pixels, one modification after copying
#include "hx.h"
#include <vital/types/image.h>
using namespace kwiver::vital;
void sx_main()
{
  int lim = sx_param( "dimension", 2, 3 );
  int what = sx_choice( "operation", 4 );
  if ( what == 3 )
  {
    // blocks of image memory: copies own their bytes
    size_t n = sx_choice( "bytes", 4 ), m = sx_choice( "other bytes", 4 );
    image_memory a( n ), b( m ), z;
    sx_assert( a.size() == n && b.size() == m && z.size() == 0 );
    unsigned char av[4], bv[4];
    sx_bytes( av, 4, "a" ); sx_bytes( bv, 4, "b" );
    if ( n ) memcpy( a.data(), av, n ); if ( m ) memcpy( b.data(), bv, m );
    image_memory c( a );
    sx_assert( c.size() == n && ( n == 0 || c.data() != a.data() ) );
    if ( n ) sx_assert( memcmp( c.data(), av, n ) == 0 );
    image_memory& r = ( b = a );
    sx_assert( &r == &b && b.size() == n && ( n == 0 || b.data() != a.data() ) );
    if ( n ) sx_assert( memcmp( b.data(), av, n ) == 0 );
    if ( n ) { ( (unsigned char*)a.data() )[n - 1] ^= 1; sx_assert( memcmp( b.data(), av, n ) == 0 && memcmp( c.data(), av, n ) == 0 ); }
    c = c; sx_assert( c.size() == n ); if ( n ) sx_assert( memcmp( c.data(), av, n ) == 0 );
    z = a; sx_assert( z.size() == n );
    a = image_memory( 0 ); sx_assert( a.size() == 0 );
    sx_reach( "memory-assign" );
    return;
  }
  size_t w = 1 + sx_choice( "width", lim ), h = 1 + sx_choice( "height", lim ), d = 1 + sx_choice( "depth", lim ), n = w * h * d;
  bool il = sx_bool( "interleave" );
  unsigned char px[32]; sx_bytes( px, n, "pixels" );
  image* src = new image( w, h, d, il );
  for ( size_t z = 0, q = 0; z < d; ++z ) for ( size_t y = 0; y < h; ++y ) for ( size_t x = 0; x < w; ++x ) ( *src )( x, y, z ) = px[q++];
  if ( what == 0 )
  {
    // copies share the pixels and keep them alive
    image c( *src ), s( 1, 1, 1 );
    const image& r = ( s = *src );
    sx_assert( &r == &s && c.memory() == src->memory() && s.memory() == src->memory() && src->memory().use_count() >= 3 );
    sx_assert( c.width() == w && c.height() == h && c.depth() == d && s.width() == w && s.height() == h && s.depth() == d );
    unsigned i = (unsigned)sx_range( "column", 0, w - 1 ), j = (unsigned)sx_range( "row", 0, h - 1 ), k = (unsigned)sx_range( "channel", 0, d - 1 );
    unsigned char v = (unsigned char)sx_var( "value", 8 );
    c( i, j, k ) = v;
    sx_assert( ( *src )( i, j, k ) == v && s( i, j, k ) == v );
    sx_assert( equal_content( c, *src ) );
    s = s;
    sx_assert( s( i, j, k ) == v && s.memory() == c.memory() );
    delete src; src = 0;
    sx_assert( c( i, j, k ) == v && s( i, j, k ) == v );
    sx_reach( "shared" ); sx_reach( "outlives" );
  }
  else if ( what == 1 )
  {
    // deep copy into an image of any previous shape, from a whole image or from a window of it
    image dst;
    switch ( sx_choice( "destination", 4 ) )
    {
    case 0: break;
    case 1: dst = image( w, h, d, false ); sx_reach( "kept-size" ); break;
    case 2: dst = image( w, h, d, true ); break;
    case 3: dst = image( 1 + sx_choice( "w0", 2 ), 1, 1 + sx_choice( "d0", lim ), sx_bool( "i0" ) ); break;
    }
    image win( *src );
    if ( sx_bool( "mirrored" ) ) { win = image( src->memory(), &( *src )( w - 1, h - 1 ), w, h, d, -src->w_step(), -src->h_step(), src->d_step() ); sx_reach( "from-window" ); }
    dst.copy_from( win );
    sx_assert( dst.width() == w && dst.height() == h && dst.depth() == d );
    sx_assert( dst.memory() != win.memory() );
    sx_assert( equal_content( dst, win ) );
    for ( size_t z = 0; z < d; ++z ) for ( size_t y = 0; y < h; ++y ) for ( size_t x = 0; x < w; ++x ) sx_assert( dst( x, y, z ) == win( x, y, z ) );
    unsigned i = (unsigned)sx_range( "column", 0, w - 1 ), j = (unsigned)sx_range( "row", 0, h - 1 ), k = (unsigned)sx_range( "channel", 0, d - 1 );
    unsigned char old = win( i, j, k ), v = (unsigned char)sx_var( "value", 8 );
    dst( i, j, k ) = v;
    sx_assert( win( i, j, k ) == old );
    // exactly one pixel changed in the copy: its pixels do not overlap
    unsigned changed = 0;
    for ( size_t z = 0; z < d; ++z ) for ( size_t y = 0; y < h; ++y ) for ( size_t x = 0; x < w; ++x ) changed += dst( x, y, z ) != win( x, y, z );
    sx_assert( changed == ( v != old ) );
    sx_reach( "deep" );
  }
  else
  {
    size_t w2 = sx_choice( "w2", lim + 1 ), h2 = sx_choice( "h2", lim + 1 ), d2 = sx_choice( "d2", lim + 1 );
    image share( *src );
    bool same = w == w2 && h == h2 && d == d2;
    src->set_size( w2, h2, d2 );
    sx_assert( src->width() == w2 && src->height() == h2 && src->depth() == d2 && src->size() == w2 * h2 * d2 );
    if ( same ) { sx_assert( src->memory() == share.memory() && src->first_pixel() == share.first_pixel() ); sx_reach( "kept-size" ); }
    else
    {
      sx_reach( "resized" );
      sx_assert( src->memory() != share.memory() );
      // every pixel has a byte of its own inside the new memory
      image::byte* base = (image::byte*)src->memory()->data();
      if ( w2 * h2 * d2 ) memset( base, 0, w2 * h2 * d2 );
      for ( size_t z = 0; z < d2; ++z ) for ( size_t y = 0; y < h2; ++y ) for ( size_t x = 0; x < w2; ++x )
      {
        image::byte* p = &( *src )( x, y, z );
        sx_assert( p >= base && p < base + w2 * h2 * d2 && *p == 0 );
        *p = 1;
      }
      if ( il && d2 == d && d > 1 ) { sx_assert( src->d_step() == 1 && src->w_step() == ptrdiff_t( d ) ); sx_reach( "interleave-kept" ); }
    }
    // the image that shared the old memory is untouched
    for ( size_t z = 0, q = 0; z < d; ++z ) for ( size_t y = 0; y < h; ++y ) for ( size_t x = 0; x < w; ++x ) sx_assert( share( x, y, z ) == px[q++] );
  }
  delete src;
}
