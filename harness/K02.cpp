// SX-SOURCES: kwsys:vital/kwiversys/MD5.c
// SX-REACH: blocks pieces reference text hex reused
// SX-ASSUME: messages below 512 MB; the digest itself is compared with the standard for fixed messages only, its independence of pieces and places for all bytes
#include "hx.h"
#include <kwsys/MD5.h>
#include <string.h>
#include <math.h>
typedef unsigned char byte;
typedef std::vector< byte > bytes;
// RFC 1321, written from its text
static unsigned rol( unsigned x, int s ) { return ( x << s ) | ( x >> ( 32 - s ) ); }
static const unsigned sines[64] = {
  0xd76aa478,0xe8c7b756,0x242070db,0xc1bdceee,0xf57c0faf,0x4787c62a,0xa8304613,0xfd469501,0x698098d8,0x8b44f7af,0xffff5bb1,0x895cd7be,0x6b901122,0xfd987193,0xa679438e,0x49b40821,
  0xf61e2562,0xc040b340,0x265e5a51,0xe9b6c7aa,0xd62f105d,0x02441453,0xd8a1e681,0xe7d3fbc8,0x21e1cde6,0xc33707d6,0xf4d50d87,0x455a14ed,0xa9e3e905,0xfcefa3f8,0x676f02d9,0x8d2a4c8a,
  0xfffa3942,0x8771f681,0x6d9d6122,0xfde5380c,0xa4beea44,0x4bdecfa9,0xf6bb4b60,0xbebfbc70,0x289b7ec6,0xeaa127fa,0xd4ef3085,0x04881d05,0xd9d4d039,0xe6db99e5,0x1fa27cf8,0xc4ac5665,
  0xf4292244,0x432aff97,0xab9423a7,0xfc93a039,0x655b59c3,0x8f0ccc92,0xffeff47d,0x85845dd1,0x6fa87e4f,0xfe2ce6e0,0xa3014314,0x4e0811a1,0xf7537e82,0xbd3af235,0x2ad7d2bb,0xeb86d391 };
static bytes reference( bytes m )
{
  static const int s[4][4] = { { 7, 12, 17, 22 }, { 5, 9, 14, 20 }, { 4, 11, 16, 23 }, { 6, 10, 15, 21 } };
  unsigned long long bits = 8ull * m.size();
  m.push_back( 0x80 ); while ( m.size() % 64 != 56 ) m.push_back( 0 );
  for ( int i = 0; i < 8; ++i ) m.push_back( (byte)( bits >> ( 8 * i ) ) );
  unsigned h[4] = { 0x67452301, 0xefcdab89, 0x98badcfe, 0x10325476 };
  for ( size_t o = 0; o < m.size(); o += 64 )
  {
    unsigned x[16], a = h[0], b = h[1], c = h[2], d = h[3];
    for ( int i = 0; i < 16; ++i ) x[i] = m[o+4*i] | m[o+4*i+1] << 8 | m[o+4*i+2] << 16 | (unsigned)m[o+4*i+3] << 24;
    for ( int i = 0; i < 64; ++i )
    {
      unsigned f; int k;
      switch ( i / 16 )
      {
      case 0: f = ( b & c ) | ( ~b & d ); k = i; break;
      case 1: f = ( b & d ) | ( c & ~d ); k = ( 5 * i + 1 ) % 16; break;
      case 2: f = b ^ c ^ d; k = ( 3 * i + 5 ) % 16; break;
      default: f = c ^ ( b | ~d ); k = 7 * i % 16;
      }
      unsigned t = a + f + x[k] + sines[i];
      a = d; d = c; c = b; b = rol( t, s[i/16][i%4] ) + b;
    }
    h[0] += a; h[1] += b; h[2] += c; h[3] += d;
  }
  bytes r;
  for ( int i = 0; i < 16; ++i ) r.push_back( (byte)( h[i/4] >> ( 8 * ( i % 4 ) ) ) );
  return r;
}
static bool same( byte const* a, byte const* b, size_t n ) { unsigned d = 0; for ( size_t i = 0; i < n; ++i ) d |= a[i] ^ b[i]; return d == 0; }
static bytes whole( bytes const& m )
{
  bytes r( 16 ), c( m ); c.push_back( 0 );
  kwsysMD5* p = kwsysMD5_New(); kwsysMD5_Initialize( p );
  kwsysMD5_Append( p, &c[0], (int)m.size() );
  kwsysMD5_Finalize( p, &r[0] );
  kwsysMD5_Delete( p );
  return r;
}
static const int sizes[] = { 0, 1, 4, 54, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129, 184 };
void sx_main()
{
  bool blocks = sx_bool( "blocks" );
  if ( blocks )
  {
    // whole blocks around a piece that began within one
    static const int first[] = { 1, 8, 63, 64 }; int n = 194; bytes m( n ), r( 16, 0xEE ); sx_bytes( &m[0], n, "m" );
    int a = first[ sx_choice( "first", 4 ) ], b = 128 - 1 + (int)sx_choice( "second", 3 ) + 64 * (int)sx_choice( "further", 2 );
    kwsysMD5* p = kwsysMD5_New(); kwsysMD5_Initialize( p );
    kwsysMD5_Append( p, &m[0], a ); kwsysMD5_Append( p, &m[a], b - a ); kwsysMD5_Append( p, &m[b], n - b );
    kwsysMD5_Finalize( p, &r[0] ); kwsysMD5_Delete( p );
    bytes w = whole( m ); sx_assert( same( &r[0], &w[0], 16 ) ); sx_reach( "blocks" ); return;
  }
  int n = sizes[ sx_choice( "length", sx_param( "lengths", 13, 16 ) ) ];
  bytes m( n ), r( 16, 0xEE );
  switch ( sx_choice( "what", 4 ) )
  {
  case 0:
  {
    // any bytes, in three pieces
    if ( n ) sx_bytes( &m[0], n, "m" );
    static const int cuts[] = { 0, 1, 3, 8, 31, 55, 56, 60, 63, 64, 65, 120, 128 };
    int c[2]; for ( int i = 0; i < 2; ++i ) { c[i] = cuts[ sx_choice( "cut", 13 ) ]; if ( c[i] > n ) c[i] = n; }
    if ( c[1] < c[0] ) return;
    // each piece at its own place in memory, so that it may be aligned or not
    int off = sx_choice( "place", 2 );
    kwsysMD5* p = kwsysMD5_New(); kwsysMD5_Initialize( p );
    int at[4] = { 0, c[0], c[1], n };
    for ( int i = 0; i < 3; ++i ) { int l = at[i+1] - at[i]; bytes q( l + off + 1 ); for ( int k = 0; k < l; ++k ) q[k+off] = m[at[i]+k]; kwsysMD5_Append( p, &q[off], l ); sx_assert( same( &q[off], l ? &m[at[i]] : &q[off], l ) ); }
    kwsysMD5_Finalize( p, &r[0] ); kwsysMD5_Delete( p );
    bytes w = whole( m );
    sx_assert( same( &r[0], &w[0], 16 ) );
    sx_reach( "pieces" );
    break;
  }
  case 1:
  {
    // the digest is the one of the standard, for fixed messages of all lengths: what ties the other cases to MD5
    n = sx_choice( "fixed length", 140 );
    m.resize( n ); int pattern = sx_choice( "pattern", 4 );
    for ( int i = 0; i < n; ++i ) m[i] = (byte)( pattern == 0 ? 37 * i + 11 : pattern == 1 ? 0xff - i : pattern == 2 ? i * i * 91 + ( i >> 2 ) : 0x80 );
    bytes w = whole( m ), e = reference( m );
    sx_assert( same( &w[0], &e[0], 16 ) );
    sx_reach( "reference" );
    break;
  }
  case 2:
  {
    // a negative length takes the text up to its end
    if ( n > 8 ) n = 8;
    char t[12]; sx_bytes( t, n, "t" ); t[n] = 0; t[n+1] = 'x';
    int l = 0; while ( t[l] ) ++l;
    m.assign( t, t + l );
    kwsysMD5* p = kwsysMD5_New(); kwsysMD5_Initialize( p );
    kwsysMD5_Append( p, (byte*)t, -1 - sx_choice( "less", 2 ) );
    kwsysMD5_Finalize( p, &r[0] );
    bytes w = whole( m );
    sx_assert( same( &r[0], &w[0], 16 ) );
    sx_reach( "text" );
    // the state is as new after it is initialized again
    kwsysMD5_Initialize( p );
    kwsysMD5_Append( p, (byte*)t, l ); kwsysMD5_Append( p, (byte*)t, 0 );
    char h[36]; memset( h, '!', sizeof h );
    kwsysMD5_FinalizeHex( p, h );
    char g[33]; kwsysMD5_DigestToHex( &w[0], g ); g[32] = 0;
    sx_assert( same( (byte*)h, (byte*)g, 32 ) && h[32] == '!' );
    kwsysMD5_Delete( p );
    sx_reach( "reused" );
    break;
  }
  default:
  {
    byte d[16]; sx_bytes( d, 16, "d" );
    char h[34]; h[32] = h[33] = '!';
    kwsysMD5_DigestToHex( d, h );
    sx_assert( h[32] == '!' && h[33] == '!' );
    for ( int i = 0; i < 16; ++i ) for ( int k = 0; k < 2; ++k )
    {
      int v = k ? d[i] & 15 : d[i] >> 4;
      sx_assert( h[2*i+k] == (char)( v < 10 ? '0' + v : 'a' + v - 10 ) );
    }
    kwsysMD5_Delete( 0 );
    sx_reach( "hex" );
  }
  }
}
