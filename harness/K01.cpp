// SX-SOURCES: kwsys:vital/kwiversys/Base64.c
// SX-REACH: empty whole one two marked garbage invalid known-length limited partial
// SX-ASSUME: data of up to 8 (12) arbitrary bytes; decoder input of up to 9 (14) arbitrary bytes of which '=' only where the encoder puts it
#include "hx.h"
#include <kwsys/Base64.h>
#include <memory>
typedef unsigned char u8;
static const char alphabet[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static u8 digit( unsigned v ) { return (u8)alphabet[v & 63]; }
static signed char values[256];
static void tables() { memset( values, -1, 256 ); for ( int i = 0; i < 64; ++i ) values[(u8)alphabet[i]] = (signed char)i; }
static int value( u8 c ) { return values[c]; }
static std::string ref( u8 const* d, size_t n )
{
  std::string o;
  for ( size_t i = 0; i < n; i += 3 )
  {
    unsigned long v = (unsigned long)d[i] << 16; if ( i + 1 < n ) v |= (unsigned long)d[i+1] << 8; if ( i + 2 < n ) v |= d[i+2];
    for ( int k = 0; k < 4; ++k ) o += ( i + k > n ) ? '=' : (char)digit( (unsigned)( v >> ( 18 - 6 * k ) ) );
  }
  return o;
}
static bool same( u8 const* a, u8 const* b, size_t n ) { unsigned d = 0; for ( size_t i = 0; i < n; ++i ) d |= a[i] ^ b[i]; return d == 0; }
static void round_trip()
{
  int n = sx_choice( "bytes", sx_param( "bytes", 8, 12 ) + 1 ); std::unique_ptr< u8[] > d( new u8[n] ); if ( n ) sx_bytes( d.get(), n, "data" );
  bool mark = sx_bool( "mark end" ); std::string want = ref( d.get(), n ); if ( mark && n % 3 == 0 ) { want += "===="; sx_reach( "marked" ); }
  std::unique_ptr< u8[] > e( new u8[want.size()] );
  sx_assert( kwsysBase64_Encode( d.get(), n, e.get(), mark ? 1 : 0 ) == want.size() );
  sx_assert( hx_eq( std::string( (char*)e.get(), want.size() ), want ) );
  sx_reach( n == 0 ? "empty" : n % 3 == 0 ? "whole" : n % 3 == 1 ? "one" : "two" );
  int how = sx_choice( "decode", 3 );
  if ( how == 0 )
  { // the length is known
    std::unique_ptr< u8[] > o( new u8[n] ); sx_assert( kwsysBase64_Decode( e.get(), n, o.get(), 0 ) == (size_t)n && same( o.get(), d.get(), n ) ); sx_reach( "known-length" );
    // any shorter prefix as well
    int m = n ? sx_choice( "prefix", n ) : 0; std::unique_ptr< u8[] > q( new u8[m] ); sx_assert( kwsysBase64_Decode( e.get(), m, q.get(), 0 ) == (size_t)m && same( q.get(), d.get(), m ) );
  }
  else if ( how == 1 && want.size() )
  { // only the size of the encoded text is known
    std::unique_ptr< u8[] > o( new u8[want.size() / 4 * 3] ); sx_assert( kwsysBase64_Decode( e.get(), sx_choice( "ignored", 2 ), o.get(), want.size() ) == (size_t)n && same( o.get(), d.get(), n ) ); sx_reach( "limited" );
  }
  else if ( want.size() && want[want.size() - 1] == '=' )
  { // whatever follows the end
    std::string x = want + hx_str( "garbage", 4, 4 ); std::unique_ptr< u8[] > i( new u8[x.size()] ), o( new u8[x.size() / 4 * 3] ); memcpy( i.get(), x.data(), x.size() );
    sx_assert( kwsysBase64_Decode( i.get(), 0, o.get(), x.size() ) == (size_t)n && same( o.get(), d.get(), n ) ); sx_reach( "garbage" );
  }
}
static void refuse()
{
  int n = 1 + sx_choice( "bytes", sx_param( "encoded_bytes", 9, 14 ) ); std::unique_ptr< u8[] > e( new u8[n] ), o( new u8[( n + 3 ) / 4 * 3] ); sx_bytes( e.get(), n, "text" );
  bool eq = false; for ( int i = 0; i < n; ++i ) eq |= e[i] == '='; sx_assume( ! eq );
  // complete groups of valid characters up to the first that is not
  std::vector< u8 > want;
  for ( int i = 0; i + 4 <= n; i += 4 )
  {
    int a = value( e[i] ), b = value( e[i+1] ), c = value( e[i+2] ), f = value( e[i+3] );
    u8 g[3]; int k = 0; bool one = i == 0 && n == 4; if ( one ) k = kwsysBase64_Decode3( e.get(), g );
    if ( ( a < 0 ) | ( b < 0 ) | ( c < 0 ) | ( f < 0 ) ) { sx_assert( k == 0 ); sx_reach( "invalid" ); break; }
    want.push_back( (u8)( a << 2 | b >> 4 ) ); want.push_back( (u8)( b << 4 | c >> 2 ) ); want.push_back( (u8)( c << 6 | f ) );
    sx_assert( ! one || k == 3 && same( g, &want[want.size() - 3], 3 ) );
  }
  sx_assert( kwsysBase64_Decode( e.get(), 0, o.get(), n ) == want.size() && ( want.empty() || same( o.get(), &want[0], want.size() ) ) );
  if ( n % 4 ) sx_reach( "partial" );
}
void sx_main() { tables(); if ( sx_bool( "round trip" ) ) round_trip(); else refuse(); }
