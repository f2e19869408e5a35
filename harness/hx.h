// Helpers shared by the harnesses.
#ifndef HX_H
#define HX_H
#include "sx.h"
#include <string>
#include <vector>
#include <cstring>
// a string of symbolic bytes, its length one of lo..hi (each length a separate set of paths)
static inline std::string hx_str( const char* nm, int lo, int hi )
{
  int n = ( lo == hi ) ? lo : lo + sx_choice( nm, hi - lo + 1 );
  char b[64];
  if ( n ) sx_bytes( b, n, nm );
  return std::string( b, (size_t)n );
}
static inline bool hx_in( char c, const char* alphabet )
{
  bool r = false;
  for ( ; *alphabet; ++alphabet ) r |= ( c == *alphabet );
  return r;
}
// same, every byte taken from the alphabet
static inline std::string hx_stra( const char* nm, int lo, int hi, const char* alphabet )
{
  std::string s = hx_str( nm, lo, hi );
  bool ok = true;
  for ( size_t i = 0; i < s.size(); ++i ) ok &= hx_in( s[i], alphabet );
  sx_assume( ok );
  return s;
}
// same, every byte in [a,b]
static inline std::string hx_strr( const char* nm, int lo, int hi, char a, char b )
{
  std::string s = hx_str( nm, lo, hi );
  bool ok = true;
  for ( size_t i = 0; i < s.size(); ++i ) ok &= ( s[i] >= a ) & ( s[i] <= b );
  sx_assume( ok );
  return s;
}
// branch-free equality
static inline bool hx_eq( std::string const& a, std::string const& b )
{
  if ( a.size() != b.size() ) return false;
  unsigned d = 0;
  for ( size_t i = 0; i < a.size(); ++i ) d |= (unsigned)( (unsigned char)a[i] ^ (unsigned char)b[i] );
  return d == 0;
}
static inline bool hx_space( char c )
{ return ( c == ' ' ) | ( c == '\t' ) | ( c == '\n' ) | ( c == '\v' ) | ( c == '\f' ) | ( c == '\r' ); }
static inline std::string hx_trim( std::string const& s )
{
  size_t b = 0, e = s.size();
  while ( b < e && hx_space( s[b] ) ) ++b;
  while ( e > b && hx_space( s[e-1] ) ) --e;
  return s.substr( b, e - b );
}
// runs the expression, tells whether it threw exactly/derived T; any other exception propagates
#define HX_THROWS( expr, T ) ( [&]() -> bool { try { (void)( expr ); return false; } catch ( T const& ) { return true; } }() )
#define HX_THROWS_ANY( expr ) ( [&]() -> bool { try { (void)( expr ); return false; } catch ( std::exception const& ) { return true; } }() )
#endif
