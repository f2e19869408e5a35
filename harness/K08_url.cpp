// SX-SOURCES: vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx
// SX-STUBS: sysinfo.cpp
// SX-REACH: protocol no-protocol all bare user port path slashes no-host
// SX-ASSUME: addresses put together from arbitrary parts of up to the stated lengths: letters and digits for protocol and user, digits for the port, bytes without ':', '@' (and, for the host, '/') for password and host, any bytes for the path (without '@' where a port could be read as a password); arbitrary texts up to the stated length for those that are no addresses; no NUL
#include "hx.h"
#include <kwiversys/SystemTools.hxx>
typedef kwiversys::SystemTools ST;
static std::string text( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
static bool alnum( unsigned char c ) { return ( ( c >= '0' ) & ( c <= '9' ) ) | ( ( ( c | 32 ) >= 'a' ) & ( ( c | 32 ) <= 'z' ) ); }
static std::string word( const char* n, int lo, int hi ) { std::string s = text( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( alnum( s[i] ) ); return s; }
static std::string digits( const char* n, int lo, int hi ) { std::string s = text( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( ( s[i] >= '0' ) & ( s[i] <= '9' ) ); return s; }
static std::string plain( const char* n, int lo, int hi, bool slash ) { std::string s = text( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( ( s[i] != ':' ) & ( s[i] != '@' ) & ( slash | ( s[i] != '/' ) ) ); return s; }
void sx_main()
{
  int what = sx_choice( "what", 3 );
  if ( what == 0 )
  {
    std::string p = word( "protocol", 0, sx_param( "protocol_bytes", 2, 3 ) ), d = text( "rest", 0, sx_param( "rest_bytes", 3, 4 ) ), a = "old", b = "older";
    sx_assert( ST::ParseURLProtocol( p + "://" + d, a, b ) && hx_eq( a, p ) && hx_eq( b, d ) ); sx_reach( "protocol" );
  }
  else if ( what == 1 )
  {
    // no protocol, or no host
    std::string s = text( "text", 0, sx_param( "text_bytes", 4, 5 ) ), a = "1", b = "2", c = "3", d = "4", e = "5", f = "6"; bool has = false;
    for ( size_t i = 0; i + 2 < s.size(); ++i ) has |= ( s[i] == ':' ) & ( s[i+1] == '/' ) & ( s[i+2] == '/' );
    sx_assert( ST::ParseURLProtocol( s, a, b ) == has );
    if ( ! has ) { sx_assert( a == "1" && b == "2" ); sx_reach( "no-protocol" ); }
    a = "1"; b = "2";
    if ( ! has ) { sx_assert( ! ST::ParseURL( s, a, b, c, d, e, f ) ); }
    else
    {
      std::string h = plain( "host", 0, 2, false ); // no slash behind the host
      a = "1"; if ( ! ST::ParseURL( "ab://" + h, a, b, c, d, e, f ) ) sx_reach( "no-host" ); else sx_fail( "an address without a path" );
      sx_assert( ! ST::ParseURL( "ab:///" + h, a, b, c, d, e, f ) ); sx_reach( "slashes" );
    }
    sx_assert( a == "1" && b == "2" && c == "3" && d == "4" && e == "5" && f == "6" );
  }
  else
  {
    bool user = sx_choice( "user", 2 ), pass = user && sx_choice( "password", 2 ), port = sx_choice( "port", 2 );
    std::string p = word( "protocol", 0, sx_param( "url_protocol_bytes", 1, 2 ) ), u, w, h, o, d, s = p + "://";
    if ( user ) { u = word( "user name", 1, sx_param( "user_bytes", 1, 2 ) ); s += u; if ( pass ) { w = plain( "pass word", 1, sx_param( "password_bytes", 2, 2 ), true ); s += ":" + w; } s += "@"; }
    h = plain( "host", 1, sx_param( "host_bytes", 2, 3 ), false ); s += h;
    if ( port ) { o = digits( "port", 1, sx_param( "port_bytes", 2, 2 ) ); s += ":" + o; }
    d = text( "path", 0, sx_param( "path_bytes", 2, 3 ) );
    if ( port && ! user ) for ( size_t i = 0; i < d.size(); ++i ) sx_assume( d[i] != '@' );
    s += "/" + d;
    std::string a = "1", b = "2", c = "3", e = "4", f = "5", g = "6";
    sx_assert( ST::ParseURL( s, a, b, c, e, f, g ) );
    sx_assert( hx_eq( a, p ) && hx_eq( b, u ) && hx_eq( c, w ) && hx_eq( e, h ) && hx_eq( f, o ) && hx_eq( g, d ) );
    if ( user && pass && port && ! d.empty() ) sx_reach( "all" );
    if ( ! user && ! port && d.empty() ) sx_reach( "bare" );
    if ( user && ! pass ) sx_reach( "user" ); if ( port && ! user ) sx_reach( "port" ); if ( d.size() > 1 ) sx_reach( "path" );
  }
}
