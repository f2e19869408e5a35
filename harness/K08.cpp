// SX-SOURCES: kwsys:vital/kwiversys/System.c kwsys:vital/kwiversys/String.c
// SX-REACH: none several quoted escaped open refused long many empty-argument less greater same
// SX-ASSUME: command lines of up to the stated number of arbitrary bytes, also behind a long argument that fills the parser's first buffer, and behind as many arguments as fill its first table; no NUL
#include "hx.h"
#include <kwsys/System.h>
#include <kwsys/String.h>
#include <cstdlib>
#include <strings.h>
typedef std::vector< std::string > texts;
// words as the header describes them: quotes of either kind group, a backslash takes the next byte as it is, a missing quote is supplied at the end
static texts words( std::string const& s )
{
  texts out; std::string cur; bool open = false; char quote = 0;
  for ( size_t i = 0; i < s.size(); ++i )
  {
    char c = s[i];
    if ( c == '\\' ) { if ( i + 1 < s.size() ) { cur += s[++i]; open = true; sx_reach( "escaped" ); } }
    else if ( quote ) { if ( c == quote ) quote = 0; else cur += c; }
    else if ( c == '"' || c == '\'' ) { quote = c; open = true; sx_reach( "quoted" ); }
    else if ( hx_space( c ) ) { if ( open ) { if ( cur.empty() ) sx_reach( "empty-argument" ); out.push_back( cur ); cur.clear(); open = false; } }
    else { cur += c; open = true; }
  }
  if ( quote ) sx_reach( "open" );
  if ( open ) out.push_back( cur );
  return out;
}
static void command( std::string const& s, texts const& before )
{
  std::string copy = s;
  char** got = kwsysSystem_Parse_CommandForUnix( copy.c_str(), 0 );
  sx_assert( got != 0 );
  texts want = words( s ); size_t n = 0;
  for ( ; got[n]; ++n ) { sx_assert( n < want.size() && hx_eq( got[n], want[n] ) ); }
  sx_assert( n == want.size() );
  for ( size_t i = 0; i < before.size(); ++i ) sx_assert( hx_eq( got[i], before[i] ) );
  for ( size_t i = 0; i < n; ++i ) free( got[i] );
  free( got );
  sx_assert( hx_eq( copy, s ) );
  if ( n == 0 ) sx_reach( "none" ); if ( n > 1 ) sx_reach( "several" );
}
static std::string text( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
static int lower( unsigned char c ) { return c >= 'A' && c <= 'Z' ? c + 32 : c; }
static int sign( int v ) { return v < 0 ? -1 : v > 0; }
static int order( std::string const& a, std::string const& b, size_t n )
{
  for ( size_t i = 0; i < n; ++i )
  {
    int x = i < a.size() ? lower( a[i] ) : 0, y = i < b.size() ? lower( b[i] ) : 0;
    if ( x != y ) return x < y ? -1 : 1; if ( ! x ) return 0;
  }
  return 0;
}
void sx_main()
{
  switch ( sx_choice( "what", 4 ) )
  {
  case 0: command( text( "command", 0, sx_param( "command_bytes", 5, 7 ) ), texts() ); break;
  case 1:
  {
    // the buffer for one argument holds 1024 bytes at first
    std::string lead( 1020 + sx_choice( "length", 6 ), 'x' );
    command( lead + text( "command", 0, sx_param( "long_bytes", 3, 4 ) ), texts() ); sx_reach( "long" ); break;
  }
  case 2:
  {
    texts lead; std::string s; int n = 30 + sx_choice( "arguments", 5 );
    if ( sx_choice( "twice", 2 ) ) n += 32;
    for ( int i = 0; i < n; ++i ) { lead.push_back( std::string( 1 + i % 3, (char)( 'a' + i % 26 ) ) ); s += lead.back() + " "; }
    command( s + text( "command", 0, sx_param( "many_bytes", 3, 4 ) ), lead ); sx_reach( "many" ); break;
  }
  default:
  {
    int flags = (int)sx_range( "flags", -3, 3 );
    if ( flags ) { sx_assert( kwsysSystem_Parse_CommandForUnix( "a", flags ) == 0 ); sx_reach( "refused" ); }
    int m = sx_param( "compared_bytes", 2, 3 ); std::string a = text( "left", 0, m ), b = text( "right", 0, m ); size_t n = sx_range( "limit", 0, m + 1 );
    int r = order( a, b, 100 );
    sx_assert( sign( kwsysString_strcasecmp( a.c_str(), b.c_str() ) ) == r );
    sx_assert( sign( kwsysString_strncasecmp( a.c_str(), b.c_str(), n ) ) == order( a, b, n ) );
    sx_reach( r < 0 ? "less" : r ? "greater" : "same" );
  }
  }
}
