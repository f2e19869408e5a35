// SX-SOURCES: kwsys:vital/kwiversys/Glob.cxx kwsys:vital/kwiversys/SystemTools.cxx kwsys:vital/kwiversys/RegularExpression.cxx kwsys:vital/kwiversys/EncodingC*.c* kwsys:vital/kwiversys/FStream.cxx kwsys:vital/kwiversys/Directory.cxx kwsys:vital/kwiversys/System.c kwsys:vital/kwiversys/String.c
// SX-REACH: matched unmatched set complement literal-bracket star question part files none subdirectory recursive directories relative links loop
// SX-ASSUME: patterns and names of up to the stated number of arbitrary bytes without NUL; names without '/' where the pattern holds a set, whose ranges are in order; one small directory tree with a link and a link loop, made in a scratch directory; patterns for it without backslash and blanks, not ending in a slash
#include "hx.h"
#include <kwsys/Glob.hxx>
#include <kwsys/RegularExpression.hxx>
#include <kwsys/SystemTools.hxx>
#include <algorithm>
#include <unistd.h>
#include <sys/stat.h>
typedef kwsys::Glob G;
static std::string text( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
static bool ordered = true, with_set = false;
// one bracket expression: end (past the ']') or 0 when there is none
static size_t bracket( std::string const& p, size_t i )
{
  size_t j = i + 1; if ( j < p.size() && ( p[j] == '!' || p[j] == '^' ) ) ++j; if ( j < p.size() && p[j] == ']' ) ++j;
  while ( j < p.size() && p[j] != ']' ) ++j; return j < p.size() ? j + 1 : 0;
}
static bool in_set( std::string const& p, size_t i, size_t end, unsigned char c )
{
  size_t j = i + 1; bool neg = p[j] == '!' || p[j] == '^'; if ( neg ) { ++j; sx_reach( "complement" ); } else sx_reach( "set" );
  bool in = false; size_t first = j;
  for ( ; j < end - 1; ++j )
  {
    unsigned char a = p[j];
    if ( a == '-' && j > first && j + 1 < end - 1 ) { unsigned char lo = p[j-1], hi = p[j+1]; if ( lo > hi ) ordered = false; in |= ( c >= lo ) & ( c <= hi ); ++j; }
    else in |= c == a;
  }
  return in != neg;
}
static bool glob( std::string const& p, size_t i, std::string const& s, size_t j, bool whole )
{
  if ( i == p.size() ) return ! whole || j == s.size();
  if ( p[i] == '*' ) { sx_reach( "star" ); for ( size_t k = j; ; ++k ) { if ( glob( p, i + 1, s, k, whole ) ) return true; if ( k >= s.size() || s[k] == '/' ) return false; } }
  if ( p[i] == '[' ) { size_t e = bracket( p, i ); if ( e ) { with_set = true; if ( j >= s.size() ) return false; bool in = in_set( p, i, e, s[j] ); return ( in && s[j] != '/' ) ? glob( p, e, s, j + 1, whole ) : false; } sx_reach( "literal-bracket" ); }
  if ( j >= s.size() ) return false;
  if ( p[i] == '?' ) { sx_reach( "question" ); return s[j] != '/' && glob( p, i + 1, s, j + 1, whole ); }
  return p[i] == s[j] && glob( p, i + 1, s, j + 1, whole );
}
static bool sane( std::string const& p ) // ranges in order
{
  for ( size_t i = 0; i < p.size(); ++i ) if ( p[i] == '[' ) { size_t e = bracket( p, i ); if ( e ) { ordered = true; in_set( p, i, e, 'a' ); if ( ! ordered ) return false; i = e - 1; } }
  return true;
}
static bool sets( std::string const& p ) { for ( size_t i = 0; i < p.size(); ++i ) if ( p[i] == '[' && bracket( p, i ) ) return true; return false; }
struct entry { const char* path; bool dir; };
static void make( std::string const& r )
{
  std::string d = r + "/d"; mkdir( d.c_str(), 0700 ); mkdir( ( d + "/s" ).c_str(), 0700 ); mkdir( ( d + "/s/t" ).c_str(), 0700 );
  const char* files[] = { "/a", "/ab", "/.h", "/s/a", "/s/b", "/s/t/c" }; for ( const char* f : files ) sx_file( ( d + f ).c_str(), "", 0 );
  int e = symlink( "s", ( d + "/l" ).c_str() ); e |= symlink( "../..", ( d + "/s/t/u" ).c_str() ); sx_assert( e == 0 );
}
void sx_main()
{
  int what = sx_choice( "what", 3 );
  if ( what == 0 )
  {
    bool set = sx_choice( "starts with a set", 2 );
    std::string p = set ? "[" + text( "pattern", 0, sx_param( "set_bytes", 3, 4 ) ) : text( "pattern", 0, sx_param( "pattern_bytes", 3, 4 ) ), s = text( "name", 0, set ? 1 : sx_param( "name_bytes", 2, 3 ) );
    sx_assume( sane( p ) );
    if ( sets( p ) ) for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != '/' );
    bool want = glob( p, 0, s, 0, true );
    kwsys::RegularExpression re( G::PatternToRegex( p ) );
    sx_assert( re.is_valid() && re.find( s ) == want );
    sx_reach( want ? "matched" : "unmatched" );
  }
  else if ( what == 1 )
  {
    std::string p = text( "pattern", 0, 2 ), s = text( "name", 0, 2 ); sx_assume( sane( p ) );
    for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != '/' );
    bool want = false; for ( size_t i = 0; i <= s.size(); ++i ) want |= glob( p, 0, s, i, false );
    std::string e = G::PatternToRegex( p, false, true );
    if ( ! p.empty() ) { kwsys::RegularExpression re( e ); sx_assert( re.find( s ) == want ); } else sx_assert( e.empty() );
    sx_reach( "part" );
  }
  else
  {
    std::string r = sx_scratch(), d = r + "/d"; make( r );
    bool rec = sx_choice( "recurse", 2 ), through = rec && sx_choice( "through links", 2 ), list = sx_choice( "list directories", 2 ), rel = sx_choice( "relative", 2 ), start = sx_choice( "below", 2 );
    bool above = sx_choice( "level above", 2 );
    std::string p = text( "pattern", 1, above ? sx_param( "below_bytes", 1, 2 ) : sx_param( "find_bytes", 2, 3 ) );
    for ( size_t i = 0; i < p.size(); ++i ) sx_assume( ( p[i] != '\\' ) & ( p[i] > 32 ) & ( p[i] < 127 ) );
    sx_assume( sane( p ) && p[p.size()-1] != '/' ); // what a slash at the end means is not documented
    if ( above ) p = ( sx_choice( "star above", 2 ) ? "*/" : "?/" ) + p;
    G g; g.SetRecurse( rec ); g.SetRecurseThroughSymlinks( through ); g.SetListDirs( list ); g.SetRecurseListDirs( list );
    if ( rel ) g.SetRelative( d.c_str() );
    G::GlobMessages messages;
    sx_assert( g.FindFiles( d + ( start ? "/s/" : "/" ) + p, &messages ) );
    std::vector< std::string > got = g.GetFiles(), want, parts( 1 );
    for ( size_t i = 0; i < p.size(); ++i ) if ( p[i] == '/' ) { if ( ! parts.back().empty() ) parts.push_back( "" ); } else parts.back() += p[i];
    if ( parts.back().empty() ) parts.pop_back();
    // every path of the tree; links are followed by name, and, in recursion, when asked for, until they lead back
    static const char* top[] = { "a", "ab", ".h", "s", "l" }; static const char* sub[] = { "a", "b", "t" }; static const char* low[] = { "c", "u" };
    struct walk
    {
      std::vector< std::string > const& parts; std::vector< std::string >& want; bool rec, through, list;
      // kind of directory: 0 the top, 1 s, 2 t
      static void entries( int kind, std::vector< std::pair< std::string, int > >& out ) // kind of entry: -1 file, 0.. directory, +10 link
      {
        if ( kind == 0 ) { out.push_back( { "a", -1 } ); out.push_back( { "ab", -1 } ); out.push_back( { ".h", -1 } ); out.push_back( { "s", 1 } ); out.push_back( { "l", 11 } ); }
        else if ( kind == 1 ) { out.push_back( { "a", -1 } ); out.push_back( { "b", -1 } ); out.push_back( { "t", 2 } ); }
        else { out.push_back( { "c", -1 } ); out.push_back( { "u", 10 } ); }
      }
      void deep( int kind, std::string const& dir, std::vector< int > visited )
      {
        std::vector< std::pair< std::string, int > > es; entries( kind, es );
        for ( auto const& e : es )
        {
          std::string path = dir + "/" + e.first; bool link = e.second >= 10;
          if ( e.second >= 0 && ( ! link || through ) )
          {
            std::vector< int > v = visited;
            if ( link ) { if ( std::find( v.begin(), v.end(), kind ) != v.end() ) { sx_reach( "loop" ); continue; } v.push_back( kind ); sx_reach( "links" ); }
            if ( list ) want.push_back( path );
            deep( e.second % 10, path, v );
          }
          else if ( glob( parts.back(), 0, e.first, 0, true ) ) want.push_back( path );
        }
      }
      void level( size_t n, int kind, std::string const& dir )
      {
        if ( n >= parts.size() ) return;
        bool last = n + 1 == parts.size(); if ( last && rec ) { deep( kind, dir, std::vector< int >() ); sx_reach( "recursive" ); return; }
        std::vector< std::pair< std::string, int > > es; entries( kind, es );
        for ( auto const& e : es )
        {
          if ( last ? e.second >= 0 && ! list : e.second < 0 ) continue;
          if ( ! glob( parts[n], 0, e.first, 0, true ) ) continue;
          if ( last ) { want.push_back( dir + "/" + e.first ); if ( e.second >= 0 ) sx_reach( "directories" ); } else { sx_reach( "subdirectory" ); level( n + 1, e.second % 10, dir + "/" + e.first ); }
        }
      }
    } w = { parts, want, rec, through, list };
    w.level( 0, start ? 1 : 0, rel ? ( start ? "s" : "" ) : d + ( start ? "/s" : "" ) );
    if ( rel ) { for ( auto& x : want ) if ( x[0] == '/' ) x.erase( 0, 1 ); sx_reach( "relative" ); }
    for ( auto& x : got ) for ( size_t i = 1; i < x.size(); ) if ( x[i] == '/' && x[i-1] == '/' ) x.erase( i, 1 ); else ++i; // "a//b" is "a/b"
    std::sort( got.begin(), got.end() ); std::sort( want.begin(), want.end() );
    sx_assert( got.size() == want.size() ); for ( size_t i = 0; i < got.size(); ++i ) sx_assert( hx_eq( got[i], want[i] ) );
    sx_reach( got.empty() ? "none" : "files" );
  }
}
