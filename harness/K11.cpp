// SX-SOURCES: vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx
// SX-STUBS: sysinfo.cpp
// SX-REACH: set unset replaced empty parts no-parts in-path in-user nowhere as-named directory-passed library program-args no-program spaces
// SX-ASSUME: two variables, one the beginning of the other's name, with values of up to the stated number of arbitrary bytes; search paths of four bytes; programs in a scratch directory
#include "hx.h"
#include <kwiversys/SystemTools.hxx>
#include <cstdlib>
#include <sys/stat.h>
#include <unistd.h>
typedef kwiversys::SystemTools ST; typedef std::vector< std::string > texts;
static std::string text( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
static void file( std::string const& p ) { sx_file( p.c_str(), "x", 1 ); }
void sx_main()
{
  std::string d = sx_scratch();
  switch ( sx_choice( "what", 4 ) )
  {
  case 0:
  {
    static const char* names[2] = { "SX_VAR", "SX_VARIABLE" }; bool is[2] = { false, false }; std::string value[2];
    int steps = sx_param( "changes", 3, 4 );
    for ( int i = 0; i < steps; ++i )
    {
      int n = sx_choice( "variable", 2 ); std::string name = names[n];
      switch ( sx_choice( "change", 4 ) )
      {
      case 0: { std::string v = text( "value", 0, sx_param( "value_bytes", 2, 3 ) ); if ( is[n] ) sx_reach( "replaced" ); sx_assert( ST::PutEnv( name + "=" + v ) ); is[n] = true; value[n] = v; sx_reach( v.empty() ? "empty" : "set" ); break; }
      case 1: sx_assert( ST::UnPutEnv( name ) ); is[n] = false; sx_reach( "unset" ); break;
      case 2: sx_assert( ST::UnPutEnv( name + "=" + text( "ignored", 0, 1 ) ) ); is[n] = false; break;
      default: sx_assert( ST::PutEnv( name ) ); is[n] = false;
      }
    }
    for ( int n = 0; n < 2; ++n )
    {
      const char* v = ST::GetEnv( names[n] ); sx_assert( ( v != 0 ) == is[n] ); if ( v ) sx_assert( hx_eq( v, value[n] ) );
      std::string r = "before"; sx_assert( ST::GetEnv( names[n], r ) == is[n] ); sx_assert( hx_eq( r, is[n] ? value[n] : "before" ) );
      std::string k = names[n]; r = "before"; sx_assert( ST::GetEnv( k, r ) == is[n] ); sx_assert( ( ST::GetEnv( k ) != 0 ) == is[n] );
    }
    break;
  }
  case 1:
  {
    std::string v = text( "paths", 0, sx_param( "path_bytes", 4, 5 ) ); for ( size_t i = 0; i < v.size(); ++i ) sx_assume( v[i] != '~' );
    bool standard = sx_choice( "standard", 2 ), missing = sx_choice( "missing", 2 ); const char* name = standard ? "PATH" : "SX_PATHS";
    if ( missing ) unsetenv( name ); else setenv( name, v.c_str(), 1 );
    texts want( 1, "first" ), got = want; std::string cur;
    if ( ! missing ) { for ( size_t i = 0; i < v.size(); ++i ) if ( v[i] == ':' ) { ST::ConvertToUnixSlashes( cur ); want.push_back( cur ); cur.clear(); } else cur += v[i]; if ( ! cur.empty() ) { ST::ConvertToUnixSlashes( cur ); want.push_back( cur ); } }
    ST::GetPath( got, standard ? 0 : name );
    sx_assert( got.size() == want.size() ); for ( size_t i = 0; i < got.size(); ++i ) sx_assert( hx_eq( got[i], want[i] ) );
    sx_reach( want.size() > 1 ? "parts" : "no-parts" );
    break;
  }
  case 2:
  {
    // what is there: nothing, a file, a directory, at each place searched
    static const char* dirs[4] = { "/one", "/two", "/three", "/four" }; bool lib = sx_choice( "library", 2 ); int kind[4];
    for ( int i = 0; i < 4; ++i )
    {
      sx_assert( mkdir( ( d + dirs[i] ).c_str(), 0700 ) == 0 ); kind[i] = sx_choice( "place", 3 );
      std::string p = d + dirs[i] + ( lib ? "/libsx_name.so" : "/sx_name" ); if ( kind[i] == 1 ) file( p ); else if ( kind[i] == 2 ) sx_assert( mkdir( p.c_str(), 0700 ) == 0 );
    }
    setenv( "PATH", ( d + "/one:" + d + "/two" ).c_str(), 1 ); unsetenv( "CMAKE_FILE_PATH" );
    texts user; user.push_back( d + "/three" ); user.push_back( d + "/four/" );
    bool system = lib || sx_choice( "system", 2 ); int first = -1, program = -1;
    for ( int i = system ? 0 : 2; i < 4; ++i ) { if ( first < 0 && kind[i] ) first = i; if ( program < 0 && kind[i] == 1 ) program = i; }
    std::string hit = program < 0 ? "" : d + dirs[program] + ( lib ? "/libsx_name.so" : "/sx_name" );
    if ( lib ) { sx_assert( ST::FindLibrary( "sx_name", user ) == hit ); sx_reach( "library" ); }
    else
    {
      sx_assert( ST::FindProgram( "sx_name", user, ! system ) == hit && ST::FindProgram( std::string( "sx_name" ), user, ! system ) == hit );
      texts names; names.push_back( "sx_other" ); names.push_back( "sx_name" ); sx_assert( ST::FindProgram( names, user, ! system ) == hit );
      std::string at = first < 0 ? "" : d + dirs[first] + "/sx_name";
      sx_assert( ST::FindFile( "sx_name", user, ! system ) == ( first >= 0 && kind[first] == 1 ? at : "" ) );
      sx_assert( ST::FindDirectory( "sx_name", user, ! system ) == ( first >= 0 && kind[first] == 2 ? at : "" ) );
      sx_assert( ST::FindProgram( "", user ) == "" && ST::FindProgram( (const char*)0, user ) == "" );
      if ( program >= 0 ) { sx_assert( ST::FindProgram( hit, texts(), true ) == hit ); sx_reach( "as-named" ); }
    }
    if ( program > first && first >= 0 ) sx_reach( "directory-passed" );
    sx_reach( program < 0 ? "nowhere" : program < 2 ? "in-path" : "in-user" );
    break;
  }
  default:
  {
    // the longest part before a space that is a program
    static const char* there[4] = { "/sx", "/sx a", "/sx a b", "/sx -v" }; bool is[4]; d += "/bin"; sx_assert( mkdir( d.c_str(), 0700 ) == 0 ); for ( int i = 0; i < 4; ++i ) { is[i] = sx_choice( "there", 2 ); if ( is[i] ) file( d + there[i] ); }
    static const char* args[11] = { "", " ", " a", " a b", " a b c", "  -x", " a  z", " -v", " -v a", " -v -v", " a -v" }; bool path = sx_choice( "by path", 2 ), blank = sx_choice( "blank in front", 2 );
    setenv( "PATH", d.c_str(), 1 ); std::string rest = args[sx_choice( "arguments", 11 )];
    std::string line = ( path ? "sx" : d + "/sx" ) + rest, program = "old", arguments = "old";
    if ( blank ) line = " " + line;
    ST::SplitProgramFromArgs( line, program, arguments );
    std::string want, want_args;
    if ( ! blank )
      for ( size_t n = rest.size() + 1; n-- > 0; )
      {
        if ( n < rest.size() && rest[n] != ' ' ) continue;
        std::string p = "/sx" + rest.substr( 0, n ); bool hit = false; for ( int i = 0; i < 4; ++i ) hit |= is[i] && p == there[i];
        if ( hit ) { want = d + p; want_args = rest.substr( n ); break; }
      }
    sx_assert( program == want && arguments == want_args );
    if ( blank ) sx_reach( "spaces" ); else sx_reach( want.empty() ? "no-program" : "program-args" );
  }
  }
}
