// SX-SOURCES: vital/kwiversys/CommandLineArguments.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx
// SX-STUBS: sysinfo.cpp
// SX-REACH: none concat space equal multi unknown stored stopped refused complete missing
// SX-ASSUME: seven options, at least one of each kind, one the beginning of another; arguments without NUL up to the stated lengths
#include "hx.h"
#include <kwiversys/CommandLineArguments.hxx>
#include <iostream>
#include <sstream>
#include <vector>
typedef kwiversys::CommandLineArguments CLA;
struct option { const char* name; CLA::ArgumentTypeEnum type; };
static const option options[] = { { "-a", CLA::NO_ARGUMENT }, { "-c", CLA::CONCAT_ARGUMENT }, { "-s", CLA::SPACE_ARGUMENT }, { "-e", CLA::EQUAL_ARGUMENT }, { "-m", CLA::MULTI_ARGUMENT }, { "-cc", CLA::EQUAL_ARGUMENT }, { "-cd", CLA::CONCAT_ARGUMENT } };
static const int n_options = 7;
typedef std::vector< std::string > texts;
static texts events; static int refuse_at, unknown_answer; static std::vector< std::string > strangers; static int cookie, other;
static int callback( const char* a, const char* v, void* d ) { sx_assert( d == &cookie ); if ( (int)events.size() == refuse_at ) return 0; events.push_back( std::string( a ) + "\n" + ( v ? v : "\t" ) ); return 1; }
static int stranger( const char* a, void* d ) { sx_assert( d == &other ); strangers.push_back( a ); return unknown_answer; }
static std::string text( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
static int which( std::string const& a ) // the longest option the argument starts with, or is
{
  int best = -1; for ( int i = 0; i < n_options; ++i )
  {
    std::string n = options[i].name; bool whole = options[i].type == CLA::NO_ARGUMENT || options[i].type == CLA::SPACE_ARGUMENT;
    bool hit = whole ? hx_eq( a, n ) : a.size() >= n.size() && hx_eq( a.substr( 0, n.size() ), n ); if ( hit && ( best < 0 || n.size() > strlen( options[best].name ) ) ) best = i;
  }
  return best;
}
static void check( texts const& argv, char** got, int n, size_t from ) { sx_assert( n == 1 + (int)( argv.size() - from ) && hx_eq( got[0], "prog" ) ); for ( int i = 1; i < n; ++i ) sx_assert( hx_eq( got[i], argv[from + i - 1] ) ); }
void sx_main()
{
  texts argv; int n = sx_choice( "arguments", sx_param( "max_arguments", 3, 3 ) + 1 );
  for ( int i = 0; i < n; ++i ) { int k = n == 3 && ! i && ! sx_thorough() ? ( sx_bool( "many" ) ? 4 : 2 ) : (int)sx_choice( "kind", n_options + 1 ); if ( n == 3 && k == 2 ) { argv.push_back( "-s" ); continue; } if ( n == 3 && k == 4 ) { argv.push_back( "-m" ); continue; } argv.push_back( k == n_options ? text( "text", 0, n == 3 ? 1 : 2 ) : options[k].name + text( "tail", 0, n == 1 || ( n == 2 && i ) ? 2 : n == 2 ? 1 : 1 ) ); }
  int mode = sx_choice( "unknown", n == 3 && ! sx_thorough() ? 2 : 4 ); refuse_at = sx_choice( "refuse", 2 ) ? 1 : -1; unknown_answer = mode == 3;
  // What has to happen.
  texts want, left, unknown; bool ok = true; size_t next = 0; bool stop = false;
  auto event = [&]( int o, std::string const& v ) { if ( (int)want.size() == refuse_at ) { sx_reach( "refused" ); return false; } want.push_back( std::string( options[o].name ) + "\n" + v ); return true; };
  while ( ok && ! stop && next < argv.size() )
  {
    std::string const& a = argv[next]; int o = which( a ); size_t len = o < 0 ? 0 : strlen( options[o].name );
    if ( o < 0 ) { if ( mode == 0 ) ok = false; else if ( mode == 1 ) { left.push_back( a ); ++next; sx_reach( "stored" ); } else { unknown.push_back( a ); if ( mode == 3 ) { stop = true; ++next; sx_reach( "stopped" ); } else ok = false; } sx_reach( "unknown" ); continue; }
    switch ( options[o].type )
    {
    case CLA::NO_ARGUMENT: ok = event( o, "\t" ); if ( ok ) ++next; sx_reach( "none" ); break;
    case CLA::CONCAT_ARGUMENT: ok = event( o, a.substr( len ) ); if ( ok ) ++next; sx_reach( "concat" ); break;
    case CLA::SPACE_ARGUMENT: ok = next + 1 < argv.size() && event( o, argv[next + 1] ); if ( ok ) next += 2; else sx_reach( "missing" ); sx_reach( "space" ); break;
    case CLA::EQUAL_ARGUMENT: ok = a.size() > len && a[len] == '=' && event( o, a.substr( len + 1 ) ); if ( ok ) ++next; sx_reach( "equal" ); break;
    default: ++next; while ( ok && next < argv.size() && which( argv[next] ) < 0 ) { ok = event( o, argv[next] ); if ( ok ) ++next; } sx_reach( "multi" );
    }
  }
  CLA p; std::stringbuf out; std::streambuf* old = std::cerr.rdbuf( &out );
  for ( int i = 0; i < n_options; ++i ) p.AddCallback( options[i].name, options[i].type, callback, &cookie, "help" );
  if ( n < 3 && sx_bool( "argv" ) ) { const char* v[8] = { "prog" }; for ( int i = 0; i < n; ++i ) v[i + 1] = argv[i].c_str(); p.Initialize( n + 1, v ); sx_assert( hx_eq( p.GetArgv0(), "prog" ) ); }
  else { const char* v[1] = { "prog" }; p.Initialize( 1, v ); p.ProcessArgument( "junk" ); p.Initialize(); for ( int i = 0; i < n; ++i ) p.ProcessArgument( argv[i].c_str() ); }
  if ( mode == 1 ) p.StoreUnusedArguments( true ); if ( mode >= 2 ) { p.SetUnknownArgumentCallback( stranger ); p.SetClientData( &other ); }
  int r = p.Parse(); std::cerr.rdbuf( old );
  sx_assert( ( r != 0 ) == ok && events.size() == want.size() && strangers.size() == unknown.size() );
  for ( size_t i = 0; i < want.size(); ++i ) sx_assert( hx_eq( events[i], want[i] ) ); for ( size_t i = 0; i < unknown.size(); ++i ) sx_assert( hx_eq( strangers[i], unknown[i] ) );
  if ( n ) { char** v; int c; p.GetRemainingArguments( &c, &v ); check( argv, v, c, next ); p.DeleteRemainingArguments( c, &v ); sx_assert( p.GetLastArgument() == next ); }
  if ( mode == 1 ) { char** v; int c; p.GetUnusedArguments( &c, &v ); check( left, v, c, 0 ); p.DeleteRemainingArguments( c, &v ); }
  sx_assert( ( mode == 0 && ! ok && next < argv.size() && which( argv[next] ) < 0 && refuse_at < 0 ) ? out.str().size() > 0 : true );
  if ( ok && ! stop ) sx_reach( "complete" );
}
