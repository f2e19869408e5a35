// SX-SOURCES: vital/logger/default_logger.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx vital/kwiversys/SystemInformation.cxx
// SX-STUBS: sysinfo.cpp
// SX-REACH: printed silent location macro asserted same other
// SX-ASSUME: the clock is a stand-in giving 2024-05-06 07:08:09 UTC plus an arbitrary number of milliseconds below one thousand; std::cerr is redirected into memory
#include "hx.h"
#include <vital/logger/logger.h>
#include <vital/logger/default_logger.h>
#include <iostream>
#include <sstream>
#include <chrono>
#include <ctime>
#include <string.h>
using namespace kwiver::vital;
typedef kwiver_logger KL;
static const long base = 1714979289; static int ms;
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { return time_point( milliseconds( base * 1000 + ms ) ); } } } }
// The clock has moved on a second when it is read again.
extern "C" time_t time( time_t* t ) noexcept { if ( t ) *t = base + 1; return base + 1; }
extern "C" struct tm* localtime_r( const time_t* t, struct tm* r ) noexcept { int later = sx_concretize( *t == base + 1 ); sx_assert( *t == base + later ); memset( r, 0, sizeof *r ); r->tm_year = 124; r->tm_mon = 4; r->tm_mday = 6; r->tm_hour = 7; r->tm_min = 8; r->tm_sec = later ? 10 : 9; return r; }
extern "C" struct tm* localtime( const time_t* t ) noexcept { static struct tm r; return localtime_r( t, &r ); }
static const KL::log_level_t levels[] = { KL::LEVEL_TRACE, KL::LEVEL_DEBUG, KL::LEVEL_INFO, KL::LEVEL_WARN, KL::LEVEL_ERROR, KL::LEVEL_FATAL, KL::LEVEL_NONE };
static const char* names[] = { "TRACE", "DEBUG", "INFO", "WARN", "ERROR", "FATAL" };
static bool enabled( logger_handle_t const& l, int k ) { switch ( k ) { case 0: return IS_TRACE_ENABLED( l ); case 1: return IS_DEBUG_ENABLED( l ); case 2: return IS_INFO_ENABLED( l ); case 3: return IS_WARN_ENABLED( l ); case 4: return IS_ERROR_ENABLED( l ); default: return IS_FATAL_ENABLED( l ); } }
static void plain( logger_handle_t const& l, int k, std::string const& m ) { switch ( k ) { case 0: l->log_trace( m ); break; case 1: l->log_debug( m ); break; case 2: l->log_info( m ); break; case 3: l->log_warn( m ); break; case 4: l->log_error( m ); break; default: l->log_fatal( m ); } }
static void placed( logger_handle_t const& l, int k, std::string const& m, logger_ns::location_info const& w ) { switch ( k ) { case 0: l->log_trace( m, w ); break; case 1: l->log_debug( m, w ); break; case 2: l->log_info( m, w ); break; case 3: l->log_warn( m, w ); break; case 4: l->log_error( m, w ); break; default: l->log_fatal( m, w ); } }
static std::string counted( int& n, std::string const& m ) { ++n; return m; }
static std::string stamp() { std::string s = "2024-05-06 07:08:09."; s += char( '0' + ms / 100 ); s += char( '0' + ms / 10 % 10 ); s += char( '0' + ms % 10 ); return s + ' '; }
// Every line of the message, without its line end, behind the prefix.
static std::string lines( std::string const& prefix, std::string const& m )
{
  std::string r; bool open = false;
  for ( size_t i = 0; i < m.size(); ++i ) { if ( ! open ) r += prefix; open = m[i] != '\n'; r += m[i]; }
  return open ? r + '\n' : r;
}
void sx_main()
{
  int set = sx_choice( "level", 7 ), k = sx_choice( "at", 6 ), how = sx_choice( "how", 7 ); ms = how == 0 && ! set ? sx_range( "milliseconds", 0, 999 ) : 42;
  std::string n = "a", o = "b", m;
  if ( how == 6 ) { n = hx_str( "name", 0, 2 ); o = hx_str( "other", 0, 2 ); }
  else m = hx_str( "message", 0, set == 0 && how ? sx_param( "message_bytes", 2, 3 ) : 1 );
  logger_ns::logger_factory_default f; sx_assert( hx_eq( f.get_factory_name(), "default_logger factory" ) );
  logger_handle_t l = f.get_logger( n ), other = f.get_logger( o ), again = f.get_logger( n );
  sx_assert( l && other && l == again && hx_eq( l->get_name(), n ) && hx_eq( other->get_name(), o ) && hx_eq( l->get_factory_name(), "default_logger factory" ) );
  bool same = n == o; sx_assert( same == ( l == other ) );
  sx_assert( l->get_level() == KL::LEVEL_TRACE ); l->set_level( levels[set] ); sx_assert( l->get_level() == levels[set] && other->get_level() == ( same ? levels[set] : KL::LEVEL_TRACE ) );
  if ( how == 6 ) { sx_reach( same ? "same" : "other" ); return; }
  bool on = set == 6 || k >= set; sx_assert( enabled( l, k ) == on && hx_eq( l->get_level_string( levels[k] ), names[k] ) );
  std::stringbuf out; std::streambuf* old = std::cerr.rdbuf( &out );
  std::string prefix = stamp() + names[k] + " "; int used = 0, line = set ? 7 : sx_range( "line", 0, sx_param( "max_line", 999, 99999 ) ); bool expect = on, lazy = false;
  switch ( how )
  {
  case 0: plain( l, k, m ); break;
  case 1: placed( l, k, m, logger_ns::location_info( "/a/b.d/file.cxx", "int f()", line ) ); prefix += "file.cxx(" + std::to_string( line ) + "): "; sx_reach( "location" ); break;
  case 2: l->log_message( levels[k], m ); expect = true; break;
  case 3: l->log_message( levels[k], m, logger_ns::location_info( "file.h", "f", line ) ); expect = true; prefix += "file.h(" + std::to_string( line ) + "): "; break;
  case 4:
  {
    int at = 0; lazy = true;
    switch ( k )
    {
    case 0: at = __LINE__; LOG_TRACE( l, counted( used, m ) << "" ); break;
    case 1: at = __LINE__; LOG_DEBUG( l, counted( used, m ) << "" ); break;
    case 2: at = __LINE__; LOG_INFO( l, counted( used, m ) << "" ); break;
    case 3: at = __LINE__; LOG_WARN( l, counted( used, m ) << "" ); break;
    case 4: at = __LINE__; LOG_ERROR( l, counted( used, m ) << "" ); break;
    default: lazy = false; l->log_fatal( m, logger_ns::location_info( __FILE__, "f", at = __LINE__ ) );
    }
    prefix += "L01.cpp(" + std::to_string( at ) + "): "; sx_reach( "macro" ); break;
  }
  default:
  {
    bool holds = sx_bool( "holds" ); int n = 0, at = __LINE__ + 1;
    LOG_ASSERT( l, ( ++n, holds ), counted( used, m ) << "" );
    std::cerr.rdbuf( old ); sx_assert( n == 1 ); prefix = stamp() + "FATAL L01.cpp(" + std::to_string( at ) + "): ";
    sx_assert( hx_eq( out.str(), holds ? "" : lines( prefix, "ASSERTION FAILED: (( ++n, holds ))\n" + m ) ) && used == ! holds ); sx_reach( "asserted" ); return;
  }
  }
  std::cerr.rdbuf( old );
  if ( lazy ) sx_assert( used == ( on ? 1 : 0 ) );
  sx_assert( hx_eq( out.str(), expect ? lines( prefix, m ) : "" ) );
  sx_reach( expect ? "printed" : "silent" );
}
