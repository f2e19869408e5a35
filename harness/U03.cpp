// SX-SOURCES: vital/exceptions/base.cxx
// SX-REACH: running stopped fresh restarted title untitled independent
// SX-ASSUME: the clocks are stand-ins that show any of the bounded times, also running backwards; the printed intervals of scoped timers are fixed ones; std::cerr is redirected into memory
#include "hx.h"
#include <vital/util/cpu_timer.h>
#include <vital/util/wall_timer.h>
#include <iostream>
#include <sstream>
#include <chrono>
#include <ctime>
#include <math.h>
#include <string.h>
#include <new>
using namespace kwiver::vital;
static long cpu_now, wall_now; static int cpu_reads, wall_reads; // microseconds, nanoseconds
extern "C" clock_t clock() noexcept { ++cpu_reads; return cpu_now; }
namespace std { namespace chrono { inline namespace _V2 { system_clock::time_point system_clock::now() noexcept { ++wall_reads; return time_point( duration( wall_now ) ); } } } }
template < class T > struct of;
template <> struct of< cpu_timer > { static const long unit = CLOCKS_PER_SEC; static void set( long t ) { cpu_now = t; } };
template <> struct of< wall_timer > { static const long unit = 1000000000; static void set( long t ) { wall_now = t; } };
static bool near( double x, double ref ) { return x == ref || fabs( x - ref ) <= 1e-9 * fabs( ref ) + 1e-13; }
template < class T > static void history()
{
  // in memory that was used before: nothing may be left to chance
  alignas( 16 ) static char room[2][sizeof( T )]; memset( room, 0x5a, sizeof room );
  timer& b = *new ( room[0] ) T; timer& other = *new ( room[1] ) T;
  sx_assert( b.timer_available() && ! b.is_active() );
  long base = sx_bool( "late" ) ? 1700000000l * of< T >::unit : 0, step = sx_bool( "fine" ) ? 1 : of< T >::unit / 8;
  bool active = false, started = false, ended = false; long at = 0, end = 0;
  int n = sx_param( "operations", 5, 7 );
  for ( int i = 0; i < n; ++i )
  {
    long now = base + step * (long)sx_range( "clock", 0, (1l << 30) - 1 );
    of< T >::set( now );
    switch ( sx_choice( "what", 3 ) )
    {
    case 0: if ( started && ! active ) sx_reach( "restarted" ); b.start(); active = started = true; at = now; ended = false; break;
    case 1: if ( ! started ) return; b.stop(); active = false; end = now; ended = true; break;
    default:
    {
      double e = b.elapsed();
      if ( ! started ) { sx_assert( e == 0 ); sx_reach( "fresh" ); }
      else if ( active ) { sx_assert( near( e, (double)( now - at ) / of< T >::unit ) ); sx_reach( "running" ); }
      else if ( ended ) { sx_assert( near( e, (double)( end - at ) / of< T >::unit ) ); sx_reach( "stopped" ); }
    }
    }
    sx_assert( b.is_active() == active );
    sx_assert( ! other.is_active() );
  }
  sx_assert( other.elapsed() == 0 ); sx_reach( "independent" );
}
template < class T > static void scoped( std::string const& title, bool titled )
{
  static const long ticks[] = { 0, 1, 12, 1000 }; static const char* const shown[] = { "0", "0.125", "1.5", "125" };
  int k = sx_choice( "interval", 4 );
  std::ostringstream o; std::streambuf* was = std::cerr.rdbuf( o.rdbuf() );
  of< T >::set( 5 * of< T >::unit );
  if ( titled ) { scoped_timer< T > s( title ); of< T >::set( 5 * of< T >::unit + ticks[k] * ( of< T >::unit / 8 ) ); sx_assert( o.str().empty() ); }
  else { scoped_timer< T > s; of< T >::set( 5 * of< T >::unit + ticks[k] * ( of< T >::unit / 8 ) ); sx_assert( o.str().empty() ); }
  std::cerr.rdbuf( was );
  std::string want = std::string( "elapsed time: " ) + shown[k] + " sec\n";
  if ( titled && title.size() ) { want = title + " - " + want; sx_reach( "title" ); } else sx_reach( "untitled" );
  sx_assert( hx_eq( o.str(), want ) );
}
void sx_main()
{
  bool cpu = sx_bool( "cpu" );
  if ( sx_bool( "scoped" ) ) { bool titled = sx_bool( "titled" ); std::string t; if ( titled ) t = hx_str( "title", 0, 3 ); if ( cpu ) scoped< cpu_timer >( t, titled ); else scoped< wall_timer >( t, titled ); }
  else if ( cpu ) history< cpu_timer >(); else history< wall_timer >();
}
