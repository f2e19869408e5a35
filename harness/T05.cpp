// SX-SOURCES: vital/types/timestamp.cxx vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/exceptions/base.cxx
// SX-REACH: seconds from-seconds config-round config-text refused printed
// SX-ASSUME: seconds: whole multiples of 1/64 s up to 2^20 s in magnitude exactly, microsecond counts of up to 2^31 within half a microsecond; configuration texts of up to 3 bytes and round trips of numbers below the stated magnitude
#include "hx.h"
#include <vital/types/timestamp.h>
#include <vital/types/timestamp_config.h>
#include <sstream>
using namespace kwiver::vital;
void sx_main()
{
  switch ( sx_choice( "case", 4 ) )
  {
  case 0:
  {
    int64_t t = sx_range( "usec", -( 1ll << 31 ), 1ll << 31 );
    timestamp s; s.set_time_usec( t );
    double d = s.get_time_seconds();
    // the same as the quotient, up to rounding
    double q = (double)t * 1e-6;
    sx_assert( d == q || ( d - q < 1e-9 && q - d < 1e-9 ) );
    sx_assert( s.has_valid_time() && ! s.has_valid_frame() );
    sx_reach( "seconds" );
    break;
  }
  case 1:
  {
    int64_t n = sx_range( "sixty-fourths", -( 1 << 26 ), 1 << 26 );
    timestamp s; s.set_frame( 3 ); timestamp& r = s.set_time_seconds( (double)n / 64. );
    sx_assert( &r == &s && s.is_valid() );
    sx_assert( s.get_time_usec() == n * 15625 );
    sx_reach( "from-seconds" );
    break;
  }
  case 2:
  {
    int lim = sx_param( "magnitude", 9999, 2147483647 );
    int64_t t = sx_range( "usec", -lim, lim ), f = sx_range( "frame", -99, 9999 );
    config_block_sptr c = config_block::empty_config();
    c->set_value( "ts", timestamp( t, f ) );
    timestamp s = c->get_value< timestamp >( "ts" );
    sx_assert( s.is_valid() && s.get_time_usec() == t && s.get_frame() == f );
    sx_reach( "config-round" );
    break;
  }
  case 3:
  {
    std::string v = hx_str( "text", 0, sx_param( "text_bytes", 3, 4 ) ), t = hx_trim( v );
    config_block_sptr c = config_block::empty_config();
    c->set_value( "ts", v, std::string( "d" ) );
    long val[2] = { 0, 0 }; size_t i = 0; bool ok = true;
    for ( int n = 0; n < 2; ++n )
    {
      while ( i < t.size() && hx_space( t[i] ) ) ++i;
      bool neg = false; size_t dig = 0;
      if ( i < t.size() && ( t[i] == '-' || t[i] == '+' ) ) { neg = t[i] == '-'; ++i; }
      for ( ; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i, ++dig ) val[n] = val[n] * 10 + ( t[i] - '0' );
      if ( neg ) val[n] = -val[n];
      if ( ! dig ) { ok = false; break; }
    }
    if ( ok )
    {
      timestamp s = c->get_value< timestamp >( "ts" );
      sx_assert( s.is_valid() && s.get_time_usec() == val[0] && s.get_frame() == val[1] );
      sx_reach( "config-text" );
    }
    else
    {
      sx_assert( HX_THROWS( c->get_value< timestamp >( "ts" ), bad_config_block_cast_exception ) );
      sx_reach( "refused" );
    }
    break;
  }
  }
  timestamp s; s.set_frame( sx_range( "frame", 0, 9 ) );
  std::ostringstream o; o << s;
  std::string p = o.str();
  sx_assert( p.size() > 6 && p.substr( 0, 6 ) == "ts(f: " && p[6] == char( '0' + s.get_frame() ) );
  sx_reach( "printed" );
}
