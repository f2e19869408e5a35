// SX-SOURCES: vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: read-only plain refused both local again
// SX-ASSUME: one or two entries with up to two bracketed flags of the stated number of arbitrary bytes other than NUL and '$'; log output suppressed
#include "cfgcheck.h"
static std::string same( ref::result&, std::string const& v ) { return v; }
void sx_main()
{
  std::string t = "ab"; int n = sx_choice( "flags", 3 ), len = sx_param( "bytes of a flag", 2, 3 ); bool ok = true;
  for ( int i = 0; i < n; ++i )
  {
    static const char* known[] = { "[RO]", "[ro]", "[Ro] ", " [rO]" }; int k = sx_choice( "flag", 5 );
    if ( k < 4 ) { t += known[k]; continue; }
    std::string f = hx_str( "flag", 1, len ); for ( size_t j = 0; j < f.size(); ++j ) ok &= ( f[j] != 0 ) & ( f[j] != '$' );
    t += "[" + f + "]"; if ( i ) t += "\t";
  }
  sx_assume( ok );
  bool local = sx_bool( "local" ); t += local ? " := 1\n" : "=1\n"; int twice = sx_choice( "again", 3 ); if ( twice ) t += twice == 1 ? "cd = 3\nab = 2\n" : "cd[RO]=3\n";
  sx_file( "in.conf", t.data(), t.size() );
  ref::result r; ref::parse( r, t, "in.conf", ".", same );
  if ( r.quirk ) return;
  kwiver::vital::config_block_sptr c = cfg_read( "in.conf" );
  if ( r.error || ! r.blocks.empty() ) { sx_assert( ! c ); sx_reach( r.ro_clash ? "again" : "refused" ); return; }
  sx_assert( c ); cfg_compare( c, r );
  if ( local ) sx_reach( "local" ); else if ( r.e[0].ro ) sx_reach( n > 1 ? "both" : "read-only" ); else sx_reach( "plain" );
}
