// SX-SOURCES: vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: entry refused empty
// SX-ASSUME: files of up to the stated number of arbitrary bytes other than NUL and '$'; constructs that spread one directive over two lines are left out; log output suppressed
#include "cfgcheck.h"
static std::string same( ref::result&, std::string const& v ) { return v; }
void sx_main()
{
  std::string t = hx_str( "text", 0, sx_param( "file_bytes", 5, 6 ) );
  bool ok = true;
  for ( size_t i = 0; i < t.size(); ++i ) ok &= ( t[i] != 0 ) & ( t[i] != '$' );
  sx_assume( ok );
  sx_file( "in.conf", t.data(), t.size() );
  ref::result r;
  ref::parse( r, t, "in.conf", ".", same );
  if ( r.quirk ) return;
  kwiver::vital::config_block_sptr c = cfg_read( "in.conf" );
  if ( r.error || ! r.blocks.empty() ) { sx_assert( ! c ); sx_reach( "refused" ); return; }
  sx_assert( c );
  cfg_compare( c, r );
  if ( r.e.empty() ) sx_reach( "empty" ); else sx_reach( "entry" );
  if ( r.e.size() > 1 ) sx_reach( "two-entries" );
}
