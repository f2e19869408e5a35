// SX-SOURCES: vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: nested read-only-clash unbalanced refused relative local-value entry read-only location
// SX-ASSUME: files of the stated number of lines, each line one of the listed directive forms with symbolic key and value characters; log output suppressed
#include "cfgcheck.h"
// $LOCAL{k} is the only macro used here
static std::string expand( ref::result& r, std::string const& v )
{
  if ( v != "$LOCAL{loc}" ) return v;
  for ( size_t i = 0; i < r.local.size(); ++i ) if ( r.local[i].first == "loc" ) return r.local[i].second;
  return "";
}
static std::string line( int i )
{
  switch ( sx_choice( "directive", 9 ) )
  {
  case 0: return "block a";
  case 1: return " block b:c # x";
  case 2: return "endblock";
  case 3: return "key = " + hx_strr( "value", 1, 1, '0', 'z' );
  case 4: return "k" + hx_strr( "key char", 1, 1, '-', 'z' ) + "[RO]= v";
  case 5: return std::string( "relativepath key" ) + ( i == 1 ? "[RO] =../" : " =../" ) + hx_strr( "value", 1, 1, '0', 'z' );
  case 6: return "loc := " + hx_strr( "value", 1, 1, '0', 'z' );
  case 7: return "key=$LOCAL{loc}";
  default: return "kex[" + hx_strr( "flag", 1, 1, 'A', 'z' ) + "o] = w";
  }
}
void sx_main()
{
  int n = sx_param( "lines", 3, 4 );
  std::string t;
  for ( int i = 0; i < n; ++i ) t += line( i ) + "\n";
  sx_file( "in.conf", t.data(), t.size() );
  ref::result r;
  ref::parse( r, t, "in.conf", ".", expand );
  if ( r.quirk ) return;
  kwiver::vital::config_block_sptr c = cfg_read( "in.conf" );
  if ( r.ro_clash ) sx_reach( "read-only-clash" );
  if ( ! r.error && ! r.blocks.empty() ) sx_reach( "unbalanced" );
  if ( r.error || ! r.blocks.empty() ) { sx_assert( ! c ); sx_reach( "refused" ); return; }
  sx_assert( c );
  cfg_compare( c, r );
  for ( size_t i = 0; i < r.e.size(); ++i )
  {
    sx_reach( "entry" );
    if ( r.e[i].key == "a:key" ) sx_reach( "nested" );
    if ( r.e[i].ro ) sx_reach( "read-only" );
    if ( r.e[i].val.size() > 4 && r.e[i].val[0] == '.' ) sx_reach( "relative" );
    if ( r.local.size() && r.e[i].val == r.local[0].second ) sx_reach( "local-value" );
    if ( r.e[i].line > 1 ) sx_reach( "location" );
  }
}
