// SX-SOURCES: vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: from-search-path from-includer from-top missing after-include in-block broken name-in-both absolute
// SX-ASSUME: one main file, one directly included file and one file included by that one, each candidate directory holding the file or not; log output suppressed
#include "cfgcheck.h"
#include <sys/stat.h>
using namespace kwiver::vital;
static void put( std::string const& p, std::string const& t ) { sx_file( p.c_str(), t.data(), t.size() ); }
void sx_main()
{
  mkdir( "s1", 0700 ); mkdir( "s2", 0700 ); mkdir( "d", 0700 ); mkdir( "d/sub", 0700 );
  char cwd[4096]; std::string here = sx_scratch();
  // d/main.conf includes sub/mid.conf, which includes leaf.conf
  const char* where[4] = { "s1", "s2", "d/sub", "d" };   // order of the look-up
  int first = -1; std::string v[4];
  for ( int i = 0; i < 4; ++i )
    if ( sx_bool( "present" ) )
    {
      v[i] = hx_strr( "value", 1, 1, '0', 'z' );
      put( std::string( where[i] ) + "/leaf.conf", "leaf = " + v[i] + "\nrelativepath rel = x\n" );
      if ( first < 0 ) first = i;
    }
  bool absolute = sx_bool( "absolute include" ), broken = sx_bool( "error in the included file" ), blk = sx_bool( "inside a block" );
  std::string target = absolute ? here + "/d/leaf.conf" : std::string( "leaf.conf" );
  put( "d/sub/mid.conf", "before = 1\ninclude " + target + "\nafter = 2\n" + ( broken ? "= oops\n" : "" ) );
  put( "d/main.conf", std::string( "# top\n" ) + ( blk ? "block b\n" : "" ) + "include sub/mid.conf\nlast = 3\ninclude late.conf\n" + ( blk ? "endblock\n" : "" ) );
  // looked up again from the including file alone once the other include is done
  bool late = sx_bool( "second include also beside the first" );
  put( "d/late.conf", "late = right\n" );
  if ( late ) put( "d/sub/late.conf", "late = wrong\n" );
  config_path_list_t sp; sp.push_back( "s1" ); sp.push_back( "s2" );
  config_block_sptr c;
  bool found = absolute ? ! v[3].empty() : first >= 0;
  if ( ! found )
  {
    sx_assert( HX_THROWS( read_config_file( "d/main.conf", sp ), config_file_not_found_exception ) );
    sx_reach( "missing" ); return;
  }
  if ( broken )
  {
    sx_assert( HX_THROWS( read_config_file( "d/main.conf", sp ), config_file_not_parsed_exception ) );
    sx_reach( "broken" ); return;
  }
  c = read_config_file( "d/main.conf", sp );
  int at = absolute ? 3 : first;
  std::string p = blk ? "b:" : "";
  sx_assert( c->available_values().size() == 6 );
  sx_assert( hx_eq( c->get_value< std::string >( p + "leaf" ), v[at] ) );
  std::string dir = absolute ? here + "/d" : std::string( where[at] );
  sx_assert( c->get_value< std::string >( p + "before" ) == "1" && c->get_value< std::string >( p + "after" ) == "2" && c->get_value< std::string >( p + "last" ) == "3" );
  std::string rel = c->get_value< std::string >( p + "rel" ), suffix = dir.substr( dir.rfind( '/' ) == std::string::npos ? 0 : dir.rfind( '/' ) ) + "/x";
  sx_assert( rel.size() >= suffix.size() && rel.substr( rel.size() - suffix.size() ) == suffix );
  // where entries come from
  std::string f; int l = 0;
  sx_assert( c->get_location( p + "last", f, l ) && f == "d/main.conf" && l == ( blk ? 4 : 3 ) );
  sx_assert( c->get_location( p + "after", f, l ) && l == 3 && f.size() >= 8 && f.substr( f.size() - 8 ) == "mid.conf" );
  sx_assert( c->get_location( p + "leaf", f, l ) && l == 1 && f.size() >= 9 && f.substr( f.size() - 9 ) == "leaf.conf" );
  sx_reach( absolute ? "absolute" : at < 2 ? "from-search-path" : at == 2 ? "from-includer" : "from-top" );
  sx_assert( c->get_value< std::string >( p + "late" ) == "right" );
  sx_assert( c->get_location( p + "late", f, l ) && l == 1 );
  if ( late ) sx_reach( "name-in-both" );
  sx_reach( "after-include" );
  if ( blk ) sx_reach( "in-block" );
}
