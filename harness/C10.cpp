// SX-SOURCES: vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: versioned nonstandard merged first-only none absolute
// SX-ASSUME: each of the environment variables set or not; the file present in one or two of the candidate directories, every choice of the two; system directories (/etc, /usr) hold no file of the application
#include "hx.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/config/config_block_exception.h>
#include <sys/stat.h>
#include <cstdlib>
using namespace kwiver::vital;
static void mkdirs( std::string const& p ) { for ( size_t i = 1; i <= p.size(); ++i ) if ( i == p.size() || p[i] == '/' ) mkdir( p.substr( 0, i ).c_str(), 0700 ); }
typedef std::vector< std::string > L;
static void add_app( L& o, std::string const& base, std::string const& app, std::string const& ver, std::string const& sub = "" )
{
  if ( ! ver.empty() ) o.push_back( base + "/" + app + "/" + ver + sub );
  o.push_back( base + "/" + app + sub );
}
void sx_main()
{
  std::string here = sx_scratch(), app = "sxapp";
  bool listonly = sx_bool( "list only" );
  app += listonly ? hx_strr( "application", 1, 1, 'a', 'z' ) : "q";
  std::string ver = sx_bool( "version" ) ? "1.2" : "";
  bool kc = sx_bool( "KWIVER_CONFIG_PATH" ), xdg = sx_bool( "XDG_CONFIG_HOME" ), home = sx_bool( "HOME" );
  int pfx = sx_choice( "prefix", 4 );
  std::string prefix = pfx == 0 ? "" : pfx == 1 ? "/usr" : pfx == 2 ? "/usr/local" : here + "/pp";
  if ( kc ) setenv( "KWIVER_CONFIG_PATH", ( here + "/e1:" + here + "/e2" ).c_str(), 1 ); else unsetenv( "KWIVER_CONFIG_PATH" );
  if ( xdg ) setenv( "XDG_CONFIG_HOME", ( here + "/x" ).c_str(), 1 ); else unsetenv( "XDG_CONFIG_HOME" );
  if ( home ) setenv( "HOME", ( here + "/h" ).c_str(), 1 ); else if ( sx_bool( "HOME empty" ) ) setenv( "HOME", "", 1 ); else unsetenv( "HOME" );
  L want;
  if ( kc ) { want.push_back( here + "/e1" ); want.push_back( here + "/e2" ); }
  if ( xdg ) add_app( want, here + "/x", app, ver );
  if ( home ) add_app( want, here + "/h/.config", app, ver );
  add_app( want, "/etc/xdg", app, ver );
  add_app( want, "/etc", app, ver );
  add_app( want, "/usr/local/share", app, ver, "/config" );
  add_app( want, "/usr/share", app, ver, "/config" );
  if ( pfx == 3 ) { add_app( want, prefix + "/share", app, ver, "/config" ); want.push_back( prefix + "/share/config" ); want.push_back( prefix + "/config" ); sx_reach( "nonstandard" ); }
  if ( ! ver.empty() ) sx_reach( "versioned" );
  config_path_list_t got = config_file_paths( app, ver, prefix );
  sx_assert( got.size() == want.size() );
  for ( size_t i = 0; i < got.size(); ++i ) sx_assert( hx_eq( got[i], want[i] ) );
  if ( listonly ) return;
  sx_assume( pfx == 0 || pfx == 3 );
  // look a file up; only directories below the scratch directory can hold it
  L cand;
  for ( size_t i = 0; i < want.size(); ++i ) if ( want[i].compare( 0, here.size(), here ) == 0 ) cand.push_back( want[i] );
  cand.push_back( "." );
  int a = sx_choice( "first place", (int)cand.size() + 1 ), b = a == (int)cand.size() ? a : sx_choice( "second place", (int)cand.size() );
  std::string name = "cfg.conf";
  if ( a == (int)cand.size() )
  {
    sx_assert( HX_THROWS( read_config_file( name, app, ver, prefix, true ), config_file_not_found_exception ) );
    sx_assert( HX_THROWS( read_config_file( here + "/nope.conf", app, ver, prefix, false ), config_file_not_found_exception ) );
    sx_assert( HX_THROWS( read_config_file( here ), config_file_not_found_exception ) );
    sx_reach( "none" ); return;
  }
  bool onlya = a == b;
  int hi = a < b ? a : b, lo = a < b ? b : a;
  mkdirs( cand[hi] ); mkdirs( cand[lo] );
  std::string t1 = "common = hi\nonly_hi = 1\n", t2 = "common = lo\nonly_lo = 2\n";
  sx_file( ( cand[hi] + "/" + name ).c_str(), t1.data(), t1.size() );
  if ( ! onlya ) sx_file( ( cand[lo] + "/" + name ).c_str(), t2.data(), t2.size() );
  bool merge = sx_bool( "merge" );
  config_block_sptr c = read_config_file( name, app, ver, prefix, merge );
  sx_assert( c->get_value< std::string >( "common" ) == "hi" && c->has_value( "only_hi" ) );
  sx_assert( c->has_value( "only_lo" ) == ( merge && ! onlya ) );
  sx_assert( c->available_values().size() == ( merge && ! onlya ? 3u : 2u ) );
  if ( merge && ! onlya ) sx_reach( "merged" );
  if ( ! merge && ! onlya ) sx_reach( "first-only" );
  if ( cand[lo] != "." )
  {
    // an absolute name is taken as it is, without search or merge
    config_block_sptr d = read_config_file( cand[lo] + "/" + name, app, ver, prefix, merge );
    sx_assert( d->get_value< std::string >( "common" ) == ( onlya ? "hi" : "lo" ) && d->available_values().size() == 2 );
    sx_reach( "absolute" );
  }
}
