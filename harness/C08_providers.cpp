// SX-SOURCES: vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: symbols configuration environment host absent expanded
// SX-ASSUME: names of up to 2 arbitrary bytes against providers that know names of up to 2 bytes; every name of the host provider
#include "hx.h"
#include <vital/config/token_expander.h>
#include <vital/config/token_type_symtab.h>
#include <vital/config/token_type_config.h>
#include <vital/config/token_type_sysenv.h>
#include <vital/config/token_type_env.h>
#include <vital/config/config_block.h>
#include <memory>
#include <cstdlib>
#include <unistd.h>
using namespace kwiver::vital;
static void one( token_type& t, std::string const& n, bool have, std::string const& v )
{
  std::string r = "before"; bool got = t.lookup_entry( n, r );
  sx_assert( got == have ); if ( have ) sx_assert( hx_eq( r, v ) ); else sx_reach( "absent" );
}
void sx_main()
{
  std::string v = hx_strr( "value", 0, 1, 1, 127 );
  switch ( sx_choice( "provider", 4 ) )
  {
  case 0:
  {
    token_type_symtab t( "T" ); sx_assert( t.token_type_name() == "T" ); t.add_entry( "ab", v ); t.add_entry( "", "none" ); t.add_entry( "x", "1" ); t.add_entry( "x", "2" );
    std::string n = hx_str( "name", 0, 2 ); bool x = hx_eq( n, "x" ), e = n.empty(), ab = hx_eq( n, "ab" );
    one( t, n, x || e || ab, x ? "2" : e ? "none" : v ); t.remove_entry( n ); one( t, n, false, "" ); one( t, "ab", ! ab, v ); sx_reach( "symbols" ); break;
  }
  case 1:
  {
    config_block_sptr c = config_block::empty_config(); c->set_value( "ab", v ); c->set_value( "x", std::string() ); c->set_value( "q:r", std::string( "deep" ) );
    token_type_config t( c.get() ); sx_assert( t.token_type_name() == "CONFIG" );
    std::string n = hx_str( "name", 0, 3 ); bool x = hx_eq( n, "x" ), q = hx_eq( n, "q:r" ), ab = hx_eq( n, "ab" );
    one( t, n, x || q || ab, x ? "" : q ? "deep" : hx_trim( v ) ); sx_reach( "configuration" );
    c->set_value( "x", std::string( "now" ) ); one( t, "x", true, "now" ); break; // what it says now, not at the start
  }
  case 2:
  {
    setenv( "SX_A", "one", 1 ); setenv( "SX_B", "", 1 ); unsetenv( "SX_C" ); token_type_env t; sx_assert( t.token_type_name() == "ENV" );
    static const char* names[] = { "SX_A", "SX_B", "SX_C", "sx_a", "SX_" }; int k = sx_choice( "name", 5 ); one( t, names[k], k < 2, k ? "" : "one" );
    token_expander te; te.add_token_type( new token_type_env ); sx_assert( te.expand_token( std::string( "<$ENV{" ) + names[k] + "}>" ) == ( k ? "<>" : "<one>" ) );
    // what the environment says now, whichever name was asked for before
    setenv( names[k], "two", 1 ); one( t, names[k], true, "two" ); int l = sx_choice( "other name", 5 ); one( t, names[l], l == k || l < 2, l == k ? "two" : l ? "" : "one" );
    unsetenv( names[k] ); one( t, names[k], false, "" ); sx_assert( te.expand_token( std::string( "$ENV{" ) + names[k] + "}$ENV{" + names[l] + "}" ) == ( l != k && ! l ? "one" : "" ) );
    sx_reach( "environment" ); break;
  }
  default:
  {
    char here[4096]; token_type_sysenv t; sx_assert( t.token_type_name() == "SYSENV" ); if ( ! getcwd( here, sizeof here ) ) return;
    static const char* names[] = { "cwd", "numproc", "totalvirtualmemory", "availablevirtualmemory", "totalphysicalmemory", "availablephysicalmemory", "hostname", "domainname", "osname", "osdescription", "osplatform", "osversion", "is64bits", "iswindows", "islinux", "isapple", "cwd ", "" };
    const char* want[] = { here, "4", "11", "12", "13", "14", "host", "domain", "osname", "osdescription", "platform", "version", "TRUE", "FALSE", "TRUE", "FALSE" };
    int k = sx_choice( "name", 18 ); one( t, names[k], k < 16, k < 16 ? want[k] : "" ); sx_reach( "host" );
    token_expander te; te.add_token_type( new token_type_sysenv ); if ( k < 16 ) { sx_assert( te.expand_token( std::string( "<$SYSENV{" ) + names[k] + "}>" ) == std::string( "<" ) + want[k] + ">" ); sx_reach( "expanded" ); }
  }
  }
}
