// SX-SOURCES: vital/bindings/c/*.cxx vital/bindings/c/helpers/*.cxx vital/types/*.cxx vital/io/camera_io.cxx vital/io/camera_map_io.cxx vital/io/track_set_io.cxx vital/io/io_mapping.cxx vital/config/*.cxx vital/algorithm_plugin_manager.cxx vital/registrar.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx vital/kwiversys/DynamicLoader.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: none one two missing added thrown refused empty again
// SX-ASSUME: the loader of shared objects is a stand-in: opening fails or yields a handle, the entry point is absent, reports any number of failures, or throws
#include "hx.h"
#include <vital/bindings/c/algorithm_plugin_manager.h>
#include <vital/bindings/c/common.h>
#include <vital/algorithm_plugin_manager.h>
#include <vital/registrar.h>
#include <kwiversys/DynamicLoader.hxx>
#include <sys/stat.h>
#include <stdlib.h>
#include <fstream>
#include <algorithm>
#include <set>
#include <map>
#include <stdexcept>
using namespace kwiver::vital;
struct module { int fate, failures, opened, closed; };
static std::map< std::string, module > mods; static module* current;
static int entry( registrar& r )
{
  sx_assert( &r == &registrar::instance() && current );
  if ( current->fate == 3 ) throw std::runtime_error( "no" );
  return current->failures;
}
namespace kwiversys {
DynamicLoader::LibraryHandle DynamicLoader::OpenLibrary( std::string const& f )
{ auto i = mods.find( f ); sx_assert( i != mods.end() ); ++i->second.opened; return i->second.fate ? &i->second : 0; }
int DynamicLoader::CloseLibrary( LibraryHandle h ) { ++( (module*)h )->closed; return 1; }
DynamicLoader::SymbolPointer DynamicLoader::GetSymbolAddress( LibraryHandle h, std::string const& ) { current = (module*)h; return current->fate > 1 ? (SymbolPointer)entry : 0; }
const char* DynamicLoader::LastError() { return "the loader's words"; }
}
static void touch( std::string const& f ) { std::ofstream o( f ); o << "x"; }
// what the C interface lists is what the manager has
static std::vector< std::string > listed()
{
  unsigned int n = 77; char** p = 0;
  vital_apm_registered_module_names( &n, &p );
  std::vector< std::string > r;
  for ( unsigned int i = 0; i < n; ++i ) r.push_back( p[i] );
  vital_common_free_string_list( n, p );
  sx_assert( r == algorithm_plugin_manager::instance().registered_module_names() );
  return r;
}
void sx_main()
{
  const char* names[] = { "vital_a", sx_bool( "alike" ) ? "vital_a_more" : "other.one" };
  std::string base = sx_scratch(), d[2] = { base + "/one", base + "/two" };
  mkdir( d[0].c_str(), 0755 ); mkdir( d[1].c_str(), 0755 );
  setenv( "KWIVER_PLUGIN_PATH", d[0].c_str(), 1 );
  bool throws = false;
  for ( int f = 0; f < 2; ++f )
  {
    int fate = sx_choice( "fate", 5 ) - 1;
    if ( fate < 0 ) continue;
    std::string p = d[f] + "/" + names[f] + ".so";
    touch( p );
    module m = { fate, fate == 2 ? (int)sx_range( "failures", -1000, 1000 ) : 0, 0, 0 };
    mods[p] = m;
    throws |= fate == 3;
  }
  sx_assert( listed().empty() );
  bool added = sx_bool( "added" );
  if ( added )
  {
    std::vector< std::string > was = algorithm_plugin_manager::instance().get_search_path();
    vital_apm_add_search_path( ( base + "/missing" ).c_str() );
    vital_apm_add_search_path( d[1].c_str() );
    was.push_back( base + "/missing" ); was.push_back( d[1] );
    sx_assert( algorithm_plugin_manager::instance().get_search_path() == was );
    sx_reach( "added" );
  }
  int how = sx_choice( "how", 5 );
  const char* const asked[] = { 0, "vital_a", names[1], "vital_b", "" };
  if ( how == 0 ) vital_apm_register_plugins(); else vital_apm_register_single_plugin( asked[how] );
  std::set< std::string > good;
  for ( int f = 0; f < 2; ++f )
  {
    auto i = mods.find( d[f] + "/" + names[f] + ".so" );
    if ( i == mods.end() ) continue;
    module const& m = i->second;
    bool want = ( f == 0 || added ) && ( how == 0 || how == 4 || std::string( asked[how] ) == names[f] );
    if ( throws ) { if ( m.fate == 3 && m.opened ) sx_reach( "thrown" ); sx_assert( m.opened <= ( want ? 1 : 0 ) ); }
    else sx_assert( m.opened == ( want ? 1 : 0 ) );
    if ( m.opened && m.fate == 2 ) { if ( m.failures > 0 ) sx_reach( "refused" ); else good.insert( names[f] ); }
  }
  std::vector< std::string > l = listed();
  sx_assert( l == std::vector< std::string >( good.begin(), good.end() ) );
  sx_reach( l.empty() ? "none" : l.size() == 1 ? "one" : "two" );
  if ( how == 3 ) { sx_assert( l.empty() ); sx_reach( "missing" ); }
  if ( how == 4 ) sx_reach( "empty" );
  // arguments that point nowhere are turned down, and nothing else changes
  unsigned int n = 5; char** p = (char**)&n;
  vital_apm_registered_module_names( 0, &p ); sx_assert( p == (char**)&n );
  vital_apm_registered_module_names( &n, 0 ); sx_assert( n == 5 );
  vital_apm_registered_module_names( 0, 0 );
  if ( sx_bool( "again" ) ) { std::vector< std::string > w = algorithm_plugin_manager::instance().get_search_path(); if ( sx_bool( "null path" ) ) vital_apm_add_search_path( 0 ); else vital_apm_register_single_plugin( 0 ); sx_assert( listed() == l && algorithm_plugin_manager::instance().get_search_path() == w ); sx_reach( "again" ); }
}
