// SX-SOURCES: vital/algorithm_plugin_manager.cxx vital/registrar.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx vital/kwiversys/DynamicLoader.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: loaded refused unbound unopened none once dotted directory twice
// SX-ASSUME: the loader of shared objects is a stand-in: opening fails or yields a handle, the entry point is absent or reports any number of failures
#include "hx.h"
#include <vital/algorithm_plugin_manager.h>
#include <vital/algorithm_plugin_manager_paths.h>
#include <vital/registrar.h>
#include <kwiversys/DynamicLoader.hxx>
#include <sys/stat.h>
#include <stdlib.h>
#include <fstream>
#include <algorithm>
#include <set>
#include <map>
using namespace kwiver::vital;
typedef algorithm_plugin_manager APM;
struct module { int fate, failures, opened, closed; };
static std::map< std::string, module > mods; static std::map< void*, module* > handles; static std::vector< std::string > order; static module* current; static int ran;
static int entry( registrar& r ) { sx_assert( &r == &registrar::instance() && current && current->opened > current->closed ); ++ran; return current->failures; }
namespace kwiversys {
DynamicLoader::LibraryHandle DynamicLoader::OpenLibrary( std::string const& f )
{
  order.push_back( f ); auto i = mods.find( f ); sx_assert( i != mods.end() ); ++i->second.opened; return i->second.fate ? &i->second : 0;
}
int DynamicLoader::CloseLibrary( LibraryHandle h ) { ++( (module*)h )->closed; return 1; }
DynamicLoader::SymbolPointer DynamicLoader::GetSymbolAddress( LibraryHandle h, std::string const& s ) { current = (module*)h; sx_assert( current->opened > current->closed && s == "private_register_algo_impls" ); return current->fate > 1 ? (SymbolPointer)entry : 0; }
const char* DynamicLoader::LastError() { return "the loader's words"; }
}
static const char* const files[] = { "vital_a.so", "my.module.so", "notes.txt", "vital_a.so.1", "so", "sub.so" };
static const char* const keys[] = { "vital_a", "my.module" };
static void touch( std::string const& f ) { std::ofstream o( f ); o << "x"; }
void sx_main()
{
  std::string base = sx_scratch(), d[2] = { base + "/one", base + "/two" };
  for ( int i = 0; i < 2; ++i ) { mkdir( d[i].c_str(), 0755 ); for ( int f = 2; f < 5; ++f ) touch( d[i] + "/" + files[f] ); mkdir( ( d[i] + "/" + files[5] ).c_str(), 0755 ); touch( d[i] + "/" + files[5] + "/inner.so" ); }
  touch( base + "/file" );
  for ( int i = 0; i < 2; ++i ) for ( int f = 0; f < 2; ++f ) { if ( i == 1 && f == 1 ) continue; int fate = sx_choice( "fate", 4 ); if ( ! fate ) continue; std::string p = d[i] + "/" + files[f]; touch( p ); module m = { fate - 1, fate == 3 ? (int)sx_range( "failures", -1000, 1000 ) : 0, 0, 0 }; mods[p] = m; }
  static const int lists = 6; int env = sx_choice( "environment", lists ); std::vector< std::string > want;
  std::string one = d[0], two = d[1], none = base + "/none", text;
  if ( env == 0 ) unsetenv( "KWIVER_PLUGIN_PATH" );
  if ( env == 1 ) text = one; if ( env == 2 ) text = one + ":" + two; if ( env == 3 ) text = ":" + two + "::" + one; if ( env == 4 ) text = none + ":" + base + "/file:" + two; if ( env == 5 ) text = one + ":" + one;
  if ( env ) { setenv( "KWIVER_PLUGIN_PATH", text.c_str(), 1 ); size_t p = 0; for ( ;; ) { size_t q = text.find( ':', p ); want.push_back( text.substr( p, q - p ) ); if ( q == std::string::npos ) break; p = q + 1; } }
  std::string rest = DEFAULT_MODULE_PATHS; { size_t p = 0; while ( p < rest.size() ) { size_t q = rest.find( ':', p ); want.push_back( rest.substr( p, q - p ) ); if ( q == std::string::npos ) break; p = q + 1; } }
  APM& m = APM::instance(); sx_assert( &m == &APM::instance() && m.get_search_path() == want && order.empty() && m.registered_module_names().empty() );
  if ( sx_bool( "added" ) ) { m.add_search_path( two ); want.push_back( two ); sx_assert( m.get_search_path() == want ); }
  static const char* const names[] = { "", "vital_a", "my.module", "my", "vital", "once" };
  int which = sx_choice( "filter", 6 ); std::string filter = names[which]; bool once = which == 5; if ( once ) { filter.clear(); sx_assert( APM::load_plugins_once() ); sx_reach( "once" ); } else m.register_plugins( filter );
  std::vector< std::string > expect; std::set< std::string > good; int calls = 0; std::map< std::string, int > times;
  for ( size_t i = 0; i < want.size(); ++i ) for ( int f = 0; f < 2; ++f )
  {
    std::string p = want[i] + "/" + files[f]; auto e = mods.find( p ); if ( want[i].empty() || e == mods.end() || ( filter.size() && filter != keys[f] ) ) continue;
    ++times[p]; expect.push_back( p ); if ( e->second.fate > 1 ) { ++calls; if ( ! ( e->second.failures > 0 ) ) { good.insert( keys[f] ); sx_reach( "loaded" ); } else sx_reach( "refused" ); } else sx_reach( e->second.fate ? "unbound" : "unopened" );
    if ( f == 1 && filter.size() ) sx_reach( "dotted" );
  }
  // The directories are taken in order, the files of one in any order.
  sx_assert( order.size() == expect.size() && ran == calls ); auto dir = []( std::string const& p ) { return p.substr( 0, p.rfind( '/' ) ); };
  for ( size_t i = 0; i < order.size(); ++i ) sx_assert( dir( order[i] ) == dir( expect[i] ) );
  for ( auto const& e : mods )
  {
    module const& x = e.second; int t = times.count( e.first ) ? times[e.first] : 0; bool kept = x.fate > 1 && ! ( x.failures > 0 );
    sx_assert( x.opened == t && x.closed == ( x.fate && ! kept ? t : 0 ) ); if ( t > 1 ) sx_reach( "twice" );
  }
  sx_assert( m.registered_module_names() == std::vector< std::string >( good.begin(), good.end() ) );
  if ( expect.empty() ) sx_reach( "none" ); sx_reach( "directory" );
  if ( once ) { sx_assert( ! APM::load_plugins_once() && order.size() == expect.size() ); }
}
