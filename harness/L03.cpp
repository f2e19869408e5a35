// SX-SOURCES: vital/logger/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/logger/log4cxx_factory.cxx vital/kwiversys/SystemInformation.cxx vital/kwiversys/DynamicLoader.cxx
// SX-STUBS: sysinfo.cpp
// SX-REACH: loaded missing unbound replaced
// SX-ASSUME: the loader of shared objects is a stand-in: opening fails or yields a handle, the entry point is absent or yields a factory; texts are of arbitrary bytes without NUL
#include "hx.h"
#include <vital/logger/logger.h>
#include <vital/logger/kwiver_logger_manager.h>
#include <vital/logger/kwiver_logger_factory.h>
#include <vital/logger/default_logger.h>
#include <kwiversys/DynamicLoader.hxx>
#include <iostream>
#include <sstream>
#include <stdlib.h>
using namespace kwiver::vital;
static int opened, closed, looked, made, gone, handle; static bool opens, binds; static std::string wanted, asked;
class spy : public logger_ns::logger_factory_default { public: std::string tag; spy( std::string t ) : tag( t ) {} ~spy() { ++gone; }
  logger_handle_t get_logger( std::string const& n ) { asked = tag + ":" + n; return logger_ns::logger_factory_default::get_logger( n ); } };
class named : public logger_ns::kwiver_logger_factory { public: logger_ns::logger_factory_default d; named() : kwiver_logger_factory( "named" ) {} ~named() { ++gone; }
  logger_handle_t get_logger( std::string const& n ) { asked = "named:" + n; return d.get_logger( n ); } };
static logger_ns::kwiver_logger_factory* make() { ++made; return new named; }
namespace kwiversys {
DynamicLoader::LibraryHandle DynamicLoader::OpenLibrary( std::string const& f ) { ++opened; wanted = f; return opens ? &handle : 0; }
int DynamicLoader::CloseLibrary( LibraryHandle h ) { sx_assert( h == &handle ); ++closed; return 1; }
DynamicLoader::SymbolPointer DynamicLoader::GetSymbolAddress( LibraryHandle h, std::string const& s ) { sx_assert( h == &handle && ! closed && hx_eq( s, "kwiver_logger_factory" ) ); ++looked; return binds ? (SymbolPointer)make : 0; }
const char* DynamicLoader::LastError() { return "the loader's words"; }
}
void sx_main()
{
  bool given = sx_bool( "environment" ); opens = sx_bool( "opens" ); binds = sx_bool( "binds" );
  if ( given ) setenv( "VITAL_LOGGER_FACTORY", "/some/where/custom.so", 1 ); else unsetenv( "VITAL_LOGGER_FACTORY" );
  std::stringbuf out; std::streambuf* old = std::cerr.rdbuf( &out );
  std::string n = hx_str( "name", 0, sx_param( "name_bytes", 3, 5 ) ); for ( size_t i = 0; i < n.size(); ++i ) sx_assume( n[i] != 0 );
  bool text = sx_bool( "text" ); logger_handle_t l = text ? get_logger( n ) : get_logger( n.c_str() );
  std::cerr.rdbuf( old ); kwiver_logger_manager* m = kwiver_logger_manager::instance();
  sx_assert( l && m && m == kwiver_logger_manager::instance() && opened == 1 && hx_eq( wanted, given ? "/some/where/custom.so" : "vital_logger_plugin.so" ) );
  bool loaded = opens && binds; sx_assert( made == loaded && looked == ( opens ? 1 : 0 ) && closed == ( opens && ! binds ? 1 : 0 ) );
  sx_assert( hx_eq( m->get_factory_name(), loaded ? "named" : "default_logger factory" ) && hx_eq( l->get_name(), n ) && hx_eq( asked, loaded ? "named:" + n : std::string() ) );
  sx_assert( loaded == out.str().empty() ); if ( ! loaded && given ) sx_assert( out.str().find( "VITAL_LOGGER_FACTORY" ) != std::string::npos && out.str().find( "loader's words" ) != std::string::npos );
  sx_assert( get_logger( n ) == l && get_logger( n.c_str() ) == l && opened == 1 );
  sx_reach( loaded ? "loaded" : opens ? "unbound" : "missing" );
  std::unique_ptr< logger_ns::kwiver_logger_factory > f( new spy( "x" ) ); logger_ns::kwiver_logger_factory* p = f.get();
  m->set_logger_factory( std::move( f ) );
  sx_assert( f && f.get() != p && hx_eq( f->get_factory_name(), loaded ? "named" : "default_logger factory" ) && ! gone && hx_eq( m->get_factory_name(), p->get_factory_name() ) );
  logger_handle_t k = get_logger( n ); sx_assert( k && k != l && hx_eq( asked, "x:" + n ) && hx_eq( k->get_name(), n ) && get_logger( n ) == k && f->get_logger( n ) == l );
  sx_reach( "replaced" );
}
