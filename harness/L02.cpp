// SX-SOURCES: vital/logger/location_info.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx
// SX-STUBS: sysinfo.cpp
// SX-REACH: method function plain arguments site path
// SX-ASSUME: signatures of the form compilers give: [type ]{scope::}name[(arguments)[ const]], of letters and digits, the type and the arguments possibly with scopes and spaces of their own
#include "hx.h"
#include <vital/logger/location_info.h>
using namespace kwiver::vital::logger_ns;
static std::string word( const char* n, int lo, int hi )
{ std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( ( s[i] != 0 ) & ( s[i] != ':' ) & ( s[i] != ' ' ) & ( s[i] != '(' ) & ( s[i] != ')' ) ); return s; }
namespace outer { struct klass { static location_info here( int ) { return KWIVER_LOGGER_SITE; } template < class T > location_info there( T const& ) const { return KWIVER_LOGGER_SITE; } }; static location_info loose( std::string const& ) { return KWIVER_LOGGER_SITE; } }
void sx_main()
{
  switch ( sx_choice( "what", 3 ) )
  {
  case 0:
  {
    static const char* types[] = { "", "void ", "const std::string& ", "ns::type<a::b> ", "static unsigned long " };
    static const char* args[] = { "", "()", "(int)", "(std::string const&, ns::a b) const", "(void (*)(int), x::y)", "() [with T = a::b]" };
    int n = sx_param( "word_bytes", 2, 3 ), t = sx_choice( "type", 5 ), a = sx_choice( "arguments", 6 ), d = sx_choice( "scopes", 4 );
    std::string klass, method = word( "name", 1, n ), sig = types[t];
    for ( int i = 0; i < d; ++i ) { if ( i ) klass += "::"; klass += word( "scope", 1, n ); }
    if ( d ) sig += klass + "::"; sig += method + args[a];
    location_info l( "f", sig.c_str(), 3 );
    sx_assert( hx_eq( l.get_signature(), sig ) && l.get_method_name_ptr() == sig.c_str() && hx_eq( l.get_method_name(), method ) && hx_eq( l.get_class_name(), klass ) );
    sx_reach( d ? "method" : "function" ); sx_reach( a ? "arguments" : "plain" ); break;
  }
  case 1:
  {
    std::string dir, name = word( "file", 1, 3 ); for ( size_t i = 0; i < name.size(); ++i ) sx_assume( ( name[i] != '/' ) & ( name[i] != '\\' ) & ( name[i] != '~' ) );
    int d = sx_choice( "directories", 3 ), line = sx_range( "line", -1, 100000 ); bool root = sx_bool( "root" );
    for ( int i = 0; i < d; ++i ) { if ( i ) dir += '/'; std::string w = word( "directory", 1, 2 ); for ( size_t j = 0; j < w.size(); ++j ) sx_assume( ( w[j] != '/' ) & ( w[j] != '\\' ) & ( w[j] != '~' ) ); dir += w; }
    std::string path = ( root ? "/" : "" ) + dir + ( d ? "/" : "" ) + name; location_info l( path.c_str(), "m", line );
    sx_assert( hx_eq( l.get_file_name(), name ) && l.get_file_name_ptr() == path.c_str() && l.get_line_number() == line );
    sx_assert( hx_eq( l.get_file_path(), ( root ? "/" : "" ) + dir ) ); sx_reach( "path" ); break;
  }
  default:
  {
    location_info u; sx_assert( hx_eq( u.get_file_name(), "?" ) && hx_eq( u.get_file_path(), "" ) && hx_eq( u.get_signature(), "?::?" ) && hx_eq( u.get_method_name(), "?" ) && hx_eq( u.get_class_name(), "?" ) && u.get_line_number() == -1 );
    sx_assert( hx_eq( location_info::NA, "?" ) && hx_eq( location_info::NA_METHOD, "?::?" ) );
    int line = __LINE__; location_info h = KWIVER_LOGGER_SITE, a = outer::klass::here( 1 ), b = outer::klass().there( std::string() ), c = outer::loose( "" );
    sx_assert( h.get_line_number() == line && hx_eq( h.get_file_name(), "L02.cpp" ) && hx_eq( h.get_method_name(), "sx_main" ) && hx_eq( h.get_class_name(), "" ) );
    sx_assert( hx_eq( a.get_method_name(), "here" ) && hx_eq( a.get_class_name(), "outer::klass" ) && hx_eq( b.get_method_name(), "there" ) && hx_eq( b.get_class_name(), "outer::klass" ) && hx_eq( c.get_method_name(), "loose" ) && hx_eq( c.get_class_name(), "outer" ) );
    sx_reach( "site" );
  }
  }
}
