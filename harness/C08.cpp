// SX-SOURCES: vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: replaced unknown-type undefined plain empty-name two
// SX-ASSUME: texts: arbitrary bytes (no NUL) up to the stated length around macro references assembled from symbolic names
#include "hx.h"
#include <vital/config/token_expander.h>
#include <vital/config/token_type_symtab.h>
#include <vital/config/token_type_config.h>
#include <vital/config/config_block.h>
using namespace kwiver::vital;
static bool al( char c ) { return ( ( c >= 'a' ) & ( c <= 'z' ) ) | ( ( c >= 'A' ) & ( c <= 'Z' ) ); }
static bool nm( char c ) { return al( c ) | ( ( c >= '0' ) & ( c <= '9' ) ) | ( c == '_' ); }
struct table { std::string name; bool def; std::string v; };
// documented form: $TYPE{name}; a reference of a known type is replaced by its value (nothing if undefined), anything else stays
static std::string oracle( std::string const& s, std::string const& sym, std::string const& val, std::string const& csym, std::string const& cval )
{
  std::string o; size_t i = 0;
  while ( i < s.size() )
  {
    if ( s[i] == '$' )
    {
      size_t j = i + 1;
      if ( j < s.size() && al( s[j] ) )
      {
        while ( j < s.size() && nm( s[j] ) ) ++j;
        if ( j < s.size() && s[j] == '{' )
        {
          size_t k = j + 1;
          while ( k < s.size() && ( nm( s[k] ) | ( s[k] == '.' ) | ( s[k] == ':' ) ) ) ++k;
          if ( k < s.size() && s[k] == '}' )
          {
            std::string type = s.substr( i + 1, j - i - 1 ), name = s.substr( j + 1, k - j - 1 );
            if ( hx_eq( type, "L" ) ) { if ( hx_eq( name, sym ) ) { o += val; sx_reach( "replaced" ); } else sx_reach( "undefined" ); }
            else if ( hx_eq( type, "CONFIG" ) ) { if ( hx_eq( name, csym ) ) o += cval; }
            else { o += s.substr( i, k + 1 - i ); sx_reach( "unknown-type" ); }
            if ( name.empty() ) sx_reach( "empty-name" );
            i = k + 1; continue;
          }
        }
      }
    }
    o += s[i++];
  }
  return o;
}
void sx_main()
{
  token_expander te;
  token_type_symtab* st = new token_type_symtab( "L" );
  std::string sym = hx_strr( "symbol", 1, 1, '.', 'z' ), val = hx_str( "symbol value", 0, 1 );
  sx_assume( nm( sym[0] ) | ( sym[0] == '.' ) | ( sym[0] == ':' ) );
  st->add_entry( "gone", "x" ); st->add_entry( sym, "old" ); st->add_entry( sym, val ); st->remove_entry( "gone" );
  sx_assert( te.add_token_type( st ) );
  config_block_sptr c = config_block::empty_config();
  c->set_value( "b:k", std::string( "cv" ) );
  te.add_token_type( new token_type_config( c.get() ) );
  std::string t;
  int n = sx_param( "raw_bytes", 5, 6 );
  switch ( sx_choice( "form", 4 ) )
  {
  case 0: t = hx_str( "text", 0, n ); sx_reach( "plain" ); break;
  case 1: t = hx_str( "before", 0, 1 ) + "$L{" + hx_str( "name", 0, 1 ) + "}" + hx_str( "after", 0, 1 ); break;
  case 2: t = "$L{" + sym + "}" + hx_str( "between", 0, 1 ) + "$" + hx_str( "type", 0, 1 ) + "{" + sym + "}$L{gone}"; sx_reach( "two" ); break;
  case 3: t = "$CONFIG{b" + hx_str( "sep", 1, 1 ) + "k}" + hx_str( "after", 0, 1 ) + "$L{" + sym + "}"; break;
  }
  bool ok = true;
  for ( size_t i = 0; i < t.size(); ++i ) ok &= t[i] != 0;
  for ( size_t i = 0; i < val.size(); ++i ) ok &= val[i] != 0;
  sx_assume( ok );
  sx_assert( hx_eq( te.expand_token( t ), oracle( t, sym, val, "b:k", "cv" ) ) );
}
