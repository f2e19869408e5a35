// SX-SOURCES: vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/exceptions/base.cxx
// SX-REACH: true false refused
// SX-ASSUME: texts of up to 5 arbitrary bytes
#include "hx.h"
#include <vital/config/config_block.h>
using namespace kwiver::vital;
static bool same( std::string const& s, const char* lower )
{
  if ( s.size() != strlen( lower ) ) return false;
  bool r = true;
  for ( size_t i = 0; i < s.size(); ++i ) { char c = s[i]; char l = ( c >= 'A' && c <= 'Z' ) ? c + 32 : c; r &= l == lower[i]; }
  return r;
}
void sx_main()
{
  std::string v = hx_str( "text", 0, sx_param( "text_bytes", 5, 5 ) );
  std::string t = hx_trim( v );
  config_block_sptr c = config_block::empty_config();
  c->set_value( "key", v, std::string() );
  bool y = same( t, "true" ) || same( t, "yes" ) || same( t, "1" ), n = same( t, "false" ) || same( t, "no" ) || same( t, "0" );
  bool def = sx_bool( "default" );
  if ( y || n )
  {
    sx_assert( c->get_value< bool >( "key" ) == y );
    sx_assert( c->get_value< bool >( "key", def ) == y );
    sx_reach( y ? "true" : "false" );
  }
  else
  {
    sx_assert( HX_THROWS( c->get_value< bool >( "key" ), bad_config_block_cast_exception ) );
    sx_assert( c->get_value< bool >( "key", def ) == def );
    sx_reach( "refused" );
  }
  sx_assert( c->get_value< bool >( "nokey", def ) == def );
}
