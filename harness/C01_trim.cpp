// SX-SOURCES: vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/config/config_block_types.cxx vital/exceptions/base.cxx
// SX-REACH: trimmed empty untouched inner-blank
// SX-ASSUME: values up to 4 (6 thorough) arbitrary bytes, stored under one key of one arbitrary byte
#include "hx.h"
#include <vital/config/config_block.h>
using namespace kwiver::vital;
void sx_main()
{
  int vl = sx_param( "value_bytes", 4, 5 );
  config_block_sptr c = config_block::empty_config();
  std::string k = hx_str( "key", 1, 1 ), v = hx_str( "val", 0, vl ), d = hx_str( "descr", 0, 2 );
  std::string copy( v );
  c->set_value( k, v, d );
  std::string t = hx_trim( copy );
  if ( t.size() != v.size() ) sx_reach( "trimmed" ); else sx_reach( "untouched" );
  if ( v.size() && t.empty() ) sx_reach( "empty" );
  if ( t.find( ' ' ) != std::string::npos ) sx_reach( "inner-blank" );
  sx_assert( hx_eq( v, copy ) );
  sx_assert( hx_eq( c->get_value< std::string >( k ), t ) );
  sx_assert( hx_eq( c->get_description( k ), d ) );   // descriptions are kept verbatim
  sx_assert( c->available_values().size() == 1 && hx_eq( c->available_values()[0], k ) );
}
