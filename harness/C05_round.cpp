// SX-SOURCES: vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/exceptions/base.cxx
// SX-REACH: int long unsigned bool char string
// SX-ASSUME: int, unsigned and long values below 2^16 (2^31 thorough) in magnitude, every bool, every non-blank char, strings of up to 3 bytes
#include "hx.h"
#include <vital/config/config_block.h>
using namespace kwiver::vital;
void sx_main()
{
  config_block_sptr c = config_block::empty_config();
  int lim = sx_param( "magnitude", 65535, 2147483647 );
  switch ( sx_choice( "type", 6 ) )
  {
  case 0: { int v = (int)sx_range( "int", -lim, lim ); c->set_value( "key", v ); sx_assert( c->get_value< int >( "key" ) == v ); sx_assert( c->get_value< int >( "key", 3 ) == v ); sx_reach( "int" ); break; }
  case 1: { long v = sx_range( "long", -lim, lim ); c->set_value( "key", v, std::string( "x" ) ); sx_assert( c->get_value< long >( "key" ) == v ); sx_reach( "long" ); break; }
  case 2: { unsigned v = (unsigned)sx_range( "unsigned", 0, lim ); c->set_value( "key", v ); sx_assert( c->get_value< unsigned >( "key" ) == v ); sx_reach( "unsigned" ); break; }
  case 3: { bool v = sx_bool( "bool" ); if ( sx_bool( "with description" ) ) { c->set_value( "key", v, std::string( "x" ) ); sx_assert( c->get_value< std::string >( "key" ) == ( v ? "true" : "false" ) ); } else c->set_value( "key", v ); sx_assert( c->get_value< bool >( "key" ) == v ); sx_reach( "bool" ); break; }
  case 4: { char v = (char)sx_var( "char", 8 ); sx_assume( ! hx_space( v ) ); c->set_value( "key", v ); sx_assert( c->get_value< char >( "key" ) == v ); sx_reach( "char" ); break; }
  case 5: { std::string v = hx_str( "string", 0, 3 ); c->set_value( "key", v ); sx_assert( hx_eq( c->get_value< std::string >( "key" ), hx_trim( v ) ) ); sx_reach( "string" ); break; }
  }
}
