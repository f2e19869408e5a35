// SX-SOURCES: vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/exceptions/base.cxx
// SX-REACH: number negative trailing refused overflow
// SX-ASSUME: texts of up to 3 (4) arbitrary bytes, and 10 digit decimal numbers with optional sign
#include "hx.h"
#include <vital/config/config_block.h>
using namespace kwiver::vital;
void sx_main()
{
  std::string v;
  bool big = sx_bool( "ten digits" );
  if ( big ) { if ( sx_bool( "minus" ) ) v = "-"; v += "21474836"; v += hx_strr( "last digits", 2, 2, '0', '9' ); }
  else v = hx_str( "text", 0, sx_param( "text_bytes", 3, 4 ) );
  std::string t = hx_trim( v );
  config_block_sptr c = config_block::empty_config();
  c->set_value( "key", v, std::string( "d" ) );
  size_t i = 0; bool neg = false; long long val = 0; size_t digits = 0;
  if ( i < t.size() && ( t[i] == '-' || t[i] == '+' ) ) { neg = t[i] == '-'; ++i; }
  for ( ; i < t.size() && t[i] >= '0' && t[i] <= '9'; ++i, ++digits ) val = val * 10 + ( t[i] - '0' );
  if ( neg ) val = -val;
  bool ok = digits > 0 && val >= -2147483648LL && val <= 2147483647LL;
  int def = -77;
  if ( ok )
  {
    sx_assert( c->get_value< int >( "key" ) == (int)val );
    sx_assert( c->get_value< int >( "key", def ) == (int)val );
    sx_reach( "number" );
    if ( val < 0 ) sx_reach( "negative" );
    if ( i < t.size() ) sx_reach( "trailing" );
  }
  else
  {
    sx_assert( HX_THROWS( c->get_value< int >( "key" ), bad_config_block_cast_exception ) );
    sx_assert( c->get_value< int >( "key", def ) == def );
    sx_reach( digits ? "overflow" : "refused" );
  }
  sx_assert( HX_THROWS( c->get_value< int >( "nokey" ), no_such_configuration_value_exception ) );
  sx_assert( c->get_value< int >( "nokey", def ) == def );
}
