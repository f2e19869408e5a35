// SX-SOURCES: vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/config/config_block_types.cxx vital/exceptions/base.cxx
// SX-REACH: set-overwrite unset-present unset-missing descr-kept descr-replaced get-missing location-kept
// SX-ASSUME: keys of 0 or 1 arbitrary bytes, values and descriptions of one arbitrary byte (values without blanks) or empty, operation histories of the stated length
#include "hx.h"
#include <vital/config/config_block.h>
#include <algorithm>
using namespace kwiver::vital;
struct ent { std::string k, v, d; int line; };
void sx_main()
{
  int steps = sx_param( "operations", 3, 3 ), kl = sx_param( "key_bytes", 1, 1 );
  config_block_sptr c = config_block::empty_config( "nm" );
  sx_assert( c->get_name() == "nm" );
  std::vector< ent > m;
  std::shared_ptr< std::string > file = std::make_shared< std::string >( "f" );
  for ( int s = 0; s < steps; ++s )
  {
    std::string k = hx_str( "key", s ? 0 : kl, kl );
    size_t at = 0;
    while ( at < m.size() && ! hx_eq( m[at].k, k ) ) ++at;
    bool have = at < m.size();
    switch ( sx_choice( "op", s == 0 ? 1 : 3 ) )
    {
    case 0:
    {
      std::string t = hx_str( "val", 1, 1 ), d = hx_str( "descr", 0, 1 );
      sx_assume( ! hx_space( t[0] ) );
      if ( d.empty() && sx_bool( "two-argument form" ) ) c->set_value( k, t ); else c->set_value( k, t, d );
      if ( have )
      {
        sx_reach( "set-overwrite" );
        m[at].v = t;
        if ( d.size() ) { m[at].d = d; sx_reach( "descr-replaced" ); }
        else if ( m[at].d.size() ) sx_reach( "descr-kept" );
        if ( m[at].line >= 0 ) sx_reach( "location-kept" );
      }
      else { ent e = { k, t, d, -1 }; m.push_back( e ); }
      break;
    }
    case 1:
      if ( have )
      {
        sx_reach( "unset-present" );
        c->unset_value( k );
        m.erase( m.begin() + at );
      }
      else
      {
        sx_reach( "unset-missing" );
        sx_assert( HX_THROWS( c->unset_value( k ), no_such_configuration_value_exception ) );
      }
      break;
    case 2:
      if ( ! have ) { sx_assume( false ); }
      m[at].line = 10 + s;
      c->set_location( k, file, 10 + s );
      break;
    }
  }
  // the whole content, and one further arbitrary key
  std::string q = hx_str( "query", kl, kl );
  bool found = false;
  config_block_keys_t keys = c->available_values();
  sx_assert( keys.size() == m.size() );
  for ( size_t i = 0; i < m.size(); ++i )
  {
    sx_assert( c->has_value( m[i].k ) );
    sx_assert( hx_eq( c->get_value< std::string >( m[i].k ), m[i].v ) );
    sx_assert( hx_eq( c->get_value< std::string >( m[i].k, "def" ), m[i].v ) );
    sx_assert( hx_eq( c->get_description( m[i].k ), m[i].d ) );
    std::string lf = "none"; int ll = -1;
    bool hl = c->get_location( m[i].k, lf, ll );
    sx_assert( hl == ( m[i].line >= 0 ) );
    sx_assert( ll == m[i].line && lf == ( hl ? "f" : "none" ) );
    bool listed = false;
    for ( size_t j = 0; j < keys.size(); ++j ) listed |= hx_eq( keys[j], m[i].k );
    sx_assert( listed );
    found |= hx_eq( q, m[i].k );
  }
  if ( ! found )
  {
    sx_reach( "get-missing" );
    sx_assert( ! c->has_value( q ) );
    sx_assert( HX_THROWS( c->get_value< std::string >( q ), no_such_configuration_value_exception ) );
    sx_assert( HX_THROWS( c->get_description( q ), no_such_configuration_value_exception ) );
    sx_assert( c->get_value< std::string >( q, "dflt" ) == "dflt" );
  }
}
