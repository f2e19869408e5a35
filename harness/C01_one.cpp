// SX-SOURCES: vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/config/config_block_types.cxx vital/exceptions/base.cxx
// SX-REACH: back-after-unset located described twice-located read-only-kept
// SX-ASSUME: histories of operations on one key of one arbitrary byte beside a second fixed entry; arbitrary line numbers
#include "hx.h"
#include <vital/config/config_block.h>
using namespace kwiver::vital;
void sx_main()
{
  int steps = sx_param( "operations", 5, 6 );
  config_block_sptr c = config_block::empty_config();
  std::string k = hx_str( "key", 1, 1 );
  sx_assume( k[0] != 'z' );
  c->set_value( "z", "other", "about z" );
  std::shared_ptr< std::string > files[2] = { std::make_shared< std::string >( "f" ), std::make_shared< std::string >( "g" ) };
  c->set_location( "z", files[1], 77 );
  bool have = false, loc = false, gone = false; std::string v, d, f; int l = 0;
  for ( int s = 0; s < steps; ++s )
  {
    switch ( sx_choice( "op", 4 ) )
    {
    case 0:
    case 1:
    {
      std::string t( 1, char( 'a' + s ) );
      bool descr = sx_bool( "with description" );
      c->set_value( k, t, descr ? "D" + t : std::string() );
      v = t; if ( ! have || descr ) d = descr ? "D" + t : std::string();
      if ( gone ) sx_reach( "back-after-unset" );
      if ( descr ) sx_reach( "described" );
      have = true;
      break;
    }
    case 2:
      if ( have ) { c->unset_value( k ); gone = true; } else sx_assert( HX_THROWS( c->unset_value( k ), no_such_configuration_value_exception ) );
      have = loc = false; d = "";
      break;
    case 3:
      sx_assume( have );
      if ( loc ) sx_reach( "twice-located" );
      l = sx_var( "line", 32 ); f = s & 1 ? "g" : "f"; loc = true;
      c->set_location( k, files[s & 1], l );
      sx_reach( "located" );
      break;
    }
  }
  std::string lf = "none"; int ll = -5;
  sx_assert( c->has_value( k ) == have );
  sx_assert( c->available_values().size() == ( have ? 2u : 1u ) );
  bool hl = c->get_location( k, lf, ll );
  sx_assert( hl == loc );
  sx_assert( lf == ( loc ? f : "none" ) && ll == ( loc ? l : -5 ) );
  if ( have )
  {
    sx_assert( c->get_value< std::string >( k ) == v );
    sx_assert( c->get_description( k ) == d );
  }
  // a mark protects what is there and changes nothing of it
  c->mark_read_only( k );
  if ( have )
  {
    sx_assert( HX_THROWS_ANY( c->set_value( k, "new", "new" ) ) && HX_THROWS_ANY( c->unset_value( k ) ) );
    sx_assert( c->get_value< std::string >( k ) == v && c->get_description( k ) == d );
    sx_reach( "read-only-kept" );
  }
  sx_assert( c->get_value< std::string >( "z" ) == "other" && c->get_description( "z" ) == "about z" );
  sx_assert( c->get_location( "z", lf, ll ) && lf == "g" && ll == 77 );
}
