// SX-SOURCES: vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/exceptions/base.cxx
// SX-REACH: in-block out-of-block copy-detached view-write view-unset view-nested prefix-only
// SX-ASSUME: two entries whose keys are up to 3 arbitrary bytes, sub-block name of 1 (2 thorough) arbitrary bytes, one modification
#include "hx.h"
#include <vital/config/config_block.h>
using namespace kwiver::vital;
static bool inblk( std::string const& k, std::string const& n ) { return k.size() > n.size() && hx_eq( k.substr( 0, n.size() + 1 ), n + ":" ); }
static size_t count( config_block_keys_t const& ks, std::string const& k ) { size_t c = 0; for ( size_t i = 0; i < ks.size(); ++i ) c += hx_eq( ks[i], k ); return c; }
void sx_main()
{
  int nl = sx_param( "name_bytes", 1, 1 ), kl = sx_param( "key_bytes", 3, 4 );
  std::string n = hx_str( "block", nl, nl );
  config_block_sptr root = config_block::empty_config();
  std::string k[2] = { hx_str( "key", 1, kl ), std::string() };
  // the second key lies in the block by construction, or is arbitrary
  bool tied = sx_bool( "second key in block" );
  k[1] = tied ? n + ":" + hx_str( "rest", 0, 1 ) : hx_str( "key2", 1, 1 );
  sx_assume( ! hx_eq( k[0], k[1] ) );
  std::string v[2] = { "v0", "v1" }, d[2] = { "d0", "" };
  for ( int i = 0; i < 2; ++i ) root->set_value( k[i], v[i], d[i] );
  config_block_sptr copy = root->subblock( n );
  config_block_sptr view = root->subblock_view( n );
  sx_assert( hx_eq( copy->get_name(), n ) && hx_eq( view->get_name(), n ) );
  size_t in = 0;
  for ( int i = 0; i < 2; ++i )
    if ( inblk( k[i], n ) )
    {
      ++in; sx_reach( "in-block" );
      std::string r = k[i].substr( n.size() + 1 );
      sx_assert( copy->has_value( r ) && view->has_value( r ) );
      sx_assert( copy->get_value< std::string >( r ) == v[i] && view->get_value< std::string >( r ) == v[i] );
      sx_assert( copy->get_description( r ) == d[i] && view->get_description( r ) == d[i] );
      sx_assert( count( copy->available_values(), r ) == 1 && count( view->available_values(), r ) == 1 );
    }
    else
    {
      sx_reach( "out-of-block" );
      if ( k[i].size() > n.size() && hx_eq( k[i].substr( 0, n.size() ), n ) ) sx_reach( "prefix-only" );
    }
  // nothing else appears
  sx_assert( copy->available_values().size() == in );
  sx_assert( view->available_values().size() == in );
  std::string q = hx_str( "write key", 0, 1 );
  bool had = root->has_value( n + ":" + q );
  sx_assert( view->has_value( q ) == had && copy->has_value( q ) == had );
  switch ( sx_choice( "action", 5 ) )
  {
  case 0: // a write through the view is a write to the block, the copy is independent
    view->set_value( q, std::string( "new" ), std::string( "nd" ) );
    sx_assert( root->get_value< std::string >( n + ":" + q ) == "new" && root->get_description( n + ":" + q ) == "nd" );
    sx_assert( root->available_values().size() == 2 + ( had ? 0 : 1 ) );
    sx_assert( copy->has_value( q ) == had );
    if ( had ) sx_assert( copy->get_value< std::string >( q ) != "new" );
    sx_reach( "view-write" );
    break;
  case 1:
    root->set_value( n + ":" + q, std::string( "new" ) );
    sx_assert( view->get_value< std::string >( q ) == "new" );
    sx_assert( copy->available_values().size() == in );
    if ( had ) sx_assert( copy->get_value< std::string >( q ) != "new" );
    break;
  case 2:
    if ( had ) { view->unset_value( q ); sx_assert( ! root->has_value( n + ":" + q ) && copy->has_value( q ) ); sx_assert( root->available_values().size() == 1 ); sx_reach( "view-unset" ); }
    else sx_assert( HX_THROWS( view->unset_value( q ), no_such_configuration_value_exception ) );
    break;
  case 3: // the copy is detached
    copy->set_value( q, std::string( "new" ) );
    sx_assert( root->available_values().size() == 2 && root->has_value( n + ":" + q ) == had );
    if ( had ) sx_assert( root->get_value< std::string >( n + ":" + q ) != "new" );
    sx_reach( "copy-detached" );
    break;
  case 4: // nested views and sub-blocks of views
  {
    config_block_sptr vv = view->subblock_view( "w" );
    vv->set_value( q, std::string( "new" ) );
    sx_assert( root->get_value< std::string >( n + ":w:" + q ) == "new" );
    sx_assert( view->get_value< std::string >( "w:" + q ) == "new" );
    config_block_sptr c2 = view->subblock( "w" );
    sx_assert( c2->get_value< std::string >( q ) == "new" );
    sx_reach( "view-nested" );
    break;
  }
  }
}
