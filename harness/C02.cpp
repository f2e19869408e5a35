// SX-SOURCES: vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/exceptions/base.cxx
// SX-REACH: set-refused unset-refused merge-refused set-allowed unset-allowed mark-before-set view-refused view-allowed nested
// SX-ASSUME: keys of one arbitrary byte in one block "b" or in the block "c" within it, directly or through (nested) views, values of one arbitrary byte, one marked key, one or two modification attempts (one in the nested block) of any kind after it
#include "hx.h"
#include <vital/config/config_block.h>
using namespace kwiver::vital;
// A marked entry keeps its value and description whatever is attempted; entries not marked stay writable.
static std::string nb( const char* n ) { std::string s = hx_str( n, 1, 1 ); sx_assume( ! hx_space( s[0] ) ); return s; }
void sx_main()
{
  config_block_sptr root = config_block::empty_config();
  bool nested = sx_choice( "nested view", 2 );
  std::string const bk = nested ? "b:c:" : "b:";
  config_block_sptr view = root->subblock_view( "b" );
  if ( nested ) { view = view->subblock_view( "c" ); sx_reach( "nested" ); }
  std::string k = hx_str( "key", 1, 1 );
  bool in_view = sx_bool( "marked through view" );
  bool value_first = sx_bool( "value set before mark" );
  config_block_sptr m = in_view ? view : root;
  std::string mk = in_view ? k : bk + k;
  std::string v0;
  if ( value_first ) { v0 = nb( "value" ); root->set_value( bk + k, v0, std::string( "d" ) ); }
  else sx_reach( "mark-before-set" );
  sx_assert( ! root->is_read_only( bk + k ) && ! view->is_read_only( k ) );
  m->mark_read_only( mk );
  sx_assert( root->is_read_only( bk + k ) );
  sx_assert( view->is_read_only( k ) );
  int n = nested ? 1 : sx_param( "attempts", 2, 3 );
  for ( int i = 0; i < n; ++i )
  {
    std::string k2 = hx_str( "other key", 1, 1 ), v2 = nb( "new value" );
    bool same = hx_eq( k, k2 );
    bool thru = sx_bool( "through view" );
    std::string key = thru ? k2 : bk + k2;
    config_block_sptr t = thru ? view : root;
    bool had = root->has_value( bk + k2 );
    switch ( sx_choice( "attempt", 4 ) )
    {
    case 0:
      if ( same ) { sx_assert( HX_THROWS( t->set_value( key, v2, std::string( "e" ) ), set_on_read_only_value_exception ) ); sx_reach( "set-refused" ); if ( thru ) sx_reach( "view-refused" ); }
      else { t->set_value( key, v2, std::string( "e" ) ); sx_assert( hx_eq( root->get_value< std::string >( bk + k2 ), v2 ) ); sx_reach( "set-allowed" ); if ( thru ) sx_reach( "view-allowed" ); }
      break;
    case 1:
      if ( same ) { sx_assert( HX_THROWS( t->set_value( key, 5 ), set_on_read_only_value_exception ) ); sx_assert( HX_THROWS( t->set_value( key, true, std::string() ), set_on_read_only_value_exception ) ); }
      else { t->set_value( key, true, std::string() ); sx_assert( root->get_value< bool >( bk + k2 ) ); }
      break;
    case 2:
      if ( same ) { sx_assert( HX_THROWS( t->unset_value( key ), unset_on_read_only_value_exception ) ); sx_reach( "unset-refused" ); }
      else if ( had ) { t->unset_value( key ); sx_assert( ! root->has_value( bk + k2 ) ); sx_reach( "unset-allowed" ); }
      else sx_assert( HX_THROWS( t->unset_value( key ), no_such_configuration_value_exception ) );
      break;
    case 3:
    {
      config_block_sptr o = config_block::empty_config();
      o->set_value( key, v2 );
      if ( same ) { sx_assert( HX_THROWS( t->merge_config( o ), set_on_read_only_value_exception ) ); sx_reach( "merge-refused" ); }
      else { t->merge_config( o ); sx_assert( hx_eq( root->get_value< std::string >( bk + k2 ), v2 ) ); }
      // the mark is not carried over by merging or copying
      config_block_sptr copy = config_block::empty_config();
      copy->merge_config( root );
      sx_assert( ! copy->is_read_only( bk + k ) );
      sx_assert( ! root->subblock( nested ? "b:c" : "b" )->is_read_only( k ) );
      break;
    }
    }
    // the protected entry is as it was, and still protected
    sx_assert( root->is_read_only( bk + k ) );
    if ( value_first )
    {
      sx_assert( hx_eq( root->get_value< std::string >( bk + k ), v0 ) );
      sx_assert( root->get_description( bk + k ) == "d" );
    }
    else sx_assert( ! root->has_value( bk + k ) );
    if ( ! same ) sx_assert( ! root->is_read_only( bk + k2 ) );
  }
}
