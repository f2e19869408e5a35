// SX-SOURCES: vital/config/config_block.cxx vital/config/config_block_exception.cxx vital/exceptions/base.cxx
// SX-REACH: overwritten kept added descr-kept descr-taken read-only-stop nested view-source
// SX-ASSUME: two entries on each side, keys of one arbitrary byte, values of one arbitrary non-blank byte, descriptions empty or one byte, the source a block or a view of one
#include "hx.h"
#include <vital/config/config_block.h>
using namespace kwiver::vital;
struct ent { std::string k, v, d; };
static const ent* look( std::vector< ent > const& m, std::string const& k ) { for ( size_t i = 0; i < m.size(); ++i ) if ( hx_eq( m[i].k, k ) ) return &m[i]; return 0; }
static ent mk( const char* n, bool withd )
{
  ent e; e.k = hx_str( n, 1, 1 ); e.v = hx_str( "v", 1, 1 ); sx_assume( ! hx_space( e.v[0] ) ); if ( withd ) e.d = hx_str( "d", 0, 1 ); return e;
}
static void check( config_block_sptr c, std::vector< ent > const& m )
{
  sx_assert( c->available_values().size() == m.size() );
  for ( size_t i = 0; i < m.size(); ++i )
  {
    sx_assert( hx_eq( c->get_value< std::string >( m[i].k ), m[i].v ) );
    sx_assert( hx_eq( c->get_description( m[i].k ), m[i].d ) );
  }
}
void sx_main()
{
  std::vector< ent > a, b, r;
  a.push_back( mk( "ka", true ) ); a.push_back( mk( "ka2", false ) );
  b.push_back( mk( "kb", true ) ); if ( sx_bool( "two" ) ) b.push_back( mk( "kb2", false ) );
  sx_assume( ! hx_eq( a[0].k, a[1].k ) );
  if ( b.size() > 1 ) sx_assume( ! hx_eq( b[0].k, b[1].k ) );
  config_block_sptr A = config_block::empty_config(), B = config_block::empty_config();
  if ( sx_bool( "source is a view" ) ) { B = B->subblock_view( "u" ); sx_reach( "view-source" ); }
  for ( size_t i = 0; i < a.size(); ++i ) A->set_value( a[i].k, a[i].v, a[i].d );
  for ( size_t i = 0; i < b.size(); ++i ) B->set_value( b[i].k, b[i].v, b[i].d );
  bool ro = sx_bool( "first read only" );
  if ( ro ) A->mark_read_only( a[0].k );
  bool clash = look( b, a[0].k ) != 0;
  if ( ro && clash )
  {
    sx_assert( HX_THROWS( A->merge_config( B ), set_on_read_only_value_exception ) );
    sx_assert( hx_eq( A->get_value< std::string >( a[0].k ), a[0].v ) );
    sx_assert( hx_eq( A->get_description( a[0].k ), a[0].d ) );
    check( B, b );
    sx_reach( "read-only-stop" );
    return;
  }
  r = a;
  for ( size_t i = 0; i < b.size(); ++i )
  {
    ent* e = const_cast< ent* >( look( r, b[i].k ) );
    if ( ! e ) { r.push_back( b[i] ); sx_reach( "added" ); }
    else
    {
      e->v = b[i].v; sx_reach( "overwritten" );
      if ( b[i].d.size() ) { e->d = b[i].d; sx_reach( "descr-taken" ); } else if ( e->d.size() ) sx_reach( "descr-kept" );
    }
  }
  if ( r.size() == 2 + b.size() ) sx_reach( "kept" );
  if ( sx_bool( "into a view" ) )
  {
    config_block_sptr T = config_block::empty_config(), V = T->subblock_view( "w" );
    V->merge_config( A ); V->merge_config( B );
    check( V, r );
    sx_assert( T->available_values().size() == r.size() );
    for ( size_t i = 0; i < r.size(); ++i ) sx_assert( hx_eq( T->get_value< std::string >( "w:" + r[i].k ), r[i].v ) );
    sx_reach( "nested" );
    check( A, a );
  }
  else
  {
    A->merge_config( B );
    check( A, r );
  }
  check( B, b );       // the source is left as it was
}
