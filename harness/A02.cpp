// SX-SOURCES: vital/registrar.cxx vital/algo/algorithm.cxx vital/config/config_block.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp
// SX-REACH: stored absent-new absent-kept built untouched wrong accepted rejected unlisted missing round
#include "algo.h"
typedef std::map< std::string, std::string > content;
static content all( config_block_sptr c ) { content r; for ( auto const& k : c->available_values() ) r[k] = c->get_value< std::string >( k ); return r; }
static void expect( config_block_sptr c, content const& w ) { content r = all( c ); sx_assert( r.size() == w.size() ); auto i = w.begin(); for ( auto const& e : r ) { sx_assert( hx_eq( e.first, i->first ) && hx_eq( e.second, i->second ) ); ++i; } }
// what a view of a name shows
static content below( content const& c, std::string const& p ) { content r; for ( auto const& e : c ) if ( e.first.size() > p.size() && hx_eq( e.first.substr( 0, p.size() + 1 ), p + ":" ) ) r[e.first.substr( p.size() + 1 )] = e.second; return r; }
static bool equal( content const& a, content const& b ) { if ( a.size() != b.size() ) return false; auto i = b.begin(); for ( auto const& e : a ) { if ( ! hx_eq( e.first, i->first ) || ! hx_eq( e.second, i->second ) ) return false; ++i; } return true; }
static int len; static std::string word( const char* nm ) { std::string s = hx_str( nm, 1, len ); bool ok = true; for ( char c : s ) ok &= ( c > ' ' ) & ( c != ':' ) & ( c != 127 ); sx_assume( ok ); return s; }
void sx_main()
{
  len = sx_param( "bytes of a name", 1, 2 );
  type_name_of[0] = "feature"; type_name_of[1] = "feature_more";
  int n = sx_choice( "registrations", 3 ); std::vector< algorithm_sptr > made; algorithm_sptr last;
  std::map< std::string, algorithm_sptr > m[2];
  for ( int i = 0; i < n; ++i )
  {
    int k = i ? sx_choice( "second kind", 2 ) : 0; algorithm_sptr a = make( k, word( "implementation" ), i );
    part& p = part_of( a.get() ); p.descr = i ? "" : "text"; p.defaults["size"] = i ? "4" : "3";
    enlist( a ); m[k][p.impl] = a;
  }
  std::string name = n > 1 || sx_bool( "nested name" ) ? "a:b" : word( "name" ), key = name + ":type";
  config_block_sptr c = config_block::empty_config( "top" ); content w;
  w["other"] = "kept"; w[name] = "itself"; w[name + "x:type"] = "near"; 
  bool have = sx_bool( "type present" ); std::string type;
  if ( have ) { type = word( "type" ); w[key] = type; }
  std::string sub = word( "settings" ), sval = hx_str( "value", 1, 1 ); sx_assume( ! hx_space( sval[0] ) );
  w[name + ":" + sub + ":size"] = sval; w[name + ":" + sub + ":more:deep"] = "1";
  for ( auto const& e : w ) c->set_value( e.first, e.second );
  bool typed = sx_bool( "through the kind" );
  switch ( sx_choice( "what", 4 ) )
  {
  case 0:
  {
    algorithm_sptr nested; if ( sx_bool( "algorithm" ) ) { nested = make( 0, word( "nested" ), 9 ); part_of( nested.get() ).defaults["size"] = "5"; part_of( nested.get() ).defaults["a:z"] = "6"; }
    if ( typed ) first_kind::get_nested_algo_configuration( name, c, std::dynamic_pointer_cast< first_kind >( nested ) ); else algorithm::get_nested_algo_configuration( "feature", name, c, nested );
    bool fresh = ! nested && ! have;
    if ( nested ) { std::string q = name + ":" + nested->impl_name(); w[key] = nested->impl_name(); w[q + ":size"] = "5"; w[q + ":a:z"] = "6"; sx_assert( c->get_description( q + ":size" ) == "described" ); sx_reach( "stored" ); }
    else if ( fresh ) { w[key] = ""; sx_reach( "absent-new" ); }
    else sx_reach( "absent-kept" );
    expect( c, w );
    if ( nested || fresh )
    {
      std::string d = c->get_description( key );
      for ( auto const& e : m[0] ) { std::string line = "- " + e.first, t = part_of( e.second.get() ).descr; if ( t.size() ) line += " :: " + t; bool found = false; for ( size_t i = 0; i + line.size() <= d.size(); ++i ) found |= hx_eq( d.substr( i, line.size() ), line ) && ( i + line.size() == d.size() || d[i + line.size()] == '\n' ); sx_assert( found ); }
      size_t lines = 0; for ( size_t i = 0; i + 1 < d.size(); ++i ) lines += d[i] == '\t' && d[i + 1] == '-'; sx_assert( lines == m[0].size() );
    }
    break;
  }
  case 1:
  {
    algorithm_sptr before, got, shared; int had = sx_choice( "had one", 4 ); if ( had ) before = make( 0, had > 1 && have ? type : "old", 9 ); if ( had > 2 ) shared = before;
    if ( typed ) { std::shared_ptr< first_kind > f = std::dynamic_pointer_cast< first_kind >( before ); first_kind::set_nested_algo_configuration( name, c, f ); got = f; }
    else { got = before; algorithm::set_nested_algo_configuration( "feature", name, c, got ); }
    if ( have && m[0].count( type ) )
    {
      algorithm_sptr reg = m[0][type]; sx_assert( got && got != reg && got != before );
      part& p = part_of( got.get() ); sx_assert( p.configured && p.tag == part_of( reg.get() ).tag && ! part_of( reg.get() ).configured );
      sx_assert( equal( p.seen, below( w, name + ":" + type ) ) );
      if ( p.seen.size() ) sx_reach( "built" );
    }
    else { sx_assert( got == before ); if ( before ) sx_assert( ! part_of( before.get() ).configured ); have ? sx_reach( "wrong" ) : sx_reach( "untouched" ); }
    expect( c, w );
    break;
  }
  case 2:
  {
    bool accept = sx_bool( "accepted" ); for ( auto const& e : m[0] ) part_of( e.second.get() ).accept = accept; for ( auto const& e : m[1] ) part_of( e.second.get() ).accept = ! accept;
    bool r = typed ? first_kind::check_nested_algo_configuration( name, c ) : algorithm::check_nested_algo_configuration( "feature", name, c );
    bool listed = have && m[0].count( type );
    sx_assert( r == ( listed && accept ) );
    if ( listed ) { sx_assert( checks == 1 && equal( checked, below( w, name + ":" + type ) ) ); accept ? sx_reach( "accepted" ) : sx_reach( "rejected" ); }
    else { sx_assert( ! checks ); have ? sx_reach( "unlisted" ) : sx_reach( "missing" ); }
    expect( c, w );
    for ( auto const& e : m[0] ) sx_assert( ! part_of( e.second.get() ).configured );
    break;
  }
  case 3:
  {
    // the configuration an algorithm gives away rebuilds it
    if ( m[0].empty() ) break;
    algorithm_sptr a = algorithm::create( "feature", m[0].begin()->first ), b; part_of( a.get() ).defaults["size"] = sval;
    config_block_sptr d = config_block::empty_config( "other" );
    if ( typed ) first_kind::get_nested_algo_configuration( name, d, std::dynamic_pointer_cast< first_kind >( a ) ); else algorithm::get_nested_algo_configuration( "feature", name, d, a );
    algorithm::set_nested_algo_configuration( "feature", name, d, b );
    sx_assert( b && hx_eq( b->impl_name(), a->impl_name() ) && equal( part_of( b.get() ).seen, part_of( a.get() ).defaults ) );
    sx_reach( "round" );
    break;
  }
  }
}
