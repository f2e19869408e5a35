// SX-SOURCES: vital/registrar.cxx vital/algo/algorithm.cxx vital/config/config_block.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp
// SX-REACH: empty overwritten several refused missing clone configurations prefix
#include "algo.h"
#include <set>
template < class K > static void typed( int k, std::map< std::string, algorithm_sptr > const& m, std::string const& q )
{
  std::vector< std::string > names = K::registered_names(), want;
  for ( auto const& e : m ) want.push_back( e.first );
  sx_assert( names.size() == want.size() ); for ( size_t i = 0; i < names.size(); ++i ) sx_assert( hx_eq( names[i], want[i] ) );
  auto f = m.find( q );
  sx_assert( K::has_impl_name( q ) == ( f != m.end() ) );
  std::shared_ptr< K > c = K::create( q ), d = K::create( q );
  sx_assert( !! c == ( f != m.end() ) );
  if ( c )
  {
    sx_assert( c.get() != f->second.get() && c != d && c->p.tag == part_of( f->second.get() ).tag );
    int t = d->p.tag; c->p.tag = 77; sx_assert( part_of( f->second.get() ).tag == t && d->p.tag == t && K::create( q )->p.tag == t );
    sx_reach( "clone" );
  }
}
static void names( std::map< std::string, algorithm_sptr > const* m )
{
  std::set< std::string > all; for ( int k = 0; k < 2; ++k ) for ( auto const& e : m[k] ) all.insert( type_name_of[k] + ":" + e.first );
  std::vector< std::string > r = algorithm::registered_names();
  sx_assert( r.size() == all.size() ); { size_t i = 0; for ( auto const& e : all ) sx_assert( hx_eq( r[i++], e ) ); }
  for ( int k = 0; k < 2; ++k )
  {
    r = algorithm::registered_names( type_name_of[k] ); sx_assert( r.size() == m[k].size() );
    size_t i = 0; for ( auto const& e : m[k] ) sx_assert( hx_eq( r[i++], e.first ) );
    sx_assert( algorithm::has_type_name( type_name_of[k] ) == ! m[k].empty() );
  }
  if ( all.empty() ) sx_reach( "empty" );
}
void sx_main()
{
  if ( sx_bool( "kind names" ) )
  {
    type_name_of[0] = hx_str( "first kind", 1, 2 ); type_name_of[1] = hx_str( "second kind", 1, 2 );
    for ( int k = 0; k < 2; ++k ) for ( char c : type_name_of[k] ) sx_assume( c != ':' );
    sx_assume( ! hx_eq( type_name_of[0], type_name_of[1] ) );
    sx_reach( "prefix" );
  }
  else { type_name_of[0] = "detect"; type_name_of[1] = "detect_more"; }
  int len = sx_param( "bytes of a name", 1, 2 ), n = sx_choice( "registrations", sx_param( "registrations", 3, 4 ) );
  std::map< std::string, algorithm_sptr > m[2];
  for ( int i = 0; i < n; ++i )
  {
    int k = sx_choice( "kind", 2 ); std::string impl = hx_str( "name", i ? 1 : 0, len ); bool again = m[k].count( impl );
    algorithm_sptr a = make( k, impl, i ); if ( sx_bool( "default" ) ) part_of( a.get() ).defaults["size"] = std::string( 1, (char)( 'a' + i ) );
    sx_assert( enlist( a ) ); m[k][impl] = a;
    if ( again ) sx_reach( "overwritten" );
  }
  if ( m[0].size() + m[1].size() > 1 ) sx_reach( "several" );
  switch ( sx_choice( "what", 4 ) )
  {
  case 0: names( m ); break;
  case 1:
  {
    sx_assert( ! first_kind::register_instance( registrar::instance(), std::shared_ptr< first_kind >() ) );
    sx_assert( ! registrar::instance().register_item< algorithm >( "x", algorithm_sptr() ) );
    names( m ); std::string q = hx_str( "query", 1, len ); for ( int k = 0; k < 2; ++k ) k ? typed< second_kind >( k, m[k], q ) : typed< first_kind >( k, m[k], q );
    sx_reach( "refused" );
    break;
  }
  case 2:
  {
    std::string t = sx_bool( "other kind" ) ? hx_str( "kind", 1, 2 ) : type_name_of[sx_choice( "kind", 2 )], q = hx_str( "query", 0, len ), whole = t + ":" + q;
    for ( char c : t ) sx_assume( c != ':' );
    algorithm_sptr want; for ( int k = 0; k < 2; ++k ) if ( hx_eq( t, type_name_of[k] ) ) { auto f = m[k].find( q ); if ( f != m[k].end() ) want = f->second; }
    sx_assert( algorithm::has_impl_name( t, q ) == !! want );
    bool any = false; for ( int k = 0; k < 2; ++k ) any |= hx_eq( t, type_name_of[k] ) && ! m[k].empty();
    sx_assert( algorithm::has_type_name( t ) == any );
    sx_assert( registrar::instance().find< algorithm >( whole ) == want && registrar::instance().is_registered< algorithm >( whole ) == !! want );
    algorithm_sptr c = algorithm::create( t, q ); sx_assert( !! c == !! want );
    if ( c ) { sx_assert( c != want && part_of( c.get() ).tag == part_of( want.get() ).tag && hx_eq( c->impl_name(), q ) && hx_eq( c->type_name(), t ) ); part_of( c.get() ).tag = 77; sx_assert( part_of( want.get() ).tag != 77 ); }
    else sx_reach( "missing" );
    break;
  }
  case 3:
  {
    for ( auto const& e : m[0] ) { for ( char c : e.first ) sx_assume( c != ':' ); sx_assume( ! e.first.empty() ); }
    config_block_sptr c = first_kind::get_impl_configurations();
    std::map< std::string, std::string > want; for ( auto const& e : m[0] ) for ( auto const& d : part_of( e.second.get() ).defaults ) want[e.first + ":" + d.first] = d.second;
    config_block_keys_t keys = c->available_values(); sx_assert( keys.size() == want.size() );
    for ( auto const& w : want ) sx_assert( hx_eq( c->get_value< std::string >( w.first ), w.second ) && c->get_description( w.first ) == "described" );
    if ( want.size() ) sx_reach( "configurations" );
    break;
  }
  }
}
