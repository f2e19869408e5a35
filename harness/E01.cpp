// SX-SOURCES: vital/exceptions/*.cxx vital/config/config_block_exception.cxx
// SX-REACH: algorithm image io math config plain
// SX-ASSUME: texts hold no NUL (what() is a C string)
#include "hx.h"
#include <vital/exceptions.h>
#include <vital/exceptions/base.h>
#include <vital/exceptions/algorithm.h>
#include <vital/exceptions/image.h>
#include <vital/exceptions/io.h>
#include <vital/exceptions/math.h>
#include <vital/config/config_block_exception.h>
#include <stdexcept>
using namespace kwiver::vital;
// the text is somewhere in the message
static bool in( std::string const& w, std::string const& p )
{
  bool r = false;
  for ( size_t i = 0; i + p.size() <= w.size(); ++i )
  {
    unsigned d = 0;
    for ( size_t j = 0; j < p.size(); ++j ) d |= (unsigned)( (unsigned char)w[i+j] ^ (unsigned char)p[j] );
    r |= ( d == 0 );
  }
  return r;
}
static std::string text( const char* n )
{
  std::string s = hx_str( n, 0, sx_param( "text bytes", 3, 5 ) );
  bool ok = true;
  for ( size_t i = 0; i < s.size(); ++i ) ok &= ( s[i] != 0 );
  sx_assume( ok );
  return s;
}
// thrown, copied, and caught as B; says every part; afterwards the message stays the same
template < class B, class E > static void caught( E const& e, std::vector< std::string > const& parts )
{
  std::string w = e.what();
  sx_assert( !w.empty() );
  for ( auto const& p : parts ) sx_assert( in( w, p ) );
  bool got = false;
  try { E c( e ); throw c; }
  catch ( B const& b ) { got = true; sx_assert( hx_eq( b.what(), w ) && dynamic_cast< E const* >( &b ) ); std::exception const& x = b; sx_assert( hx_eq( x.what(), w ) ); }
  sx_assert( got && hx_eq( e.what(), w ) );
}
template < class E > static std::string said( E const& e ) { return e.what(); }
void sx_main()
{
  switch ( sx_choice( "family", 6 ) )
  {
  case 0:
  {
    std::string t = text( "type" ), i = text( "impl" ), r = text( "reason" );
    auto same = [&]( algorithm_exception const& e, bool why ) { sx_assert( hx_eq( e.m_algo_type, t ) && hx_eq( e.m_algo_impl, i ) && ( !why || hx_eq( e.m_reason, r ) ) ); };
    algorithm_exception a( t, i, r );
    same( a, true ); caught< vital_core_base_exception >( a, { t, i, r } );
    algorithm_configuration_exception c( t, i, r );
    same( c, true ); caught< algorithm_exception >( c, { t, i, r } );
    invalid_name_exception n( t, i );
    same( n, false ); caught< algorithm_exception >( n, { t, i } );
    algorithm_exception b( a );
    same( b, true );
    sx_reach( "algorithm" );
    break;
  }
  case 1:
  {
    std::string m = text( "message" );
    size_t v[4]; std::vector< std::string > parts( 1, m );
    static const size_t pool[] = { 0, 7, 4294967295u, 4294967296u };
    for ( int k = 0; k < 4; ++k )
    {
      v[k] = pool[ sx_choice( "size", 4 ) ];
      parts.push_back( std::to_string( v[k] ) );
    }
    image_size_mismatch_exception e( m, v[0], v[1], v[2], v[3] );
    sx_assert( hx_eq( e.m_message, m ) && e.m_correct_w == v[0] && e.m_correct_h == v[1] && e.m_given_w == v[2] && e.m_given_h == v[3] );
    parts.push_back( parts[1] + ", " + parts[2] ); parts.push_back( parts[3] + ", " + parts[4] );
    caught< image_exception >( e, parts );
    caught< vital_core_base_exception >( e, parts );
    caught< vital_core_base_exception >( image_exception(), {} );
    sx_reach( "image" );
    break;
  }
  case 2:
  {
    std::string p = text( "path" ), r = text( "reason" );
    caught< vital_core_base_exception >( io_exception(), {} );
    caught< io_exception >( path_not_exists( p ), { p } );
    caught< io_exception >( path_not_a_file( p ), { p } );
    caught< io_exception >( path_not_a_directory( p ), { p } );
    caught< io_exception >( invalid_file( p, r ), { p, r } );
    caught< io_exception >( invalid_data( r ), { r } );
    caught< io_exception >( file_not_found_exception( p, r ), { p, r } );
    caught< io_exception >( file_not_read_exception( p, r ), { p, r } );
    caught< io_exception >( file_write_exception( p, r ), { p, r } );
    sx_reach( "io" );
    // a reader of the message can tell the conditions apart
    std::string const w[] = { said( path_not_exists( p ) ), said( path_not_a_file( p ) ), said( path_not_a_directory( p ) ) };
    sx_assert( !hx_eq( w[0], w[1] ) && !hx_eq( w[1], w[2] ) && !hx_eq( w[0], w[2] ) );
    std::string const x[] = { said( file_not_found_exception( p, r ) ), said( file_not_read_exception( p, r ) ), said( file_write_exception( p, r ) ) };
    sx_assert( !hx_eq( x[0], x[1] ) && !hx_eq( x[1], x[2] ) && !hx_eq( x[0], x[2] ) );
    break;
  }
  case 3:
  {
    std::string r = text( "reason" );
    caught< vital_core_base_exception >( math_exception(), {} );
    caught< math_exception >( non_invertible_matrix(), {} );
    caught< math_exception >( point_maps_to_infinity(), {} );
    { std::string const w[] = { said( math_exception() ), said( non_invertible_matrix() ), said( point_maps_to_infinity() ) }; sx_assert( w[0] != w[1] && w[1] != w[2] && w[0] != w[2] ); }
    invalid_matrix_operation e( r );
    sx_assert( hx_eq( e.m_reason, r ) );
    caught< math_exception >( e, { r } );
    caught< vital_core_base_exception >( invalid_value( r ), { r } );
    sx_reach( "math" );
    break;
  }
  case 4:
  {
    std::string k = text( "key" ), v = text( "value" ), n = text( "new value" );
    no_such_configuration_value_exception a( k );
    sx_assert( hx_eq( a.m_key, k ) ); caught< config_block_exception >( a, { k } );
    set_on_read_only_value_exception s( k, v, n );
    sx_assert( hx_eq( s.m_key, k ) && hx_eq( s.m_value, v ) && hx_eq( s.m_new_value, n ) ); caught< config_block_exception >( s, { k, v, n } );
    unset_on_read_only_value_exception u( k, v );
    sx_assert( hx_eq( u.m_key, k ) && hx_eq( u.m_value, v ) ); caught< config_block_exception >( u, { k, v } );
    bad_config_block_cast_exception c( k, v, "a type", n );
    sx_assert( hx_eq( c.m_key, k ) && hx_eq( c.m_value, v ) && c.m_type == "a type" && hx_eq( c.m_reason, n ) ); caught< config_block_exception >( c, { k, v, n, "a type" } );
    bad_configuration_cast_exception d( k, v, "a type", n.c_str() );
    sx_assert( hx_eq( d.m_key, k ) && hx_eq( d.m_value, v ) && d.m_type == "a type" && hx_eq( d.m_reason, n ) ); caught< config_block_exception >( d, { k, v, n, "a type" } );
    sx_reach( "config" );
    break;
  }
  default:
  {
    std::string p = text( "path" ), r = text( "reason" );
    caught< config_block_exception >( bad_config_block_cast( "x" + r ), { r } );
    caught< config_block_exception >( bad_configuration_cast( "x" + r ), { r } );
    auto same = [&]( config_block_io_exception const& e ) { sx_assert( hx_eq( e.m_file_path, p ) && hx_eq( e.m_reason, r ) ); };
    config_file_not_found_exception a( p, r ); same( a ); caught< config_block_io_exception >( a, { p, r } );
    config_file_not_read_exception b( p, r ); same( b ); caught< config_block_io_exception >( b, { p, r } );
    config_file_not_parsed_exception c( p, r ); same( c ); caught< config_block_io_exception >( c, { p, r } );
    config_file_write_exception d( p, r ); same( d ); caught< config_block_io_exception >( d, { p, r } );
    std::string const w[] = { said( a ), said( b ), said( c ), said( d ) };
    for ( int i = 0; i < 4; ++i ) for ( int j = 0; j < i; ++j ) sx_assert( !hx_eq( w[i], w[j] ) );
    caught< config_block_exception >( d, { p, r } );
    sx_reach( "plain" );
  }
  }
}
