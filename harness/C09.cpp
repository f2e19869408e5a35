// SX-SOURCES: vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: refused round description blocks empty-value
// SX-ASSUME: two entries, keys the file grammar admits (up to 2 symbolic bytes), values of up to 2 symbolic printable bytes other than '#' and '$', descriptions of up to 2 symbolic bytes
#include "cfgcheck.h"
#include <sys/stat.h>
#include <cstdio>
using namespace kwiver::vital;
static std::string key( const char* n )
{
  std::string k = hx_str( n, 1, sx_param( "key_bytes", 2, 3 ) );
  bool ok = ref::alpha( k[0] ) & ( k[k.size()-1] != ':' );
  for ( size_t i = 0; i < k.size(); ++i ) ok &= ref::wordc( k[i] );
  sx_assume( ok );
  return k;
}
void sx_main()
{
  config_block_sptr c = config_block::empty_config();
  if ( sx_bool( "can not be written" ) )
  {
    // a directory, a name too long, a directory that can not be created, nothing to write
    int why = sx_choice( "why", 4 );
    if ( why < 3 ) c->set_value( "a", "b" );
    ::mkdir( "dir", 0700 ); fclose( fopen( "plain", "w" ) );
    std::string to = why == 0 ? "dir" : why == 1 ? std::string( 300, 'f' ) : why == 2 ? "plain/sub/out.conf" : "out.conf";
    sx_assert( HX_THROWS( write_config_file( c, to ), config_file_write_exception ) );
    sx_reach( "refused" );
    return;
  }
  std::string k[2] = { key( "key" ), sx_bool( "block" ) ? "bk:x" : "zz" }, v[2], d[2];
  for ( int i = 0; i < 2; ++i )
  {
    v[i] = i ? "w" : hx_str( "value", 0, sx_param( "value_bytes", 2, 3 ) ); d[i] = i || v[0].size() > 1 ? "" : hx_str( "description", 0, sx_param( "description_bytes", 1, 2 ) );
    bool ok = true;
    for ( size_t j = 0; j < v[i].size(); ++j ) ok &= ( v[i][j] != '#' ) & ( v[i][j] != '$' ) & ( v[i][j] != '\n' ) & ( v[i][j] != 0 );
    for ( size_t j = 0; j < d[i].size(); ++j ) ok &= d[i][j] != 0;
    sx_assume( ok );
    c->set_value( k[i], v[i], d[i] );
  }
  sx_assume( ! hx_eq( k[0], k[1] ) );
  sx_assume( ! hx_eq( k[0], "include" ) );
  if ( sx_bool( "location" ) ) c->set_location( k[0], std::make_shared< std::string >( "src.conf" ), 12 );
  // the directory is created when it is not there
  std::string path = sx_bool( "new directory" ) ? "n1/n2/out.conf" : "out.conf";
  write_config_file( c, path );
  config_block_sptr b = read_config_file( path );
  sx_assert( b->available_values().size() == 2 );
  for ( int i = 0; i < 2; ++i )
  {
    sx_assert( b->has_value( k[i] ) );
    sx_assert( hx_eq( b->get_value< std::string >( k[i] ), hx_trim( v[i] ) ) );
    sx_assert( hx_eq( c->get_value< std::string >( k[i] ), hx_trim( v[i] ) ) );
    sx_assert( ! b->is_read_only( k[i] ) );
    if ( d[i].size() ) sx_reach( "description" );
    if ( b->get_value< std::string >( k[i] ).empty() ) sx_reach( "empty-value" );
    if ( k[i].find( ':' ) != std::string::npos ) sx_reach( "blocks" );
  }
  sx_reach( "round" );
}
