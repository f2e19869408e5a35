// SX-SOURCES: vital/registrar.cxx vital/algo/algorithm.cxx vital/algo/image_io.cxx vital/types/image.cxx vital/config/config_block.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: loaded load-absent load-directory saved save-absent save-not-a-directory overwrite
// SX-ASSUME: file names over the letters d, f, n, . and / (d is a directory, f a file, n does not exist)
#include "hx.h"
#include <vital/algo/image_io.h>
#include <vital/exceptions/io.h>
#include <sys/stat.h>
#include <fstream>
using namespace kwiver::vital;
static int loads, saves; static std::string named; static image_container_sptr result, given;
struct pic : image_container { size_t size() const { return 0; } size_t width() const { return 0; } size_t height() const { return 0; } size_t depth() const { return 0; } image get_image() const { return image(); } };
struct io : algo::image_io
{
  std::string impl_name() const { return "x"; } std::string description() const { return ""; } void set_configuration( config_block_sptr ) {} bool check_configuration( config_block_sptr ) const { return true; }
  std::shared_ptr< algo::image_io > clone() const { return std::shared_ptr< algo::image_io >(); } algorithm_sptr base_clone() const { return algorithm_sptr(); }
  image_container_sptr load_( std::string const& f ) const { ++loads; named = f; return result; }
  void save_( std::string const& f, image_container_sptr d ) const { ++saves; named = f; given = d; }
};
// what a path names in the scratch directory: 0 nothing, 1 a file, 2 a directory.
// d/ holds the file d/f and the directory d/d, both with nothing more than that.
static int kind_of( std::string const& p )
{
  std::vector< std::string > at; int here = 2; size_t i = 0;
  if ( p.empty() ) return 0;
  while ( i < p.size() )
  {
    size_t j = i; while ( j < p.size() && p[j] != '/' ) ++j;
    std::string w = p.substr( i, j - i );
    if ( here != 2 ) return 0; // something below a file
    if ( w == "" || w == "." ) ;
    else if ( w == ".." ) { if ( at.empty() ) return -1; at.pop_back(); }
    else if ( w == "d" && at.size() < 2 ) at.push_back( w );
    else if ( w == "f" && at.size() < 2 ) { here = 1; }
    else return 0;
    if ( here == 1 && j < p.size() ) return 0; // a file followed by a slash
    i = j + 1;
  }
  return here;
}
// the directory that holds the file of this name
// (a path through anything and back up is resolved by name alone; false: it leaves the scratch directory)
static bool above( std::string const& p, std::string& up )
{
  std::vector< std::string > at; size_t i = 0;
  while ( i < p.size() )
  {
    size_t j = i; while ( j < p.size() && p[j] != '/' ) ++j;
    std::string w = p.substr( i, j - i );
    if ( w == ".." ) { if ( at.empty() ) return false; at.pop_back(); }
    else if ( w != "" && w != "." ) at.push_back( w );
    i = j + 1;
  }
  up = "."; for ( size_t k = 0; k + 1 < at.size(); ++k ) up += "/" + at[k];
  return true;
}
void sx_main()
{
  ::mkdir( "d", 0700 ); ::mkdir( "d/d", 0700 ); std::ofstream( "f" ) << "x"; std::ofstream( "d/f" ) << "y";
  std::string p = hx_str( "path", 1, sx_param( "bytes of a path", 4, 5 ) ); { bool ok = p[0] != '/'; for ( char c : p ) ok &= hx_in( c, "dfn./" ); sx_assume( ok ); } for ( char& c : p ) c = (char)sx_concretize( (unsigned char)c );
  { static const char* through[] = { "", "n/../", "d/d/../", "f/../" }; p = through[sx_choice( "through", 4 )] + p; }
  io a; result.reset( new pic ); image_container_sptr data( new pic );
  if ( sx_choice( "saving", 2 ) )
  {
    std::string up; int k;
    // the last component decides the place only when it names one
    size_t e = p.rfind( '/' ); std::string last = e == std::string::npos ? p : p.substr( e + 1 );
    sx_assume( last != "" && last != "." && last != ".." );
    sx_assume( above( p, up ) ); k = kind_of( up );
    bool none = false, notdir = false;
    try { a.save( p, data ); }
    catch ( path_not_exists const& ) { none = true; }
    catch ( path_not_a_directory const& ) { notdir = true; }
    sx_assert( ( saves == 1 ) == ( k == 2 ) && ( saves == 0 ) == ( none | notdir ) && ! loads );
    if ( saves ) { sx_assert( named == p && given == data ); sx_reach( "saved" ); if ( kind_of( p ) == 1 ) sx_reach( "overwrite" ); }
    if ( k == 0 && up.find( 'f' ) == std::string::npos ) { sx_assert( none ); sx_reach( "save-absent" ); }
    if ( k == 1 ) { sx_assert( notdir ); sx_reach( "save-not-a-directory" ); }
  }
  else
  {
    int k = kind_of( p ); sx_assume( k >= 0 ); bool none = false, dir = false; image_container_sptr r;
    try { r = a.load( p ); }
    catch ( path_not_exists const& ) { none = true; }
    catch ( path_not_a_file const& ) { dir = true; }
    sx_assert( none == ( k == 0 ) && dir == ( k == 2 ) && loads == ( k == 1 ) && ! saves );
    if ( k == 1 ) { sx_assert( r == result && named == p ); sx_reach( "loaded" ); } else k ? sx_reach( "load-directory" ) : sx_reach( "load-absent" );
  }
}
