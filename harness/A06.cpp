// SX-SOURCES: vital/algo/*.cxx vital/registrar.cxx vital/types/*.cxx vital/config/config_block.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: alone two unknown set kept checked listed
#include "hx.h"
#include <vital/algo/analyze_tracks.h>
#include <vital/algo/bundle_adjust.h>
#include <vital/algo/close_loops.h>
#include <vital/algo/compute_ref_homography.h>
#include <vital/algo/convert_image.h>
#include <vital/algo/detect_features.h>
#include <vital/algo/draw_tracks.h>
#include <vital/algo/estimate_essential_matrix.h>
#include <vital/algo/estimate_fundamental_matrix.h>
#include <vital/algo/estimate_homography.h>
#include <vital/algo/estimate_similarity_transform.h>
#include <vital/algo/extract_descriptors.h>
#include <vital/algo/filter_features.h>
#include <vital/algo/geo_map.h>
#include <vital/algo/image_io.h>
#include <vital/algo/initialize_cameras_landmarks.h>
#include <vital/algo/match_features.h>
#include <vital/algo/optimize_cameras.h>
#include <vital/algo/track_features.h>
#include <vital/algo/triangulate_landmarks.h>
#include <vital/registrar.h>
#include <functional>
using namespace kwiver::vital;
// an implementation of every kind of algorithm; its name, a number, and what it was configured with
template < class K, class D > struct impl : K
{
  std::string name; int tag; std::string got;
  impl( std::string const& n, int t ) : name( n ), tag( t ) {}
  std::string impl_name() const { return name; }
  std::string description() const { return "about " + name; }
  std::shared_ptr< K > clone() const { return std::make_shared< D >( static_cast< D const& >( *this ) ); }
  algorithm_sptr base_clone() const { return clone(); }
  config_block_sptr get_configuration() const { config_block_sptr c = algorithm::get_configuration(); c->set_value( "tag", tag ); return c; }
  void set_configuration( config_block_sptr c ) { got = c->get_value< std::string >( "tag", "none" ); }
  bool check_configuration( config_block_sptr c ) const { return c->get_value< std::string >( "tag", "none" ) != "bad"; }
};
struct my_analyze_tracks : impl< algo::analyze_tracks, my_analyze_tracks > { my_analyze_tracks( std::string const& n, int t ) : impl( n, t ) {} void print_info( track_set_sptr, stream_t& ) const {} };
struct my_bundle_adjust : impl< algo::bundle_adjust, my_bundle_adjust > { my_bundle_adjust( std::string const& n, int t ) : impl( n, t ) {} void optimize( camera_map_sptr&, landmark_map_sptr&, track_set_sptr ) const {} };
struct my_close_loops : impl< algo::close_loops, my_close_loops > { my_close_loops( std::string const& n, int t ) : impl( n, t ) {} track_set_sptr stitch( frame_id_t, track_set_sptr t, image_container_sptr, image_container_sptr ) const { return t; } };
struct my_compute_ref_homography : impl< algo::compute_ref_homography, my_compute_ref_homography > { my_compute_ref_homography( std::string const& n, int t ) : impl( n, t ) {} f2f_homography_sptr estimate( frame_id_t, track_set_sptr ) const { return f2f_homography_sptr(); } };
struct my_convert_image : impl< algo::convert_image, my_convert_image > { my_convert_image( std::string const& n, int t ) : impl( n, t ) {} image_container_sptr convert( image_container_sptr i ) const { return i; } };
struct my_detect_features : impl< algo::detect_features, my_detect_features > { my_detect_features( std::string const& n, int t ) : impl( n, t ) {} feature_set_sptr detect( image_container_sptr, image_container_sptr ) const { return feature_set_sptr(); } };
struct my_draw_tracks : impl< algo::draw_tracks, my_draw_tracks > { my_draw_tracks( std::string const& n, int t ) : impl( n, t ) {} image_container_sptr draw( track_set_sptr, image_container_sptr_list, track_set_sptr ) { return image_container_sptr(); } };
struct my_estimate_essential_matrix : impl< algo::estimate_essential_matrix, my_estimate_essential_matrix > { my_estimate_essential_matrix( std::string const& n, int t ) : impl( n, t ) {} essential_matrix_sptr estimate( std::vector< vector_2d > const&, std::vector< vector_2d > const&, camera_intrinsics_sptr const, camera_intrinsics_sptr const, std::vector< bool >&, double ) const { return essential_matrix_sptr(); } };
struct my_estimate_fundamental_matrix : impl< algo::estimate_fundamental_matrix, my_estimate_fundamental_matrix > { my_estimate_fundamental_matrix( std::string const& n, int t ) : impl( n, t ) {} fundamental_matrix_sptr estimate( std::vector< vector_2d > const&, std::vector< vector_2d > const&, std::vector< bool >&, double ) const { return fundamental_matrix_sptr(); } };
struct my_estimate_homography : impl< algo::estimate_homography, my_estimate_homography > { my_estimate_homography( std::string const& n, int t ) : impl( n, t ) {} homography_sptr estimate( std::vector< vector_2d > const&, std::vector< vector_2d > const&, std::vector< bool >&, double ) const { return homography_sptr(); } };
struct my_estimate_similarity_transform : impl< algo::estimate_similarity_transform, my_estimate_similarity_transform > { my_estimate_similarity_transform( std::string const& n, int t ) : impl( n, t ) {} similarity_d estimate_transform( std::vector< vector_3d > const&, std::vector< vector_3d > const& ) const { return similarity_d(); } };
struct my_extract_descriptors : impl< algo::extract_descriptors, my_extract_descriptors > { my_extract_descriptors( std::string const& n, int t ) : impl( n, t ) {} descriptor_set_sptr extract( image_container_sptr, feature_set_sptr, image_container_sptr ) const { return descriptor_set_sptr(); } };
struct my_filter_features : impl< algo::filter_features, my_filter_features > { my_filter_features( std::string const& n, int t ) : impl( n, t ) {} feature_set_sptr filter( feature_set_sptr f, std::vector< unsigned >& ) const { return f; } };
struct my_geo_map : impl< algo::geo_map, my_geo_map > { my_geo_map( std::string const& n, int t ) : impl( n, t ) {} void utm_to_latlon( double, double, int, bool, double&, double& ) const {} void latlon_to_utm( double, double, double&, double&, int&, bool&, int ) const {} };
struct my_image_io : impl< algo::image_io, my_image_io > { my_image_io( std::string const& n, int t ) : impl( n, t ) {} image_container_sptr load_( std::string const& ) const { return image_container_sptr(); } void save_( std::string const&, image_container_sptr ) const {} };
struct my_initialize_cameras_landmarks : impl< algo::initialize_cameras_landmarks, my_initialize_cameras_landmarks > { my_initialize_cameras_landmarks( std::string const& n, int t ) : impl( n, t ) {} void initialize( camera_map_sptr&, landmark_map_sptr&, track_set_sptr ) const {} };
struct my_match_features : impl< algo::match_features, my_match_features > { my_match_features( std::string const& n, int t ) : impl( n, t ) {} match_set_sptr match( feature_set_sptr, descriptor_set_sptr, feature_set_sptr, descriptor_set_sptr ) const { return match_set_sptr(); } };
struct my_optimize_cameras : impl< algo::optimize_cameras, my_optimize_cameras > { my_optimize_cameras( std::string const& n, int t ) : impl( n, t ) {} void optimize( camera_sptr&, std::vector< feature_sptr > const&, std::vector< landmark_sptr > const& ) const {} };
struct my_track_features : impl< algo::track_features, my_track_features > { my_track_features( std::string const& n, int t ) : impl( n, t ) {} track_set_sptr track( track_set_sptr t, unsigned, image_container_sptr, image_container_sptr ) const { return t; } };
struct my_triangulate_landmarks : impl< algo::triangulate_landmarks, my_triangulate_landmarks > { my_triangulate_landmarks( std::string const& n, int t ) : impl( n, t ) {} void triangulate( camera_map_sptr, track_set_sptr, landmark_map_sptr& ) const {} };
struct kind
{
  std::string name, typed;
  std::function< algorithm_sptr( std::string const&, int ) > make;
  std::function< bool( algorithm_sptr ) > enlist, is;
  std::function< int( algorithm_sptr ) > tag;
  std::function< std::string( algorithm_sptr ) > got;
  std::function< algorithm_sptr( std::string const& ) > create;
  std::function< std::vector< std::string >() > names;
  std::function< bool( std::string const& ) > has;
  std::function< config_block_sptr() > configs;
  std::function< void( std::string const&, config_block_sptr, algorithm_sptr ) > get;
  std::function< algorithm_sptr( std::string const&, config_block_sptr, algorithm_sptr ) > set;
  std::function< bool( std::string const&, config_block_sptr ) > check;
};
template < class K, class D > static kind of( const char* n )
{
  kind k;
  k.name = n; k.typed = K::static_type_name();
  k.make = []( std::string const& i, int t ) -> algorithm_sptr { return std::make_shared< D >( i, t ); };
  k.enlist = []( algorithm_sptr a ) { return K::register_instance( registrar::instance(), std::dynamic_pointer_cast< K >( a ) ); };
  k.is = []( algorithm_sptr a ) { return !! std::dynamic_pointer_cast< K >( a ); };
  k.tag = []( algorithm_sptr a ) { return std::dynamic_pointer_cast< D >( a )->tag; };
  k.got = []( algorithm_sptr a ) { return std::dynamic_pointer_cast< D >( a )->got; };
  k.create = []( std::string const& i ) -> algorithm_sptr { return K::create( i ); };
  k.names = []() { return K::registered_names(); };
  k.has = []( std::string const& i ) { return K::has_impl_name( i ); };
  k.configs = []() { return K::get_impl_configurations(); };
  k.get = []( std::string const& s, config_block_sptr c, algorithm_sptr a ) { K::get_nested_algo_configuration( s, c, std::dynamic_pointer_cast< K >( a ) ); };
  k.set = []( std::string const& s, config_block_sptr c, algorithm_sptr a ) -> algorithm_sptr { std::shared_ptr< K > p = std::dynamic_pointer_cast< K >( a ); K::set_nested_algo_configuration( s, c, p ); return p; };
  k.check = []( std::string const& s, config_block_sptr c ) { return K::check_nested_algo_configuration( s, c ); };
  return k;
}
static std::vector< kind > all()
{
  std::vector< kind > r;
  r.push_back( of< algo::analyze_tracks, my_analyze_tracks >( "analyze_tracks" ) );
  r.push_back( of< algo::bundle_adjust, my_bundle_adjust >( "bundle_adjust" ) );
  r.push_back( of< algo::close_loops, my_close_loops >( "close_loops" ) );
  r.push_back( of< algo::compute_ref_homography, my_compute_ref_homography >( "compute_ref_homography" ) );
  r.push_back( of< algo::convert_image, my_convert_image >( "convert_image" ) );
  r.push_back( of< algo::detect_features, my_detect_features >( "detect_features" ) );
  r.push_back( of< algo::draw_tracks, my_draw_tracks >( "draw_tracks" ) );
  r.push_back( of< algo::estimate_essential_matrix, my_estimate_essential_matrix >( "estimate_essential_matrix" ) );
  r.push_back( of< algo::estimate_fundamental_matrix, my_estimate_fundamental_matrix >( "estimate_fundamental_matrix" ) );
  r.push_back( of< algo::estimate_homography, my_estimate_homography >( "estimate_homography" ) );
  r.push_back( of< algo::estimate_similarity_transform, my_estimate_similarity_transform >( "estimate_similarity_transform" ) );
  r.push_back( of< algo::extract_descriptors, my_extract_descriptors >( "extract_descriptors" ) );
  r.push_back( of< algo::filter_features, my_filter_features >( "filter_features" ) );
  r.push_back( of< algo::geo_map, my_geo_map >( "geo_map" ) );
  r.push_back( of< algo::image_io, my_image_io >( "image_io" ) );
  r.push_back( of< algo::initialize_cameras_landmarks, my_initialize_cameras_landmarks >( "initialize_cameras_landmarks" ) );
  r.push_back( of< algo::match_features, my_match_features >( "match_features" ) );
  r.push_back( of< algo::optimize_cameras, my_optimize_cameras >( "optimize_cameras" ) );
  r.push_back( of< algo::track_features, my_track_features >( "track_features" ) );
  r.push_back( of< algo::triangulate_landmarks, my_triangulate_landmarks >( "triangulate_landmarks" ) );
  return r;
}
static std::string word( const char* n )
{
  std::string s = hx_str( n, 1, sx_param( "bytes of a name", 1, 2 ) );
  bool ok = true;
  for ( char c : s ) ok &= ( c > ' ' ) & ( c != ':' ) & ( c != 127 );
  sx_assume( ok );
  return s;
}
static bool eq( std::vector< std::string > const& a, std::vector< std::string > const& b )
{
  if ( a.size() != b.size() ) return false;
  bool r = true;
  for ( size_t i = 0; i < a.size(); ++i ) r &= hx_eq( a[i], b[i] );
  return r;
}
void sx_main()
{
  std::vector< kind > ks = all();
  for ( kind const& k : ks ) sx_assert( k.typed == k.name );
  kind const& k = ks[ sx_choice( "kind", (int)ks.size() ) ];
  // one of this kind; with it, one of the next kind under the same name
  std::string w = word( "implementation" ), q = word( "asked" );
  int t = (int)sx_range( "tag", 0, 9 );
  algorithm_sptr a = k.make( w, t );
  sx_assert( a->type_name() == k.name );
  sx_assert( k.names().empty() && ! algorithm::has_type_name( k.name ) && ! k.create( w ) );
  sx_assert( k.enlist( a ) );
  bool both = sx_bool( "both" );
  kind const& o = ks[ ( &k - &ks[0] + 1 ) % ks.size() ];
  if ( both ) { sx_assert( o.enlist( o.make( w, 77 ) ) ); sx_reach( "two" ); } else sx_reach( "alone" );
  sx_assert( eq( k.names(), { w } ) && k.has( w ) && eq( algorithm::registered_names( k.name ), { w } ) );
  for ( kind const& e : ks )
  {
    bool in = e.name == k.name || ( both && e.name == o.name );
    sx_assert( algorithm::has_type_name( e.name ) == in && e.names().size() == (size_t)in && e.has( w ) == in && algorithm::has_impl_name( e.name, w ) == in );
  }
  bool hit = hx_eq( q, w );
  algorithm_sptr c[2]; c[0] = k.create( q );
  c[1] = algorithm::create( k.name, q );
  if ( ! hit ) { sx_assert( ! c[1] ); sx_reach( "unknown" ); }
  sx_assert( !! c[0] == hit && k.has( q ) == hit );
  if ( hit ) for ( int i = 0; i < 2; ++i ) sx_assert( c[i] && c[i] != a && k.is( c[i] ) && k.tag( c[i] ) == t && hx_eq( c[i]->impl_name(), w ) && ( o.name == k.name || ! o.is( c[i] ) ) );
  switch ( sx_choice( "what", 4 ) )
  {
  case 0:
  {
    config_block_sptr b = k.configs();
    std::string key = w + ":tag";
    sx_assert( b->available_values().size() == 1 && b->has_value( key ) && b->get_value< int >( key ) == t );
    sx_reach( "listed" );
    break;
  }
  case 1:
  {
    config_block_sptr b = config_block::empty_config();
    k.get( "nest", b, a );
    sx_assert( b->available_values().size() == 2 && hx_eq( b->get_value< std::string >( "nest:type" ), w ) && b->get_value< int >( "nest:" + w + ":tag" ) == t );
    sx_reach( "kept" );
    break;
  }
  case 2:
  {
    config_block_sptr b = config_block::empty_config();
    b->set_value( "nest:type", q ); b->set_value( "nest:" + q + ":tag", "mine" );
    algorithm_sptr s = k.set( "nest", b, algorithm_sptr() );
    sx_assert( !! s == hit );
    if ( s ) { sx_assert( k.is( s ) && k.tag( s ) == t && k.got( s ) == "mine" && s != a && k.got( a ).empty() ); sx_reach( "set" ); }
    break;
  }
  default:
  {
    config_block_sptr b = config_block::empty_config();
    bool good = sx_bool( "good" );
    b->set_value( "nest:type", q ); b->set_value( "nest:" + q + ":tag", good ? "fine" : "bad" );
    sx_assert( k.check( "nest", b ) == ( hit && good ) );
    sx_reach( "checked" );
  }
  }
}
