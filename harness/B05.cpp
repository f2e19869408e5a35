// SX-SOURCES: vital/bindings/c/*.cxx vital/bindings/c/helpers/*.cxx vital/bindings/c/algo_def/*.cxx vital/registrar.cxx vital/algo/algorithm.cxx vital/algo/image_io.cxx vital/algo/convert_image.cxx vital/algo/track_features.cxx vital/types/*.cxx vital/io/camera_io.cxx vital/io/camera_map_io.cxx vital/io/track_set_io.cxx vital/io/io_mapping.cxx vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx vital/bindings/c/algorithm_plugin_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: names unknown wrong-kind clone impl-config accepted refused replaced kept generic load absent save convert track masked nothing
#include "hx.h"
#include <vital/bindings/c/algo_def/image_io.h>
#include <vital/bindings/c/algo_def/convert_image.h>
#include <vital/bindings/c/algo_def/track_features.h>
#include <vital/bindings/c/image_container.hxx>
#include <vital/bindings/c/track_set.h>
#include <vital/algo/image_io.h>
#include <vital/algo/convert_image.h>
#include <vital/algo/track_features.h>
#include <vital/registrar.h>
#include <sys/stat.h>
#include <fstream>
#include <map>
using namespace kwiver::vital;
// what the implementations were last asked to do, and what they answer
static int living; static std::string last_file; static image_container_sptr last_image, last_mask, result_image; static track_set_sptr last_tracks, result_tracks; static unsigned last_frame; static bool accept_config = true;
struct core { std::string impl, value; explicit core( std::string const& i ) : impl( i ), value( "dflt" ) { ++living; } core( core const& o ) : impl( o.impl ), value( o.value ) { ++living; } ~core() { --living; } };
struct io : algorithm_impl< io, algo::image_io > { core c; explicit io( std::string const& i ) : c( i ) {} std::string impl_name() const { return c.impl; }
  config_block_sptr get_configuration() const { config_block_sptr b = algorithm::get_configuration(); b->set_value( "value", c.value, "about" ); return b; }
  void set_configuration( config_block_sptr b ) { c.value = b->get_value< std::string >( "value", "none" ); }
  bool check_configuration( config_block_sptr b ) const { return accept_config && b->get_value< std::string >( "value", "" ) != "bad"; }
  image_container_sptr load_( std::string const& f ) const { last_file = f; return result_image; } void save_( std::string const& f, image_container_sptr i ) const { last_file = f; last_image = i; } };
struct conv : algorithm_impl< conv, algo::convert_image > { std::string impl_name() const { return "CV"; } image_container_sptr convert( image_container_sptr i ) const { last_image = i; return result_image; } };
struct trk : algorithm_impl< trk, algo::track_features > { std::string impl_name() const { return "tr"; } void set_configuration( config_block_sptr ) {} bool check_configuration( config_block_sptr ) const { return true; }
  track_set_sptr track( track_set_sptr t, unsigned f, image_container_sptr i, image_container_sptr m = image_container_sptr() ) const { last_tracks = t; last_frame = f; last_image = i; last_mask = m; return result_tracks; } };
static std::string take( vital_string_t* s ) { sx_assert( s && s->str[s->length] == 0 ); std::string r( s->str, s->length ); vital_string_free( s ); return r; }
static std::string value_of( vital_algorithm_t* a )
{
  vital_error_handle_t* e = vital_eh_new(); vital_config_block_t* b = vital_algorithm_get_impl_configuration( a, e ); sx_assert( b && ! e->error_code );
  std::string r = take( vital_config_block_get_value( b, "value" ) ); sx_assert( take( vital_config_block_get_description( b, "value" ) ) == "about" ); vital_config_block_destroy( b, e ); sx_assert( ! e->error_code ); vital_eh_destroy( e ); return r;
}
static bool dead( vital_algorithm_t* a )
{
  vital_error_handle_t* e = vital_eh_new(); vital_string_t* s = vital_algorithm_impl_name( a, e ); sx_assert( !! s == ! e->error_code ); if ( s ) vital_string_free( s ); bool r = e->error_code == -1; sx_assert( r == !! e->message );
  vital_eh_destroy( e ); e = vital_eh_new(); vital_algorithm_t* c = vital_algorithm_image_io_clone( a, e ); sx_assert( !! c == ! r && ( e->error_code == -1 ) == r ); vital_algorithm_image_io_destroy( c, 0 ); vital_eh_destroy( e ); return r;
}
static void lifetime( std::string const& q, bool known )
{
  unsigned n = 0; char** l = 0; vital_algorithm_image_io_registered_names( &n, &l ); std::vector< std::string > w = algo::image_io::registered_names(); sx_assert( n == w.size() && n == 2 ); for ( unsigned i = 0; i < n; ++i ) sx_assert( hx_eq( l[i], w[i] ) ); vital_common_free_string_list( n, l ); sx_reach( "names" );
  int before = living; vital_algorithm_t* a = vital_algorithm_image_io_create( q.c_str() ); sx_assert( !! a == known && ! vital_algorithm_image_io_create( 0 ) && ! vital_algorithm_convert_image_create( q.c_str() ) );
  if ( ! a ) { sx_assert( living == before ); sx_reach( "unknown" ); return; }
  vital_error_handle_t* e = vital_eh_new();
  sx_assert( hx_eq( take( vital_algorithm_impl_name( a, e ) ), q ) && take( vital_algorithm_type_name( a, e ) ) == "image_io" && ! e->error_code );
  vital_algorithm_t* b = sx_bool( "clone" ) ? vital_algorithm_image_io_clone( a, e ) : vital_algorithm_image_io_create( q.c_str() ); sx_assert( b && b != a && ! e->error_code && living == before + 2 );
  sx_assert( hx_eq( take( vital_algorithm_impl_name( b, 0 ) ), q ) ); sx_assert( ! vital_algorithm_image_io_clone( 0, 0 ) );
  std::string v = hx_strr( "value", 1, 2, '!', '~' ); vital_config_block_t* c = vital_config_block_new(); vital_config_block_set_value( c, "value", v.c_str() );
  vital_algorithm_set_impl_configuration( a, c, e ); sx_assert( ! e->error_code && hx_eq( value_of( a ), v ) && value_of( b ) == "dflt" );
  vital_algorithm_t* d = vital_algorithm_image_io_clone( a, e ); sx_assert( hx_eq( value_of( d ), v ) ); vital_config_block_set_value( c, "value", "0" ); vital_algorithm_set_impl_configuration( d, c, e ); sx_assert( hx_eq( value_of( a ), v ) && value_of( d ) == "0" ); sx_reach( "clone" );
  accept_config = sx_bool( "accept" ); if ( sx_bool( "bad" ) ) vital_config_block_set_value( c, "value", "bad" );
  bool want = accept_config && take( vital_config_block_get_value( c, "value" ) ) != "bad"; sx_assert( vital_algorithm_check_impl_configuration( a, c, e ) == want && ! e->error_code ); sx_reach( want ? "accepted" : "refused" ); sx_reach( "impl-config" );
  // handles of another kind are no good
  vital_algorithm_t* x = vital_algorithm_convert_image_create( "CV" ); sx_assert( x && take( vital_algorithm_type_name( x, 0 ) ) == "convert_image" ); sx_assert( ! vital_algorithm_image_io_clone( x, e ) && e->error_code == -1 ); vital_eh_destroy( e ); e = vital_eh_new(); sx_assert( ! vital_algorithm_convert_image_clone( a, e ) && e->error_code == -1 ); sx_reach( "wrong-kind" );
  vital_eh_destroy( e ); e = vital_eh_new(); vital_algorithm_convert_image_destroy( x, e ); sx_assert( ! e->error_code && ! vital_algorithm_type_name( x, 0 ) );
  // each goes on its own
  vital_algorithm_t* all[3] = { a, b, d }; int k = sx_choice( "first", 3 ); vital_algorithm_image_io_destroy( all[k], e ); sx_assert( ! e->error_code && dead( all[k] ) ); for ( int i = 0; i < 3; ++i ) if ( i != k ) sx_assert( ! dead( all[i] ) ); sx_assert( living == before + 2 );
  for ( int i = 0; i < 3; ++i ) if ( i != k ) vital_algorithm_image_io_destroy( all[i], e ); sx_assert( ! e->error_code && living == before );
  sx_assert( ! vital_algorithm_get_impl_configuration( a, e ) && e->error_code == -1 ); sx_assert( ! vital_algorithm_check_impl_configuration( a, c, 0 ) ); vital_algorithm_set_impl_configuration( a, c, 0 );
  vital_eh_destroy( e ); vital_config_block_destroy( c, 0 );
}
static void nested( std::string const& q, bool known )
{
  int before = living; vital_error_handle_t* e = vital_eh_new(); vital_config_block_t* c = vital_config_block_new(); config_block_sptr b = config_block::empty_config();
  bool given = sx_bool( "given one" ); vital_algorithm_t* a = given ? vital_algorithm_image_io_create( "x" ) : 0, *o = a;
  vital_config_block_t* g = vital_config_block_new(); config_block_sptr w = config_block::empty_config();
  vital_algorithm_image_io_get_type_config( "al", a, g, e ); sx_assert( ! e->error_code ); algo::image_io::get_nested_algo_configuration( "al", w, given ? algo::image_io::create( "x" ) : algo::image_io_sptr() );
  unsigned n; char** l; vital_config_block_available_values( g, &n, &l ); std::vector< std::string > keys = w->available_values(); sx_assert( n == keys.size() );
  for ( unsigned i = 0; i < n; ++i ) { sx_assert( hx_eq( l[i], keys[i] ) && hx_eq( take( vital_config_block_get_value( g, l[i] ) ), w->get_value< std::string >( keys[i] ) ) && hx_eq( take( vital_config_block_get_description( g, l[i] ) ), w->get_description( keys[i] ) ) ); } vital_common_free_string_list( n, l ); if ( ! given ) sx_reach( "generic" );
  bool typed = sx_bool( "type given" ); std::string v = hx_strr( "value", 2, 3, 'a', 'e' );
  if ( typed ) { vital_config_block_set_value( c, "al:type", q.c_str() ); b->set_value( "al:type", q ); vital_config_block_set_value( c, ( "al:" + q + ":value" ).c_str(), v.c_str() ); b->set_value( "al:" + q + ":value", v ); }
  bool ok = vital_algorithm_image_io_check_type_config( "al", c, e ); sx_assert( ok == algo::image_io::check_nested_algo_configuration( "al", b ) && ! e->error_code ); sx_assert( ok == ( typed && known && ! hx_eq( v, "bad" ) ) ); 
  vital_algorithm_image_io_set_type_config( "al", c, &a, e ); sx_assert( ! e->error_code );
  if ( typed && known )
  {
    sx_assert( a && hx_eq( take( vital_algorithm_impl_name( a, 0 ) ), q ) && hx_eq( value_of( a ), v ) && living == before + 1 ); if ( given && a != o ) { sx_assert( dead( o ) ); sx_reach( "replaced" ); }
    vital_algorithm_image_io_destroy( a, e ); sx_assert( ! e->error_code && living == before );
  }
  else { sx_assert( a == o && living == before + given ); if ( given ) { sx_assert( ! dead( o ) && value_of( o ) == "dflt" ); sx_reach( "kept" ); } vital_algorithm_image_io_destroy( a, 0 ); }
  vital_eh_destroy( e ); e = vital_eh_new(); sx_assert( ! vital_algorithm_image_io_check_type_config( "al", 0, e ) && e->error_code == -1 ); vital_eh_destroy( e ); vital_config_block_destroy( c, 0 ); vital_config_block_destroy( g, 0 );
}
static image_container_sptr picture( unsigned n ) { return std::make_shared< simple_image_container >( image( n, 1 ) ); }
static void running()
{
  vital_error_handle_t* e = vital_eh_new(); image_container_sptr in = picture( 2 ), mask = picture( 3 ); vital_image_container_t* ci = vital_image_container_from_sptr( in ), *cm = vital_image_container_from_sptr( mask );
  bool nothing = sx_bool( "no result" ); if ( ! nothing ) { result_image = sx_bool( "same object" ) ? in : picture( 4 ); result_tracks = std::make_shared< simple_track_set >(); }
  vital_algorithm_t* i = vital_algorithm_image_io_create( "x" ), *c = vital_algorithm_convert_image_create( "CV" ), *t = vital_algorithm_track_features_create( "tr" ); sx_assert( i && c && t );
  int what = sx_choice( "call", 5 ); vital_image_container_t* r = 0; bool image_result = true;
  switch ( what )
  {
  case 0: { std::ofstream( "pic" ) << "x"; r = vital_algorithm_image_io_load( i, "pic", e ); sx_assert( last_file == "pic" ); sx_reach( "load" ); break; }
  case 1: { mkdir( "dir", 0700 ); r = vital_algorithm_image_io_load( i, sx_bool( "directory" ) ? "dir" : "gone", e ); sx_assert( ! r && e->error_code == -1 && last_file.empty() ); vital_eh_destroy( e ); e = vital_eh_new(); vital_algorithm_image_io_save( i, "gone/pic", ci, e ); sx_assert( e->error_code == -1 && ! last_image ); sx_reach( "absent" ); return; }
  case 2: vital_algorithm_image_io_save( i, "new", ci, e ); sx_assert( ! e->error_code && last_file == "new" && last_image == in ); vital_algorithm_image_io_save( i, "new", 0, e ); sx_assert( e->error_code == -1 ); sx_reach( "save" ); return;
  case 3: r = vital_algorithm_convert_image_convert( c, ci, e ); sx_assert( last_image == in ); sx_reach( "convert" ); break;
  case 4:
  {
    image_result = false; track_set_sptr prev = std::make_shared< simple_track_set >(); vital_trackset_t* p = vital_trackset_from_sptr( &prev ); unsigned f = sx_var( "frame", 32 ); bool m = sx_bool( "mask" );
    vital_trackset_t* s = m ? vital_algorithm_track_features_track_with_mask( t, p, f, ci, cm, e ) : vital_algorithm_track_features_track( t, p, f, ci, e );
    sx_assert( last_tracks == prev && last_frame == f && last_image == in && last_mask == ( m ? mask : image_container_sptr() ) ); if ( m ) sx_reach( "masked" ); sx_reach( "track" );
    sx_assert( nothing ? ! s && e->error_code == -1 : s == (vital_trackset_t*)result_tracks.get() && ! e->error_code ); vital_trackset_destroy( s, 0 ); if ( ! nothing ) sx_assert( vital_trackset_size( s, e ) == 0 && e->error_code == -1 );
    sx_assert( ! vital_algorithm_track_features_track( t, 0, f, ci, 0 ) && ! vital_algorithm_track_features_track( c, p, f, ci, 0 ) && ! vital_algorithm_track_features_track_with_mask( t, p, f, ci, 0, 0 ) ); break;
  }
  }
  if ( image_result )
  {
    sx_assert( nothing ? ! r && e->error_code == -1 : r && ! e->error_code && vital_image_container_to_sptr( r ) == result_image );
    if ( r ) { bool mine = result_image == in; vital_image_container_destroy( r, 0 ); sx_assert( !! vital_image_container_to_sptr( r ) == mine ); }
  }
  if ( nothing ) sx_reach( "nothing" );
  vital_eh_destroy( e );
}
void sx_main()
{
  std::string other = hx_strr( "registered", 1, 2, 'a', 'y' ); sx_assume( ! hx_eq( other, "x" ) ); for ( size_t i = 0; i < other.size(); ++i ) other[i] = other[i];
  algo::image_io::register_instance( registrar::instance(), std::make_shared< io >( "x" ) ); algo::image_io::register_instance( registrar::instance(), std::make_shared< io >( other ) );
  algo::convert_image::register_instance( registrar::instance(), std::make_shared< conv >() ); algo::track_features::register_instance( registrar::instance(), std::make_shared< trk >() );
  int what = sx_choice( "what", 3 ); if ( what == 2 ) { running(); return; }
  std::string q = hx_strr( "query", 1, 2, 'a', 'y' ); bool known = hx_eq( q, "x" ) || hx_eq( q, other );
  if ( what ) nested( q, known ); else lifetime( q, known );
}
