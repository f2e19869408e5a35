// SX-SOURCES: vital/types/feature.cxx vital/types/landmark.cxx vital/types/camera.cxx vital/types/camera_intrinsics.cxx vital/types/rotation.cxx vital/types/similarity.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp
// SX-REACH: matches features descriptors cameras landmarks
#include "hx.h"
#include <vital/types/match_set.h>
#include <vital/types/feature.h>
#include <vital/types/feature_set.h>
#include <vital/types/descriptor_set.h>
#include <vital/types/camera_map.h>
#include <vital/types/landmark_map.h>
using namespace kwiver::vital;
void sx_main()
{
  int n = sx_choice( "count", sx_param( "elements", 4, 6 ) );
  switch ( sx_choice( "what", 5 ) )
  {
  case 0:
  {
    std::vector< match > v; for ( int i = 0; i < n; ++i ) { unsigned a = sx_var( "a", 32 ), b = sx_var( "b", 32 ); v.push_back( match( a, b ) ); }
    simple_match_set s( v ), none; std::vector< match > keep = v; if ( n ) v[0].first += 1; v.push_back( match( 1, 2 ) );
    sx_assert( (int)s.size() == n && none.size() == 0 && none.matches().empty() );
    std::vector< match > r = s.matches(); sx_assert( (int)r.size() == n );
    for ( int i = 0; i < n; ++i ) sx_assert( r[i].first == keep[i].first && r[i].second == keep[i].second );
    if ( n ) { r[0].second += 1; sx_assert( s.matches()[0].second == keep[0].second ); }
    sx_reach( "matches" );
    break;
  }
  case 1:
  {
    std::vector< feature_sptr > v; for ( int i = 0; i < n; ++i ) v.push_back( feature_sptr( new feature_d( vector_2d( sx_idouble( "x", 0, 9 ), i ) ) ) );
    std::vector< feature_sptr > keep = v; simple_feature_set s( v ), none; v.clear();
    sx_assert( (int)s.size() == n && none.size() == 0 && none.features().empty() );
    std::vector< feature_sptr > r = s.features(); sx_assert( r == keep );
    sx_reach( "features" );
    break;
  }
  case 2:
  {
    std::vector< descriptor_sptr > v; for ( int i = 0; i < n; ++i ) v.push_back( descriptor_sptr( new descriptor_dynamic< int >( i ) ) );
    std::vector< descriptor_sptr > keep = v; simple_descriptor_set s( v ), none; v.clear();
    sx_assert( (int)s.size() == n && none.size() == 0 && none.descriptors().empty() );
    sx_assert( s.descriptors() == keep );
    sx_reach( "descriptors" );
    break;
  }
  case 3:
  {
    camera_map::map_camera_t m; frame_id_t id[6]; camera_sptr c[6];
    int distinct = 0;
    for ( int i = 0; i < n && i < 4; ++i ) { id[i] = (frame_id_t)sx_var( "id", 64 ); c[i].reset( new simple_camera() ); bool known = m.count( id[i] ) != 0; m[id[i]] = c[i]; distinct += ! known; }
    simple_camera_map s( m ), none; m.clear();
    sx_assert( (int)s.size() == distinct && none.size() == 0 && none.cameras().empty() );
    camera_map::map_camera_t r = s.cameras(); sx_assert( (int)r.size() == distinct );
    for ( int i = 0; i < n && i < 4; ++i ) { int last = i; for ( int j = i + 1; j < n && j < 4; ++j ) if ( id[j] == id[i] ) last = j; sx_assert( r.count( id[i] ) == 1 && r[id[i]] == c[last] ); }
    sx_reach( "cameras" );
    break;
  }
  case 4:
  {
    landmark_map::map_landmark_t m; landmark_id_t id[6]; landmark_sptr c[6];
    int distinct = 0;
    for ( int i = 0; i < n && i < 4; ++i ) { id[i] = (landmark_id_t)sx_var( "id", 64 ); c[i].reset( new landmark_d( vector_3d( i, i, i ) ) ); bool known = m.count( id[i] ) != 0; m[id[i]] = c[i]; distinct += ! known; }
    simple_landmark_map s( m ), none; m.clear();
    sx_assert( (int)s.size() == distinct && none.size() == 0 && none.landmarks().empty() );
    landmark_map::map_landmark_t r = s.landmarks(); sx_assert( (int)r.size() == distinct );
    for ( int i = 0; i < n && i < 4; ++i ) { int last = i; for ( int j = i + 1; j < n && j < 4; ++j ) if ( id[j] == id[i] ) last = j; sx_assert( r.count( id[i] ) == 1 && r[id[i]] == c[last] ); }
    sx_reach( "landmarks" );
    break;
  }
  }
}
