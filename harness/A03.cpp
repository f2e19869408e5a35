// SX-SOURCES: vital/registrar.cxx vital/algo/algorithm.cxx vital/algo/estimate_similarity_transform.cxx vital/algo/estimate_homography.cxx vital/algo/estimate_essential_matrix.cxx vital/algo/estimate_fundamental_matrix.cxx vital/algo/optimize_cameras.cxx vital/algo/filter_features.cxx vital/types/camera.cxx vital/types/camera_intrinsics.cxx vital/types/rotation.cxx vital/types/similarity.cxx vital/types/feature.cxx vital/types/landmark.cxx vital/types/track.cxx vital/types/track_set.cxx vital/types/homography.cxx vital/types/essential_matrix.cxx vital/types/fundamental_matrix.cxx vital/config/config_block.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp
// SX-REACH: lists maps-shared maps-disjoint homography essential fundamental one-calibration cameras absent filtered all-kept
#include "hx.h"
#include <vital/algo/estimate_similarity_transform.h>
#include <vital/algo/estimate_homography.h>
#include <vital/algo/estimate_essential_matrix.h>
#include <vital/algo/estimate_fundamental_matrix.h>
#include <vital/algo/optimize_cameras.h>
#include <vital/algo/filter_features.h>
#include <vital/types/camera.h>
#include <vital/types/landmark_map.h>
#include <vital/exceptions.h>
#include <map>
using namespace kwiver::vital;
#define BASICS( C ) std::string impl_name() const { return "x"; } std::string description() const { return ""; } void set_configuration( config_block_sptr ) {} bool check_configuration( config_block_sptr ) const { return true; } \
  std::shared_ptr< algo::C > clone() const { return std::shared_ptr< algo::C >(); } algorithm_sptr base_clone() const { return algorithm_sptr(); }
static int calls; static std::vector< vector_3d > from3, to3; static std::vector< vector_2d > p1, p2; static double scale; static camera_intrinsics_sptr c1, c2;
struct similar : algo::estimate_similarity_transform
{
  BASICS( estimate_similarity_transform )
  using algo::estimate_similarity_transform::estimate_transform;
  similarity_d estimate_transform( std::vector< vector_3d > const& a, std::vector< vector_3d > const& b ) const { ++calls; from3 = a; to3 = b; return similarity_d( 4, rotation_d(), vector_3d( 7, 8, 9 ) ); }
};
static bool marks[3]; static void give( std::vector< bool >& in, size_t n ) { in.assign( n, false ); for ( size_t i = 0; i < n; ++i ) in[i] = marks[i]; }
static homography_sptr the_h; static essential_matrix_sptr the_e; static fundamental_matrix_sptr the_f;
struct homog : algo::estimate_homography { BASICS( estimate_homography ) using algo::estimate_homography::estimate;
  homography_sptr estimate( const std::vector< vector_2d >& a, const std::vector< vector_2d >& b, std::vector< bool >& in, double s ) const { ++calls; p1 = a; p2 = b; scale = s; give( in, a.size() ); return the_h; } };
struct fund : algo::estimate_fundamental_matrix { BASICS( estimate_fundamental_matrix ) using algo::estimate_fundamental_matrix::estimate;
  fundamental_matrix_sptr estimate( const std::vector< vector_2d >& a, const std::vector< vector_2d >& b, std::vector< bool >& in, double s ) const { ++calls; p1 = a; p2 = b; scale = s; give( in, a.size() ); return the_f; } };
struct essen : algo::estimate_essential_matrix { BASICS( estimate_essential_matrix ) using algo::estimate_essential_matrix::estimate;
  essential_matrix_sptr estimate( const std::vector< vector_2d >& a, const std::vector< vector_2d >& b, const camera_intrinsics_sptr k1, const camera_intrinsics_sptr k2, std::vector< bool >& in, double s ) const { ++calls; p1 = a; p2 = b; c1 = k1; c2 = k2; scale = s; give( in, a.size() ); return the_e; } };
static vector_3d at( int side, int i ) { return vector_3d( side * 100 + i, i * i, -side ); }
static bool same( vector_3d const& a, vector_3d const& b ) { return a[0] == b[0] && a[1] == b[1] && a[2] == b[2]; }
static void answered( similarity_d const& s ) { sx_assert( calls == 1 && s.scale() == 4 && s.translation()[0] == 7 && s.translation()[2] == 9 ); }
static void similarity()
{
  similar a; bool lm = sx_choice( "landmarks", 2 ); int most = sx_param( "elements", 3, 4 );
  if ( sx_choice( "lists", 2 ) )
  {
    int n[2]; std::vector< camera_sptr > c[2]; std::vector< landmark_sptr > l[2];
    for ( int s = 0; s < 2; ++s ) { n[s] = sx_choice( "size", most + 1 ); for ( int i = 0; i < n[s]; ++i ) { c[s].push_back( camera_sptr( new simple_camera( at( s, i ), rotation_d() ) ) ); l[s].push_back( landmark_sptr( new landmark_d( at( s, i ) ) ) ); } }
    answered( lm ? a.estimate_transform( l[0], l[1] ) : a.estimate_transform( c[0], c[1] ) );
    sx_assert( (int)from3.size() == n[0] && (int)to3.size() == n[1] );
    for ( int i = 0; i < n[0]; ++i ) sx_assert( same( from3[i], at( 0, i ) ) );
    for ( int i = 0; i < n[1]; ++i ) sx_assert( same( to3[i], at( 1, i ) ) );
    sx_reach( "lists" );
    return;
  }
  camera_map::map_camera_t c[2]; landmark_map::map_landmark_t l[2]; std::vector< int64_t > ids[2]; most = sx_param( "shared elements", 2, 3 );
  for ( int s = 0; s < 2; ++s )
  {
    int n = sx_choice( "size", most + 1 );
    for ( int i = 0; i < n; ++i )
    {
      int64_t id = (int64_t)sx_var( "id", 64 ); if ( i ) sx_assume( id > ids[s][i - 1] ); ids[s].push_back( id );
      if ( lm ) l[s][id] = landmark_sptr( new landmark_f( at( s, i ).cast< float >() ) ); else c[s][id] = camera_sptr( new simple_camera( at( s, i ), rotation_d() ) );
    }
  }
  answered( lm ? a.estimate_transform( landmark_map_sptr( new simple_landmark_map( l[0] ) ), landmark_map_sptr( new simple_landmark_map( l[1] ) ) )
               : a.estimate_transform( camera_map_sptr( new simple_camera_map( c[0] ) ), camera_map_sptr( new simple_camera_map( c[1] ) ) ) );
  size_t k = 0;
  for ( size_t i = 0; i < ids[0].size(); ++i ) for ( size_t j = 0; j < ids[1].size(); ++j ) if ( ids[0][i] == ids[1][j] )
  { sx_assert( k < from3.size() && k < to3.size() && same( from3[k], at( 0, i ) ) && same( to3[k], at( 1, j ) ) ); ++k; }
  sx_assert( from3.size() == k && to3.size() == k );
  k ? sx_reach( "maps-shared" ) : sx_reach( "maps-disjoint" );
}
static feature_sptr feat( int side, int i ) { vector_2d v( side * 10 + i, 1 - side ); if ( i & 1 ) return feature_sptr( new feature_f( v.cast< float >() ) ); return feature_sptr( new feature_d( v ) ); }
static void points()
{
  int most = 2 + sx_thorough(), n1 = 1 + sx_choice( "features one", most ), n2 = 1 + sx_choice( "features two", most ), n = sx_choice( "matches", sx_param( "matches", 3, 4 ) );
  std::vector< feature_sptr > f1, f2; for ( int i = 0; i < n1; ++i ) f1.push_back( feat( 1, i ) ); for ( int i = 0; i < n2; ++i ) f2.push_back( feat( 2, i ) );
  std::vector< match > m; for ( int i = 0; i < n; ++i ) { unsigned a = (unsigned)sx_range( "first", 0, n1 - 1 ), b = (unsigned)sx_range( "second", 0, n2 - 1 ); m.push_back( match( a, b ) ); }
  for ( bool& b : marks ) b = sx_bool( "inlier" );
  feature_set_sptr s1( new simple_feature_set( f1 ) ), s2( new simple_feature_set( f2 ) ); match_set_sptr ms( new simple_match_set( m ) );
  double sc = sx_idouble( "scale", -1000, 1000 ); camera_intrinsics_sptr k1( new simple_camera_intrinsics ), k2( new simple_camera_intrinsics ); std::vector< bool > in( 5, true );
  the_h.reset( new homography_< double >() ); the_e.reset( new essential_matrix_d( rotation_d(), vector_3d( 1, 0, 0 ) ) ); matrix_3x3d fm; fm << 0, 1, 0, 0, 0, 1, 0, 0, 0; the_f.reset( new fundamental_matrix_d( fm ) );
  int kind = sx_choice( "kind", 6 ); bool deflt = sx_choice( "scale given", 2 ) == 0; if ( deflt ) sc = 1;
  bool pts = kind == 5;
  switch ( kind )
  {
  case 0: { homog a; sx_assert( ( deflt ? a.estimate( s1, s2, ms, in ) : a.estimate( s1, s2, ms, in, sc ) ) == the_h ); sx_reach( "homography" ); break; }
  case 1: { fund a; sx_assert( ( deflt ? a.estimate( s1, s2, ms, in ) : a.estimate( s1, s2, ms, in, sc ) ) == the_f ); sx_reach( "fundamental" ); break; }
  case 2: { essen a; algo::estimate_essential_matrix& b = a; sx_assert( ( deflt ? b.estimate( s1, s2, ms, k1, k2, in ) : b.estimate( s1, s2, ms, k1, k2, in, sc ) ) == the_e && c1 == k1 && c2 == k2 ); sx_reach( "essential" ); break; }
  case 3: { essen a; algo::estimate_essential_matrix& b = a; sx_assert( ( deflt ? b.estimate( s1, s2, ms, k1, in ) : b.estimate( s1, s2, ms, k1, in, sc ) ) == the_e && c1 == k1 && c2 == k1 ); sx_reach( "one-calibration" ); break; }
  case 4: { fund a; the_f.reset(); sx_assert( ! a.estimate( s1, s2, ms, in, sc ) ); if ( deflt ) sc = scale; break; }
  case 5: { essen a; algo::estimate_essential_matrix& b = a; std::vector< vector_2d > v1, v2; for ( int i = 0; i < n; ++i ) { v1.push_back( vector_2d( i, 3 ) ); v2.push_back( vector_2d( 4, i ) ); }
    sx_assert( ( deflt ? b.estimate( v1, v2, k1, in ) : b.estimate( v1, v2, k1, in, sc ) ) == the_e && c1 == k1 && c2 == k1 && p1 == v1 && p2 == v2 ); break; }
  }
  sx_assert( calls == 1 && scale == sc && (int)p1.size() == n && (int)p2.size() == n && (int)in.size() == n );
  for ( int i = 0; i < n; ++i )
  {
    if ( ! pts ) sx_assert( p1[i][0] == 10 + (double)m[i].first && p1[i][1] == 0 && p2[i][0] == 20 + (double)m[i].second && p2[i][1] == -1 );
    sx_assert( in[i] == marks[i] );
  }
}
struct seen { std::vector< feature_sptr > f; std::vector< landmark_sptr > l; };
static std::map< camera*, seen > got; static std::map< camera*, camera_sptr > better;
struct optim : algo::optimize_cameras
{
  BASICS( optimize_cameras )
  using algo::optimize_cameras::optimize;
  void optimize( camera_sptr& c, const std::vector< feature_sptr >& f, const std::vector< landmark_sptr >& l ) const { ++calls; camera* k = c.get(); sx_assert( ! got.count( k ) && better.count( k ) ); got[k].f = f; got[k].l = l; c = better[k]; }
};
static void cameras()
{
  optim a; camera_map::map_camera_t cams; landmark_map::map_landmark_t lms; std::vector< track_sptr > trks;
  int nc = sx_choice( "cameras", 3 ), nl = sx_choice( "landmarks", nc > 1 ? 2 + sx_thorough() : 3 ), nt = sx_choice( "tracks", sx_param( "tracks", 3, 3 ) ), ns = sx_choice( "states", 3 );
  std::vector< int64_t > cf, li, ti; std::vector< std::vector< std::pair< int64_t, feature_sptr > > > st( nt );
  for ( int i = 0; i < nc; ++i ) { int64_t id = (int64_t)sx_var( "frame", 64 ); if ( i ) sx_assume( id > cf[i - 1] ); cf.push_back( id ); camera_sptr c( new simple_camera( at( 0, i ), rotation_d() ) ); cams[id] = c; better[c.get()].reset( new simple_camera( at( 1, i ), rotation_d() ) ); }
  for ( int i = 0; i < nl; ++i ) { int64_t id = (int64_t)sx_var( "landmark", 64 ); if ( i ) sx_assume( id > li[i - 1] ); li.push_back( id ); lms[id] = landmark_sptr( new landmark_d( at( 2, i ) ) ); }
  for ( int i = 0; i < nt; ++i )
  {
    int64_t id = (int64_t)sx_var( "track", 64 ); for ( int j = 0; j < i; ++j ) sx_assume( id != ti[j] ); ti.push_back( id ); track_sptr t( new track ); t->set_id( id );
    int n = i ? 1 : ns;
    for ( int s = 0; s < n; ++s )
    {
      int64_t f = (int64_t)sx_var( "state frame", 64 ); if ( s ) sx_assume( f > st[i][s - 1].first ); feature_sptr ft; if ( s == 1 || i == 1 || sx_bool( "feature" ) ) ft = feat( i, s );
      st[i].push_back( std::make_pair( f, ft ) ); sx_assert( t->append( track::track_state( f, ft, descriptor_sptr() ) ) );
    }
    trks.push_back( t );
  }
  camera_map_sptr cm( new simple_camera_map( cams ) ), before = cm; track_set_sptr ts( new simple_track_set( trks ) ); landmark_map_sptr lm( new simple_landmark_map( lms ) );
  a.algo::optimize_cameras::optimize( cm, ts, lm );
  camera_map::map_camera_t r = cm->cameras(), old = before->cameras(); sx_assert( (int)r.size() == nc && (int)old.size() == nc );
  // track order by id
  std::vector< int > ord; for ( int i = 0; i < nt; ++i ) { size_t k = 0; while ( k < ord.size() && ti[ord[k]] < ti[i] ) ++k; ord.insert( ord.begin() + k, i ); }
  for ( int i = 0; i < nc; ++i )
  {
    camera_sptr o = cams[cf[i]]; sx_assert( old[cf[i]] == o && r.count( cf[i] ) );
    seen w;
    for ( int t : ord ) for ( auto const& s : st[t] ) if ( s.first == cf[i] && s.second ) for ( int l = 0; l < nl; ++l ) if ( li[l] == ti[t] ) { w.f.push_back( s.second ); w.l.push_back( lms[li[l]] ); }
    if ( w.f.empty() ) sx_assert( ! got.count( o.get() ) || ( got[o.get()].f.empty() && got[o.get()].l.empty() ) );
    else
    {
      // the documentation fixes no order of the pairs
      sx_assert( got.count( o.get() ) ); seen g = got[o.get()]; sx_assert( g.f.size() == w.f.size() && g.l.size() == w.l.size() );
      for ( size_t k = 0; k < w.f.size(); ++k ) { bool there = false; for ( size_t j = 0; j < g.f.size(); ++j ) there |= g.f[j] == w.f[k] && g.l[j] == w.l[k]; sx_assert( there ); }
      sx_reach( "cameras" );
    }
    sx_assert( r[cf[i]] == ( got.count( o.get() ) ? better[o.get()] : o ) );
  }
}
struct keep : algo::filter_features
{
  BASICS( filter_features )
  using algo::filter_features::filter;
  std::vector< unsigned > ids; mutable feature_set_sptr in; feature_set_sptr out;
  feature_set_sptr filter( feature_set_sptr f, std::vector< unsigned >& i ) const { ++calls; in = f; i = ids; return out; }
};
static void filters()
{
  int n = 1 + sx_choice( "features", sx_param( "features", 3, 4 ) ), k = sx_choice( "kept", sx_param( "kept", 3, 4 ) + 1 ); keep a; std::vector< feature_sptr > f, g; int back = sx_choice( "returned", 3 ); std::vector< descriptor_sptr > d;
  for ( int i = 0; i < n; ++i ) { f.push_back( feat( 1, i ) ); d.push_back( descriptor_sptr( new descriptor_dynamic< int >( i + 1 ) ) ); }
  for ( int i = 0; i < k; ++i ) a.ids.push_back( (unsigned)sx_range( "index", 0, n - 1 ) );
  feature_set_sptr fs( new simple_feature_set( f ) ); descriptor_set_sptr ds( new simple_descriptor_set( d ) ); if ( back ) g = f; if ( back == 2 ) a.out = fs; else a.out.reset( new simple_feature_set( g ) );
  if ( sx_choice( "descriptors", 2 ) )
  {
    std::pair< feature_set_sptr, descriptor_set_sptr > r = static_cast< algo::filter_features& >( a ).filter( fs, ds );
    sx_assert( calls == 1 && a.in == fs && r.first == a.out && r.second );
    std::vector< descriptor_sptr > e = r.second->descriptors(); sx_assert( (int)e.size() == k );
    for ( int i = 0; i < k; ++i ) sx_assert( (unsigned)e[i]->size() == a.ids[i] + 1 && e[i] == d[(size_t)sx_concretize( a.ids[i] )] );
    std::vector< descriptor_sptr > u = ds->descriptors(); sx_assert( u == d );
    sx_reach( "filtered" );
  }
  else { sx_assert( static_cast< algo::filter_features& >( a ).filter( fs ) == a.out && calls == 1 && a.in == fs ); sx_reach( "all-kept" ); }
}
void sx_main()
{
  switch ( sx_choice( "what", 5 ) )
  {
  case 0: similarity(); break;
  case 1: points(); break;
  case 2: cameras(); break;
  case 3: filters(); break;
  case 4:
  {
    camera_map_sptr cm, keep; track_set_sptr ts; landmark_map_sptr lm; int w = sx_choice( "present", 7 ); optim a;
    if ( w & 1 ) cm.reset( new simple_camera_map ); if ( w & 2 ) ts.reset( new simple_track_set ); if ( w & 4 ) lm.reset( new simple_landmark_map ); keep = cm;
    sx_assert( HX_THROWS( a.algo::optimize_cameras::optimize( cm, ts, lm ), invalid_value ) && cm == keep && ! calls );
    sx_reach( "absent" );
    break;
  }
  }
}
