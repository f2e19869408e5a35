// SX-SOURCES: vital/types/track.cxx vital/types/track_set.cxx vital/types/feature.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/exceptions/*.cxx
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp
// SX-REACH: features descriptors last-frame percentage none all part empty-track
// SX-ASSUME: up to the stated number of tracks of up to two states on frames 0 to 7, offsets -9 to 8 (larger frame numbers and offsets are covered by the frame queries of T09); log output suppressed
#include "hx.h"
#include <vital/types/track_set.h>
using namespace kwiver::vital;
struct tk { std::vector< int64_t > f; std::vector< feature_sptr > a; std::vector< descriptor_sptr > d; track_sptr p; };
static int on( tk const& t, int64_t f ) { for ( size_t i = 0; i < t.f.size(); ++i ) if ( t.f[i] == f ) return (int)i; return -1; }
void sx_main()
{
  int n = sx_choice( "tracks", sx_param( "tracks", 2, 3 ) + 1 );
  int query = sx_choice( "query", 4 ), bare = query < 3 ? sx_choice( "tracks without features and descriptors", 3 ) : 0;
  std::vector< tk > m; std::vector< track_sptr > v; int64_t last = 0;
  for ( int i = 0; i < n; ++i )
  {
    tk t; t.p = track_sptr( new track() );
    int k = sx_choice( "states", 3 );
    for ( int j = 0; j < k; ++j )
    {
      int64_t f = sx_range( "frame", 0, 7 );
      if ( j ) sx_assume( f > t.f.back() );
      t.f.push_back( f ); 
      bool none = bare == 1 + ( i & 1 );
      t.a.push_back( none ? feature_sptr() : feature_sptr( new feature_d() ) ); t.d.push_back( none ? descriptor_sptr() : descriptor_sptr( new descriptor_fixed< int, 1 >() ) );
      t.p->append( track::track_state( f, t.a.back(), t.d.back() ) );
      last = f > last ? f : last;
    }
    if ( ! k ) sx_reach( "empty-track" );
    m.push_back( t ); v.push_back( t.p );
  }
  simple_track_set s( v );
  int64_t o = sx_range( "offset", -9, 8 );
  int64_t f = o >= 0 ? o : o >= -( last + 1 ) ? last + 1 + o : -1;
  std::vector< feature_sptr > wa; std::vector< descriptor_sptr > wd;
  switch ( query )
  {
  case 0:
    for ( size_t i = 0; i < m.size(); ++i ) { int at = on( m[i], f ); if ( at >= 0 ) wa.push_back( m[i].a[at] ); }
    { feature_set_sptr g = s.frame_features( o ); sx_assert( g->features() == wa && g->size() == wa.size() ); }
    if ( wa.size() ) sx_reach( "features" );
    break;
  case 1:
    for ( size_t i = 0; i < m.size(); ++i ) { int at = on( m[i], f ); if ( at >= 0 ) wd.push_back( m[i].d[at] ); }
    { descriptor_set_sptr g = s.frame_descriptors( o ); sx_assert( g->descriptors() == wd && g->size() == wd.size() ); }
    if ( wd.size() ) sx_reach( "descriptors" );
    break;
  case 2:
    for ( size_t i = 0; i < m.size(); ++i ) { int at = on( m[i], last ); if ( at >= 0 ) { wa.push_back( m[i].a[at] ); wd.push_back( m[i].d[at] ); } }
    sx_assert( s.last_frame_features()->features() == wa );
    sx_assert( s.last_frame_descriptors()->descriptors() == wd );
    if ( wa.size() ) sx_reach( "last-frame" );
    break;
  case 3:
  {
    int64_t p = sx_range( "second offset", -9, 8 );
    int64_t h = p >= 0 ? p : p >= -( last + 1 ) ? last + 1 + p : -1;
    int both = 0, either = 0;
    for ( size_t i = 0; i < m.size(); ++i ) { bool x = on( m[i], f ) >= 0, y = on( m[i], h ) >= 0; both += x && y; either += x || y; }
    double r = s.percentage_tracked( o, p );
    sx_assert( r == ( either ? double( both ) / either : 0. ) );
    sx_reach( "percentage" ); sx_reach( both == 0 ? "none" : both == either ? "all" : "part" );
    break;
  }
  }
}
