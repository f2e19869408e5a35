// SX-SOURCES: vital/types/track.cxx vital/types/track_set.cxx vital/types/feature.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/exceptions/*.cxx
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp
// SX-REACH: active inactive new terminated absolute relative before-start empty-track no-tracks get missing duplicate-id
// SX-ASSUME: up to the stated number of tracks of up to two states, every frame number up to 2^40, every offset up to 2^41 in magnitude, every track id; log output suppressed
#include "hx.h"
#include <vital/types/track_set.h>
using namespace kwiver::vital;
struct tk { std::vector< int64_t > f; int64_t id; track_sptr p; };
static bool on( tk const& t, int64_t f ) { bool r = false; for ( size_t i = 0; i < t.f.size(); ++i ) r |= t.f[i] == f; return r; }
void sx_main()
{
  int n = sx_choice( "tracks", sx_param( "tracks", 2, 3 ) + 1 );
  std::vector< tk > m; std::vector< track_sptr > v; int64_t last = 0, first = 0; bool any = false;
  for ( int i = 0; i < n; ++i )
  {
    tk t; t.p = track_sptr( new track() ); t.id = (int64_t)sx_var( "id", 64 ); t.p->set_id( t.id );
    int k = sx_choice( "states", 3 );
    for ( int j = 0; j < k; ++j )
    {
      int64_t f = sx_range( "frame", 0, 1ll << 40 );
      if ( j ) sx_assume( f > t.f.back() );
      t.f.push_back( f ); t.p->append( track::track_state( f, feature_sptr(), descriptor_sptr() ) );
      last = f > last ? f : last; first = ( ! any || f < first ) ? f : first; any = true;
    }
    if ( ! k ) sx_reach( "empty-track" );
    m.push_back( t ); v.push_back( t.p );
  }
  if ( ! n ) sx_reach( "no-tracks" );
  simple_track_set s( v );
  sx_assert( s.size() == v.size() && s.empty() == v.empty() && s.tracks() == v );
  sx_assert( s.last_frame() == last );
  sx_assert( s.first_frame() == first );
  if ( sx_bool( "ids" ) )
  {
    std::set< frame_id_t > fr = s.all_frame_ids(); std::set< track_id_t > ids = s.all_track_ids();
    size_t nf = 0, ni = 0;
    for ( size_t i = 0; i < m.size(); ++i )
    {
      bool seen = false;
      for ( size_t j = 0; j < i; ++j ) seen |= m[j].id == m[i].id;
      ni += ! seen; sx_assert( ids.count( m[i].id ) == 1 );
      if ( seen ) sx_reach( "duplicate-id" );
      for ( size_t a = 0; a < m[i].f.size(); ++a )
      {
        bool dup = false;
        for ( size_t j = 0; j < i; ++j ) dup |= on( m[j], m[i].f[a] );
        nf += ! dup; sx_assert( fr.count( m[i].f[a] ) == 1 );
      }
    }
    sx_assert( ids.size() == ni && fr.size() == nf );
    int64_t q = (int64_t)sx_var( "wanted id", 64 );
    track_sptr g = s.get_track( q ), want;
    for ( size_t i = m.size(); i-- > 0; ) if ( m[i].id == q ) want = m[i].p;
    sx_assert( g == want );
    if ( want ) sx_reach( "get" ); else sx_reach( "missing" );
    return;
  }
  int64_t o = sx_range( "offset", -( 1ll << 41 ), 1ll << 41 );
  int64_t f; bool none = false;
  if ( o >= 0 ) { f = o; sx_reach( "absolute" ); }
  else if ( o >= -( last + 1 ) ) { f = last + 1 + o; sx_reach( "relative" ); }
  else { f = -1; none = true; sx_reach( "before-start" ); }
  track_set_sptr got; int kind = sx_choice( "query", 4 );
  got = kind == 0 ? s.active_tracks( o ) : kind == 1 ? s.inactive_tracks( o ) : kind == 2 ? s.new_tracks( o ) : s.terminated_tracks( o );
  std::vector< track_sptr > w, r = got->tracks();
  for ( size_t i = 0; i < m.size(); ++i )
  {
    bool e = m[i].f.empty(), in = ! none && on( m[i], f );
    bool take = kind == 0 ? in : kind == 1 ? ! in : kind == 2 ? ( ! none && ! e && m[i].f.front() == f ) : ( ! none && ! e && m[i].f.back() == f );
    if ( take ) w.push_back( m[i].p );
  }
  sx_assert( r == w );
  if ( w.size() ) sx_reach( kind == 0 ? "active" : kind == 1 ? "inactive" : kind == 2 ? "new" : "terminated" );
}
