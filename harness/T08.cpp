// SX-SOURCES: vital/types/track.cxx vital/types/feature.cxx vital/exceptions/base.cxx vital/exceptions/io.cxx
// SX-REACH: appended refused joined join-refused found absent empty copied longer
// SX-ASSUME: tracks built by up to the stated number of appends, all 64-bit frame numbers; histories of seven states with gaps of 1 and 9
#include "hx.h"
#include <vital/types/track.h>
#include <algorithm>
using namespace kwiver::vital;
struct st { int64_t f; feature_sptr a; };
static void verify( track const& t, std::vector< st > const& m )
{
  sx_assert( t.size() == m.size() && t.empty() == m.empty() );
  sx_assert( t.end() - t.begin() == ptrdiff_t( m.size() ) );
  sx_assert( t.first_frame() == ( m.empty() ? 0 : m.front().f ) && t.last_frame() == ( m.empty() ? 0 : m.back().f ) );
  size_t i = 0;
  for ( track::history_const_itr p = t.begin(); p != t.end(); ++p, ++i ) { sx_assert( p->frame_id == m[i].f ); sx_assert( p->feat == m[i].a && ! p->desc ); if ( i ) sx_assert( m[i-1].f < p->frame_id ); }
  std::set< frame_id_t > ids = t.all_frame_ids();
  sx_assert( ids.size() == m.size() );
  i = 0;
  for ( std::set< frame_id_t >::const_iterator p = ids.begin(); p != ids.end(); ++p, ++i ) sx_assert( *p == m[i].f );
}
void sx_main()
{
  if ( sx_choice( "longer history", 2 ) )
  {
    // seven states, evenly and unevenly spread
    track l; std::vector< st > m; int64_t f = 3;
    for ( int i = 0; i < 7; ++i )
    {
      st s = { f, feature_sptr( new feature_d() ) }; m.push_back( s );
      sx_assert( l.append( track::track_state( f, s.a, descriptor_sptr() ) ) );
      f += sx_choice( "gap", 2 ) ? 9 : 1;
    }
    verify( l, m );
    for ( int64_t q = -1; q < f + 2; ++q )
    {
      size_t at = 0; while ( at < m.size() && m[at].f != q ) ++at;
      sx_assert( l.find( q ) - l.begin() == ptrdiff_t( at ) );
    }
    sx_reach( "longer" );
    return;
  }
  int n = sx_param( "appends", 3, 5 );
  track t, u; std::vector< st > m, k;
  sx_assert( t.id() == 0 );
  track_id_t id = (track_id_t)sx_var( "id", 64 );
  t.set_id( id ); sx_assert( t.id() == id );
  if ( sx_bool( "from state" ) )
  {
    st s = { (int64_t)sx_var( "frame", 64 ), feature_sptr( new feature_d() ) };
    t = track( track::track_state( s.f, s.a, descriptor_sptr() ) ); t.set_id( id ); m.push_back( s );
  }
  n = sx_choice( "appends", n + 1 );
  for ( int i = 0; i < n; ++i )
  {
    st s = { (int64_t)sx_var( "frame", 64 ), feature_sptr( new feature_d() ) };
    bool other = sx_bool( "to other track" );
    track& x = other ? u : t; std::vector< st >& y = other ? k : m;
    bool ok = x.append( track::track_state( s.f, s.a, descriptor_sptr() ) );
    sx_assert( ok == ( y.empty() || y.back().f < s.f ) );
    if ( ok ) { y.push_back( s ); sx_reach( "appended" ); } else sx_reach( "refused" );
  }
  verify( t, m ); verify( u, k );
  track c( t );
  sx_assert( c.id() == id ); verify( c, m );
  // look a frame up
  int64_t q = (int64_t)sx_var( "query", 64 );
  track::history_const_itr it = t.find( q );
  size_t at = 0; while ( at < m.size() && m[at].f != q ) ++at;
  sx_assert( it - t.begin() == ptrdiff_t( at ) );
  if ( at < m.size() ) sx_reach( "found" ); else sx_reach( "absent" );
  if ( m.empty() ) sx_reach( "empty" );
  // append a whole track
  bool ok = t.append( u );
  sx_assert( ok == ( m.empty() || k.empty() || m.back().f < k.front().f ) );
  std::vector< st > old = m;
  if ( ok ) { m.insert( m.end(), k.begin(), k.end() ); sx_reach( "joined" ); } else sx_reach( "join-refused" );
  verify( t, m ); verify( u, k ); verify( c, old ); sx_assert( t.id() == id );
  sx_reach( "copied" );
}
