// SX-SOURCES: vital/io/track_set_io.cxx vital/types/track.cxx vital/types/track_set.cxx vital/types/feature.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: round grouped incomplete malformed absent unwritable empty no-feature
// SX-ASSUME: the numbers of features are integers within the stated ranges (the file holds six digits); ids and frames in files made here are single digits
#include "hx.h"
#include <vital/io/track_set_io.h>
#include <vital/types/feature.h>
#include <vital/exceptions/io.h>
#include <sys/stat.h>
#include <fstream>
using namespace kwiver::vital;
static void put( const char* f, std::string const& s ) { std::ofstream o( f ); o.write( s.data(), s.size() ); }
// one number of a round trip is symbolic in its whole range, which one is a choice of its own
static int wide, turn; static double num( const char* nm, int lo, int hi, double other ) { return turn++ == wide ? sx_idouble( nm, lo, hi ) : other; }
static bool same( feature const& x, feature const& y )
{
  bool a = x.loc()[0] == y.loc()[0], b = x.loc()[1] == y.loc()[1], c = x.magnitude() == y.magnitude(), d = x.scale() == y.scale(), e = x.angle() == y.angle();
  bool r = x.color().r == y.color().r, g = x.color().g == y.color().g, h = x.color().b == y.color().b;
  return a & b & c & d & e & r & g & h;
}
static void round_trip()
{
  wide = sx_choice( "number", 6 ); int n = 1 + sx_choice( "tracks", sx_param( "tracks", 2, 3 ) ), big = 999999;
  static const int64_t base[] = { 0, 1ll << 40, -70000 };
  int64_t tb = base[sx_choice( "track ids", 3 )], fb = base[sx_choice( "frames", 3 )];
  std::vector< track_sptr > v;
  for ( int i = 0; i < n; ++i )
  {
    track_sptr t( new track ); t->set_id( tb + ( n - i ) * 5 ); int k = 1 + sx_choice( "states", sx_param( "states", 2, 3 ) );
    for ( int j = 0; j < k; ++j )
    {
      bool first = i + j == 0;
      auto f = std::make_shared< feature_d >( vector_2d( num( "x", -big, big, i ), num( "y", -big, big, j ) ) );
      f->set_magnitude( num( "magnitude", 0, 99999, 0.5 ) ); f->set_scale( num( "scale", 0, 99999, 2.25 ) ); f->set_angle( num( "angle", -99999, 99999, -1.5 ) );
      if ( first && wide == 5 ) f->set_color( rgb_color( (unsigned char)sx_var( "r", 8 ), 7, 255 ) );
      else f->set_color( rgb_color( 0, 128, 9 ) );
      sx_assert( t->append( track::track_state( fb + 2 * j + i, f, descriptor_sptr() ) ) );
    }
    v.push_back( t );
  }
  bool dir = sx_bool( "new directory" );
  write_track_file( track_set_sptr( new simple_track_set( v ) ), dir ? "p/q/t.txt" : "t.txt" );
  track_set_sptr r = read_track_file( dir ? "p/q/t.txt" : "t.txt" );
  std::vector< track_sptr > g = r->tracks();
  sx_assert( (int)g.size() == n && (int)r->size() == n );
  for ( int i = 0; i < n; ++i )
  {
    sx_assert( g[i]->id() == v[i]->id() && g[i]->size() == v[i]->size() );
    auto p = g[i]->begin();
    for ( auto q = v[i]->begin(); q != v[i]->end(); ++q, ++p ) { sx_assert( p->frame_id == q->frame_id && p->feat && ! p->desc ); sx_assert( same( *p->feat, *q->feat ) ); }
  }
  sx_reach( "round" );
}
void sx_main()
{
  static const char* tok[] = { "3", "8", "1.5", "-2", "9", "1", "0.25", "10", "20", "30" };
  switch ( sx_choice( "what", 4 ) )
  {
  case 0: round_trip(); break;
  case 1:
  {
    // lines of several tracks in any order: grouped by id, in order of first appearance
    int n = sx_choice( "lines", sx_param( "lines", 4, 5 ) ); std::string s; std::vector< int > id, fr;
    for ( int i = 0; i < n; ++i ) { id.push_back( (int)sx_range( "track", 0, 9 ) ); fr.push_back( (int)sx_range( "frame", 0, 9 ) ); s += std::string( 1, (char)( '0' + id[i] ) ) + " " + std::string( 1, (char)( '0' + fr[i] ) ) + " " + std::to_string( i ) + " 0 1 2 3 4 5 6\n"; }
    for ( int i = 0; i < n; ++i ) for ( int j = 0; j < i; ++j ) sx_assume( ( id[i] != id[j] ) | ( fr[j] < fr[i] ) );
    put( "t.txt", s );
    track_set_sptr r = read_track_file( "t.txt" ); std::vector< track_sptr > g = r->tracks();
    std::vector< int > order; for ( int i = 0; i < n; ++i ) { bool seen = false; for ( int o : order ) seen |= id[o] == id[i]; if ( ! seen ) order.push_back( i ); }
    sx_assert( g.size() == order.size() );
    for ( size_t t = 0; t < order.size(); ++t )
    {
      sx_assert( g[t]->id() == id[order[t]] );
      auto p = g[t]->begin();
      for ( int i = 0; i < n; ++i ) if ( id[i] == id[order[t]] ) { sx_assert( p != g[t]->end() ); sx_assert( p->frame_id == fr[i] && p->feat->loc()[0] == i ); ++p; }
      sx_assert( p == g[t]->end() );
    }
    sx_reach( "grouped" );
    break;
  }
  case 2:
  {
    int k = sx_choice( "tokens", 11 ); bool good = sx_bool( "good line before" ); std::string s;
    if ( good ) s += "3 7 1 1 1 1 1 1 1 1\n";
    bool bad = k < 10;
    if ( k < 10 && sx_bool( "malformed" ) )
    {
      std::string b( 1, (char)sx_var( "character", 8 ) ); sx_assume( ! ( ( b[0] >= '0' ) & ( b[0] <= '9' ) ) && ! hx_space( b[0] ) && ! hx_in( b[0], "+-." ) && b[0] != 0 );
      for ( int i = 0; i < 10; ++i ) s += ( i == k ? b : std::string( tok[i] ) ) + " ";
      sx_reach( "malformed" );
    }
    else for ( int i = 0; i < k; ++i ) s += std::string( tok[i] ) + ( i < k - 1 ? " " : "" );
    if ( sx_bool( "newline" ) || ( k == 0 && s.find( '3' ) != 0 ) || k == 0 ) s += "\n";
    put( "t.txt", s );
    bool t = HX_THROWS( read_track_file( "t.txt" ), vital_core_base_exception );
    sx_assert( t == bad );
    if ( bad ) sx_reach( "incomplete" );
    else { track_set_sptr r = read_track_file( "t.txt" ); sx_assert( r->size() == 1 && r->tracks()[0]->size() == ( good ? 2u : 1u ) && r->tracks()[0]->last_frame() == 8 ); }
    break;
  }
  case 3:
  {
    ::mkdir( "dir", 0700 ); put( "plain", "" );
    track_sptr t( new track ); t->append( track::track_state( 1, std::make_shared< feature_d >( vector_2d( 1, 2 ) ), descriptor_sptr() ) );
    track_set_sptr one( new simple_track_set( std::vector< track_sptr >( 1, t ) ) );
    switch ( sx_choice( "why", 8 ) )
    {
    case 0: sx_assert( HX_THROWS( read_track_file( "none" ), file_not_found_exception ) ); sx_reach( "absent" ); break;
    case 1: sx_assert( HX_THROWS( read_track_file( "dir" ), file_not_found_exception ) ); sx_reach( "absent" ); break;
    case 2: sx_assert( HX_THROWS( write_track_file( one, "dir" ), file_write_exception ) ); sx_reach( "unwritable" ); break;
    case 3: sx_assert( HX_THROWS( write_track_file( one, "plain/l" ), file_write_exception ) ); sx_reach( "unwritable" ); break;
    case 4: sx_assert( HX_THROWS( write_track_file( one, std::string( 300, 'f' ) ), file_write_exception ) ); sx_reach( "unwritable" ); break;
    case 5: sx_assert( HX_THROWS( write_track_file( track_set_sptr(), "l" ), file_write_exception ) ); sx_reach( "empty" ); break;
    case 6: sx_assert( HX_THROWS( write_track_file( track_set_sptr( new simple_track_set ), "l" ), file_write_exception ) ); sx_reach( "empty" ); break;
    case 7:
      t->append( track::track_state( 2, feature_sptr(), descriptor_sptr() ) );
      put( "keep", "old" );
      sx_assert( HX_THROWS( write_track_file( one, "keep" ), file_write_exception ) );
      sx_reach( "no-feature" );
      break;
    }
    break;
  }
  }
}
