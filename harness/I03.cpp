// SX-SOURCES: vital/io/landmark_map_io.cxx vital/types/landmark.cxx vital/types/similarity.cxx vital/types/rotation.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx vital/util/get_paths.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: round read fewer more absent unwritable empty
// SX-ASSUME: the numbers of landmarks are integers within the stated ranges (the file holds six digits); the values in files made here are single digits, the layout of the header one of those listed
#include "hx.h"
#include <vital/io/landmark_map_io.h>
#include <vital/types/landmark.h>
#include <vital/exceptions/io.h>
#include <sys/stat.h>
#include <fstream>
using namespace kwiver::vital;
static void put( const char* f, std::string const& s ) { std::ofstream o( f ); o.write( s.data(), s.size() ); }
// one number of a round trip is symbolic in its whole range, which one is a choice of its own
static int wide, turn; static double num( const char* nm, int lo, int hi, double other ) { return turn++ == wide ? sx_idouble( nm, lo, hi ) : other; }
static void round_trip()
{
  int n = 1 + sx_choice( "landmarks", sx_param( "landmarks", 2, 3 ) ), big = sx_param( "coordinate", 999999, 999999 );
  wide = sx_choice( "number", 9 );
  landmark_map::map_landmark_t m;
  static const landmark_id_t base[] = { 0, 1ll << 40, -70000 };
  landmark_id_t b = base[sx_choice( "ids", 3 )];
  for ( int i = 0; i < n; ++i )
  {
    auto l = std::make_shared< landmark_d >( vector_3d( num( "x", -big, big, i ), num( "y", -big, big, -0.5 ), num( "z", -big, big, 70 ) ) );
    l->set_normal( vector_3d( num( "nx", -999, 999, 1 ), num( "ny", -999, 999, 0 ), num( "nz", -999, 999, -2 ) ) );
    if ( i == 0 && wide == 6 ) l->set_color( rgb_color( (unsigned char)sx_var( "r", 8 ), (unsigned char)sx_var( "g", 8 ), 17 ) ); else if ( i == 0 && wide == 7 ) l->set_color( rgb_color( 3, 255, (unsigned char)sx_var( "b", 8 ) ) ); else l->set_color( rgb_color( 1, 200, 0 ) );
    l->set_observations( i || wide != 8 ? 4000000000u - i : (unsigned)sx_range( "observations", 0, 9999 ) );
    m[b + 3 * i + ( i ? sx_choice( "id", 2 ) : 0 )] = l;
  }
  bool dir = sx_bool( "new directory" );
  write_ply_file( std::make_shared< simple_landmark_map >( m ), dir ? "p/q/l.ply" : "l.ply" );
  landmark_map_sptr r = read_ply_file( dir ? "p/q/l.ply" : "l.ply" );
  landmark_map::map_landmark_t g = r->landmarks();
  sx_assert( g.size() == m.size() && r->size() == m.size() );
  for ( auto const& p : m )
  {
    sx_assert( g.find( p.first ) != g.end() );
    landmark const& x = *p.second, & y = *g[p.first];
    bool ok = true;
    for ( int i = 0; i < 3; ++i ) { bool l = x.loc()[i] == y.loc()[i], o = x.normal()[i] == y.normal()[i]; ok &= l & o; }
    bool rr = x.color().r == y.color().r, gg = x.color().g == y.color().g, bb = x.color().b == y.color().b, oo = x.observations() == y.observations();
    sx_assert( ok ); sx_assert( rr & gg & bb & oo );
  }
  sx_reach( "round" );
}
enum kind { X, Y, Z, NX, NY, NZ, R, G, B, ID, OBS, NONE };
static void reading()
{
  struct prop { const char* name; kind k; };
  static const prop layout[][12] = {
    { { "x", X }, { "y", Y }, { "z", Z } },
    { { "x", X }, { "y", Y }, { "z", Z }, { "nx", NX }, { "ny", NY }, { "nz", NZ }, { "red", R }, { "green", G }, { "blue", B }, { "track_id", ID }, { "observations", OBS } },
    { { "track_id", ID }, { "blue", B }, { "confidence", NONE }, { "Z", Z }, { "nz", NZ }, { "Y", Y }, { "GREEN", G }, { "X", X }, { "Red", R } },
    { { "vsfm_cnz", NZ }, { "vsfm_cny", NY }, { "vsfm_cnx", NX }, { "diffuse_blue", B }, { "diffuse_green", G }, { "diffuse_red", R }, { "number_of_camera_sees_this_point", OBS }, { "z", Z }, { "x", X }, { "y", Y } },
    { { "alpha", NONE }, { "z", Z }, { "x", X }, { "", NONE } } };
  int which = sx_choice( "layout", 5 ); const prop* p = layout[which]; int np = 0; while ( np < 12 && p[np].name && *p[np].name ) ++np;
  int told = sx_choice( "vertices told", 4 ), lines = sx_choice( "lines", sx_param( "lines", 3, 4 ) ), style = sx_choice( "style", 4 );
  std::string s = "ply\nformat ascii 1.0\n";
  if ( style == 1 ) s += "comment element vertex\n\nelement camera 2\nproperty float y\nproperty float track_id\n";
  s += "element vertex " + std::to_string( told ) + "\n";
  for ( int i = 0; i < np; ++i ) s += std::string( "property " ) + ( p[i].k <= NZ ? "float " : "uchar " ) + p[i].name + "\n";
  if ( style == 2 ) s += "element face 1\nproperty list uchar int vertex_indices\nproperty float red\nproperty float x\nproperty int track_id\n";
  s += "end_header\n";
  std::vector< std::vector< int > > v; int free = lines ? sx_choice( "symbolic column", np ) : -1;
  for ( int l = 0; l < lines; ++l )
  {
    v.push_back( std::vector< int >( np ) ); std::string t;
    for ( int i = 0; i < np; ++i )
    {
      char c = '0' + (char)( l || i != free ? 3 * l + i % 3 : sx_range( "digit", 0, 9 ) );
      if ( p[i].k == ID ) c = (char)( '9' - l - ( l == 0 ? sx_choice( "id", 2 ) * 4 : 0 ) );
      v[l][i] = c - '0'; t += ( style == 3 && i == 0 ? "  " : i ? " " : "" ); t += c; if ( style == 3 ) t += "\t";
    }
    if ( style == 2 ) t += " 7 8"; // values of no property
    s += t + ( style == 3 && l + 1 == lines ? "" : "\n" ); if ( style == 1 ) s += "\n   \n";
  }
  put( "l.ply", s );
  landmark_map::map_landmark_t g = read_ply_file( "l.ply" )->landmarks();
  int n = told < lines ? told : lines;
  sx_assert( (int)g.size() == n );
  for ( int l = 0; l < n; ++l )
  {
    int val[12] = { 0, 0, 0, 0, 0, 0, 255, 255, 255, l, 0, 0 }; for ( int i = 0; i < np; ++i ) val[p[i].k] = v[l][i];
    sx_assert( g.find( val[ID] ) != g.end() ); landmark const& m = *g[val[ID]];
    bool ok = true; for ( int i = 0; i < 3; ++i ) { bool a = m.loc()[i] == val[X+i], b = m.normal()[i] == val[NX+i]; ok &= a & b; }
    sx_assert( ok );
    bool r = m.color().r == val[R], gg = m.color().g == val[G], b = m.color().b == val[B], o = (int)m.observations() == val[OBS];
    sx_assert( r & gg & b & o );
  }
  sx_reach( told < lines ? "more" : told > lines ? "fewer" : "read" );
}
void sx_main()
{
  switch ( sx_choice( "what", 3 ) )
  {
  case 0: round_trip(); break;
  case 1: reading(); break;
  case 2:
  {
    ::mkdir( "dir", 0700 ); put( "plain", "" );
    landmark_map::map_landmark_t m; m[1] = std::make_shared< landmark_d >( vector_3d( 1, 2, 3 ) ); landmark_map_sptr one( new simple_landmark_map( m ) );
    switch ( sx_choice( "why", 6 ) )
    {
    case 0: sx_assert( HX_THROWS( read_ply_file( "none.ply" ), file_not_found_exception ) ); sx_reach( "absent" ); break;
    case 1: sx_assert( HX_THROWS( write_ply_file( one, "dir" ), file_write_exception ) ); sx_reach( "unwritable" ); break;
    case 2: sx_assert( HX_THROWS( write_ply_file( one, "plain/l.ply" ), file_write_exception ) ); sx_reach( "unwritable" ); break;
    case 3: sx_assert( HX_THROWS( write_ply_file( one, std::string( 300, 'f' ) ), file_write_exception ) ); sx_reach( "unwritable" ); break;
    case 4: sx_assert( HX_THROWS( write_ply_file( landmark_map_sptr(), "l.ply" ), file_write_exception ) ); sx_reach( "empty" ); break;
    case 5: sx_assert( HX_THROWS( write_ply_file( landmark_map_sptr( new simple_landmark_map ), "l.ply" ), file_write_exception ) ); sx_reach( "empty" ); break;
    }
    break;
  }
  }
}
