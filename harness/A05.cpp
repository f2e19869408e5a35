// SX-SOURCES: vital/registrar.cxx vital/algo/algorithm.cxx vital/algo/geo_map.cxx vital/config/config_block.cxx vital/exceptions/*.cxx vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp
// SX-REACH: inside low high
#include "hx.h"
#include <vital/algo/geo_map.h>
using namespace kwiver::vital;
struct geo : algo::geo_map
{
  std::string impl_name() const { return "x"; } std::string description() const { return ""; } void set_configuration( config_block_sptr ) {} bool check_configuration( config_block_sptr ) const { return true; }
  std::shared_ptr< algo::geo_map > clone() const { return std::shared_ptr< algo::geo_map >(); } algorithm_sptr base_clone() const { return algorithm_sptr(); }
  void utm_to_latlon( double, double, int, bool, double&, double& ) const {} void latlon_to_utm( double, double, double&, double&, int&, bool&, int ) const {}
};
void sx_main()
{
  geo g; int u = sx_param( "steps of a degree", 16, 256 ), k = (int)sx_range( "longitude in steps", -900 * u, 540 * u ); double lon = (double)k / u, lat = sx_idouble( "latitude", -90, 90 );
  int turn = ( ( k + 180 * u ) % ( 360 * u ) + 360 * u ) % ( 360 * u ), want = turn / ( 6 * u ) + 1, got = g.latlon_zone( lat, lon );
  sx_assert( got == want );
  if ( k < -180 * u ) sx_reach( "low" ); else if ( k >= 180 * u ) sx_reach( "high" ); else sx_reach( "inside" );
}
