// SX-SOURCES: vital/config/*.cxx vital/exceptions/*.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c vital/logger/kwiver_logger.cxx vital/logger/location_info.cxx vital/logger/kwiver_logger_factory.cxx
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx vital/logger/kwiver_logger_manager.cxx
// SX-STUBS: nulllog.cpp sysinfo.cpp
// SX-REACH: split two-words
// SX-ASSUME: one entry; descriptions of two words whose lengths are symbolic, up to 100 characters, around the line limit
#include "cfgcheck.h"
#include <fstream>
#include <sstream>
using namespace kwiver::vital;
void sx_main()
{
  config_block_sptr c = config_block::empty_config();
  int a = sx_choice( "length of the first word", sx_thorough() ? 100 : 12 ) + ( sx_thorough() ? 0 : 66 ), b = sx_choice( "length of the second word", 14 );
  std::string sep = hx_stra( "separator", 1, 2, " \nx" ), tail = hx_str( "tail", 0, 1 );
  sx_assume( tail.empty() || tail[0] != 0 );
  std::string w1( a, 'p' ), w2( b, 'q' );
  c->set_value( "key", std::string( "val" ), w1 + sep + w2 + tail );
  std::ostringstream os;
  write_config( c, os );
  std::string t = os.str(), body;
  // every line but the entry is empty or a comment, comment lines keep to 80 columns unless a single word is longer, no trailing blanks
  size_t at = 0, entries = 0, comments = 0;
  while ( at < t.size() )
  {
    size_t e = t.find( '\n', at );
    sx_assert( e != std::string::npos );
    std::string l = t.substr( at, e - at );
    at = e + 1;
    if ( l == "key = val" ) { ++entries; continue; }
    if ( l.empty() ) continue;
    sx_assert( l[0] == '#' );
    ++comments;
    size_t words = 0;
    for ( size_t i = 1; i < l.size(); ++i ) if ( l[i] != ' ' && l[i-1] == ' ' ) ++words;
    sx_assert( l.size() <= 80 || words <= 1 );
    sx_assert( l[l.size()-1] != ' ' );
    for ( size_t i = 1; i < l.size(); ++i ) if ( l[i] != ' ' ) body += l[i];
    if ( words > 1 ) sx_reach( "two-words" );
  }
  sx_assert( entries == 1 );
  if ( comments > 1 ) sx_reach( "split" );
  // the words of the description all appear, in order
  std::string want;
  std::string full = w1 + sep + w2 + tail;
  for ( size_t i = 0; i < full.size(); ++i ) if ( full[i] != ' ' && full[i] != '\n' ) want += full[i];
  sx_assert( hx_eq( body, want ) );
  sx_file( "o.conf", t.data(), t.size() );
  config_block_sptr r = read_config_file( "o.conf" );
  sx_assert( r->available_values().size() == 1 && r->get_value< std::string >( "key" ) == "val" );
}
