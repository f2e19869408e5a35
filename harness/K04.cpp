// SX-SOURCES: vital/kwiversys/RegularExpression.cxx
// SX-REACH: found absent refused group alternative
// SX-ASSUME: patterns and texts without NUL; pattern bytes arbitrary up to the stated length, a range's ends enumerated
#include "regref.h"
#include <kwiversys/RegularExpression.hxx>
using kwiversys::RegularExpression;
static std::string text( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
void sx_main()
{
  std::string pat = text( "pattern", 0, sx_param( "pattern_bytes", 3, 4 ) ); bool prev = false;
  for ( size_t i = 1; i + 1 < pat.size(); ++i ) { bool r = pat[i] == '-'; if ( r ) { sx_assume( ( (unsigned char)pat[i+1] < (unsigned char)pat[i-1] + 4 ) ); } }
  RParser ref( pat ); std::vector< RSeq > tree; bool ok = ref.parse( tree );
  RegularExpression x; sx_assert( ! x.is_valid() && ! x.find( "" ) ); sx_assert( x.compile( pat ) == ok && x.is_valid() == ok );
  if ( ! ok ) { sx_assert( ! x.find( "a" ) ); sx_reach( "refused" ); return; }
  std::string t = text( "text", 0, sx_param( "text_bytes", 2, 2 ) ); RMatch m( t ); bool f = m.find( tree );
  sx_assert( x.find( t.c_str() ) == f );
  if ( ! f ) { sx_reach( "absent" ); return; }
  sx_assert( x.start() == (size_t)m.from[0] && x.end() == (size_t)m.to[0] );
  for ( int g = 0; g < 10; ++g ) { if ( m.from[g] < 0 ) sx_assert( x.match( g ).empty() ); else { sx_assert( x.start( g ) == (size_t)m.from[g] && x.end( g ) == (size_t)m.to[g] && hx_eq( x.match( g ), t.substr( m.from[g], m.to[g] - m.from[g] ) ) ); if ( g ) sx_reach( "group" ); } }
  if ( tree.size() > 1 ) sx_reach( "alternative" );
  sx_reach( "found" );
}
