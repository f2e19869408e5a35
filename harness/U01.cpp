// SX-REACH: empty-kept empty-dropped token appended
// SX-ASSUME: texts of up to 4 (6) arbitrary bytes, up to 2 arbitrary delimiter bytes
#include "hx.h"
#include <vital/util/tokenize.h>
#include <list>
static std::vector< std::string > oracle( std::string const& s, std::string const& d, bool trim )
{
  std::vector< std::string > o; std::string cur;
  for ( size_t i = 0; i <= s.size(); ++i )
  {
    bool cut = i == s.size();
    if ( ! cut ) for ( size_t j = 0; j < d.size(); ++j ) cut |= s[i] == d[j];
    if ( cut ) { if ( ! cur.empty() || ! trim ) o.push_back( cur ); cur.clear(); }
    else cur += s[i];
  }
  return o;
}
void sx_main()
{
  std::string s = hx_str( "text", 0, sx_param( "text_bytes", 5, 7 ) ), d = hx_str( "delimiters", 0, 2 );
  bool trim = sx_bool( "trim empty" );
  std::vector< std::string > t, want = oracle( s, d, trim );
  bool pre = sx_bool( "container holds an element" );
  if ( pre ) t.push_back( "first" );
  kwiver::vital::tokenize( s, t, d, trim );
  size_t off = pre ? 1 : 0;
  sx_assert( t.size() == want.size() + off );
  if ( pre ) { sx_assert( t[0] == "first" ); sx_reach( "appended" ); }
  for ( size_t i = 0; i < want.size(); ++i ) { sx_assert( hx_eq( t[i + off], want[i] ) ); if ( want[i].empty() ) sx_reach( "empty-kept" ); else sx_reach( "token" ); }
  if ( trim && want.empty() ) sx_reach( "empty-dropped" );
  // joining the pieces gives the text back
  if ( ! trim && ! d.empty() && ! pre )
  {
    size_t n = 0;
    for ( size_t i = 0; i < t.size(); ++i ) n += t[i].size();
    sx_assert( n + t.size() - 1 == s.size() );
  }
  // defaults: blanks separate, empty pieces are kept; a list works as well
  if ( pre || trim || ! d.empty() ) return;
  std::list< std::string > l; kwiver::vital::tokenize( s, l );
  std::vector< std::string > w2 = oracle( s, " ", false );
  sx_assert( l.size() == w2.size() );
  size_t i = 0;
  for ( std::list< std::string >::iterator it = l.begin(); it != l.end(); ++it, ++i ) sx_assert( hx_eq( *it, w2[i] ) );
}
