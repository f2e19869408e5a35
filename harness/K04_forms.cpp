// SX-SOURCES: vital/kwiversys/RegularExpression.cxx
// SX-REACH: set found absent copied many repeated optional again
// SX-ASSUME: patterns of up to three pieces from the stated table with any repetition, sets of the stated members, texts of arbitrary bytes
#include "regref.h"
#include <kwiversys/RegularExpression.hxx>
using kwiversys::RegularExpression;
static const char* const atoms[] = { "a", ".", "(a|bc)", "[^a]", "(a*b)", "((a)|b)", "bc", "(b)(.)", "[ab]", "(a)", "\\*" };
static const char* const mults[] = { "", "*", "+", "?" };
static std::string text( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
static void same( RegularExpression const& x, RMatch const& m ) { for ( int g = 0; g < 10; ++g ) { if ( m.from[g] < 0 ) sx_assert( x.match( g ).empty() ); else sx_assert( x.start( g ) == (size_t)m.from[g] && x.end( g ) == (size_t)m.to[g] ); } }
void sx_main()
{
  std::string pat; int n = sx_choice( "pieces", sx_param( "pieces", 2, 3 ) ) + 1, form = sx_choice( "form", 6 );
  if ( form == 4 )
  { // copies, comparison, nine groups and a tenth
    int k = 8 + sx_choice( "groups", 3 ); for ( int i = 0; i < k; ++i ) pat += "(.)"; RegularExpression x; sx_assert( x.compile( pat ) == ( k < 10 ) ); sx_reach( "many" ); if ( k == 10 ) return;
    std::string t = text( "text", 8, 9 ); bool f = x.find( t ); sx_assert( f == ( (int)t.size() >= k ) ); if ( f ) for ( int i = 1; i <= k; ++i ) sx_assert( x.start( i ) == (size_t)i - 1 && x.end( i ) == (size_t)i );
    return;
  }
  if ( form == 5 )
  { // sets, out of ranges, single characters and what has a meaning only at its place
    static const char* const members[] = { "a-c", "-", "]", "d", "^", "d-d" };
    pat = "["; if ( sx_bool( "not" ) ) pat += "^"; int k = sx_choice( "members", sx_param( "members", 3, 4 ) ) + 1;
    for ( int i = 0; i < k; ++i ) pat += members[sx_choice( "member", 6 )]; pat += "]"; pat += mults[sx_choice( "mult", sx_param( "set_mults", 2, 4 ) )];
    RParser ref( pat ); std::vector< RSeq > tree; bool ok = ref.parse( tree ); RegularExpression x( pat ); sx_assert( x.is_valid() == ok ); if ( ! ok ) return;
    std::string t = text( "text", 0, sx_param( "set_bytes", 1, 2 ) ); RMatch m( t ); bool f = m.find( tree ); sx_assert( x.find( t ) == f ); if ( f ) same( x, m ); sx_reach( "set" ); return;
  }
  if ( form == 1 ) pat = "^";
  for ( int i = 0; i < n; ++i ) { if ( i && form == 3 ) pat += "|"; pat += atoms[sx_choice( "atom", n > 1 ? sx_param( "atoms", 7, 11 ) : 11 )]; pat += mults[sx_choice( "mult", 4 )]; }
  if ( form == 2 ) pat += "$";
  RParser ref( pat ); std::vector< RSeq > tree; bool ok = ref.parse( tree ); RegularExpression x( pat ); sx_assert( x.is_valid() == ok ); if ( ! ok ) return;
  std::string t = text( "text", 0, sx_param( "text_bytes", 2, 3 ) + ( n == 1 ) - ( ( n > 1 ) & ( form == 1 || form == 2 ) ) ), other = "caab"; RMatch m( t ); bool f = m.find( tree );
  RegularExpression y( x ), z( "(z)" ); z.find( "yz" ); z = x; RegularExpression e, d( e ); z = z;
  sx_assert( y == x && z == x && ! ( y != x ) && ! d.is_valid() && y.deep_equal( x ) ); sx_reach( "copied" );
  sx_assert( x.find( t ) == f ); if ( f ) same( x, m );
  sx_assert( z.find( t.c_str() ) == f ); if ( f ) { same( z, m ); RegularExpression w( x ); same( w, m ); }
  // a search leaves nothing behind for the next one
  RMatch o( other ); bool fo = o.find( tree ); sx_assert( y.find( other ) == fo ); if ( fo ) same( y, o ); sx_assert( y.find( t ) == f ); if ( f ) same( y, m ); sx_reach( "again" );
  sx_assert( x.compile( "b" ) && x.find( "ab" ) && x.start() == 1 && x.end() == 2 && x.match( 0 ) == "b" && x != y );
  x.set_invalid(); sx_assert( ! x.is_valid() && ! x.find( t ) );
  if ( pat.find( '*' ) != std::string::npos ) sx_reach( "repeated" ); if ( pat.find( '?' ) != std::string::npos ) sx_reach( "optional" ); sx_reach( f ? "found" : "absent" );
}
