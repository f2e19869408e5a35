// Reference for the regular expressions: parsed into a tree, matched by trying
// everything in order of preference (leftmost, first alternative, as many as possible).
#include "hx.h"
#include <functional>
#include <vector>
struct RNode;
typedef std::vector< RNode > RSeq;
struct RNode { char kind; char ch; std::string set; bool neg; std::vector< RSeq > alts; int group; char mult; };
struct RParser
{
  std::string s; size_t p; int groups; bool bad;
  RParser( std::string const& t ) : s( t ), p( 0 ), groups( 0 ), bad( false ) {}
  char cur() const { return p < s.size() ? s[p] : 0; }
  static bool mult( char c ) { return ( c == '*' ) | ( c == '+' ) | ( c == '?' ); }
  static bool meta( char c ) { return mult( c ) | ( c == '^' ) | ( c == '$' ) | ( c == '.' ) | ( c == '[' ) | ( c == '(' ) | ( c == ')' ) | ( c == '|' ) | ( c == '\\' ); }
  static bool width( std::vector< RSeq > const& a ) { for ( auto const& q : a ) { bool w = false; for ( auto const& n : q ) w |= width( n ); if ( ! w ) return false; } return true; }
  static bool width( RNode const& n ) { if ( ( n.mult == '*' ) | ( n.mult == '?' ) ) return false; if ( n.kind == '^' || n.kind == '$' ) return false; return n.kind != '(' || width( n.alts ); }
  void atom( RNode& n )
  {
    char c = s[p++];
    if ( c == '^' || c == '$' || c == '.' ) { n.kind = c; return; }
    if ( c == '[' )
    {
      n.kind = '['; n.neg = cur() == '^'; if ( n.neg ) ++p;
      if ( cur() == ']' || cur() == '-' ) n.set += s[p++];
      while ( p < s.size() && s[p] != ']' )
      {
        if ( s[p] != '-' ) { n.set += s[p++]; continue; }
        ++p; if ( p == s.size() || s[p] == ']' ) { n.set += '-'; continue; }
        int lo = (unsigned char)s[p-2], hi = (unsigned char)s[p]; if ( lo > hi ) { bad = true; return; }
        lo = sx_concretize( lo ); hi = sx_concretize( hi ); for ( int k = lo + 1; k <= hi; ++k ) n.set += (char)k; ++p;
      }
      if ( p == s.size() ) { bad = true; return; }
      ++p; return;
    }
    if ( c == '(' ) { if ( ++groups > 9 ) { bad = true; return; } n.kind = '('; n.group = groups; alternatives( n.alts ); if ( bad || cur() != ')' ) { bad = true; return; } ++p; return; }
    if ( mult( c ) ) { bad = true; return; }
    if ( c == '\\' ) { if ( p == s.size() ) { bad = true; return; } c = s[p++]; }
    n.kind = 'c'; n.ch = c;
  }
  void sequence( RSeq& q )
  {
    while ( ! bad && p < s.size() && s[p] != '|' && s[p] != ')' )
    {
      RNode n; n.kind = 0; n.ch = 0; n.neg = false; n.group = 0; n.mult = 0; atom( n ); if ( bad ) return;
      char m = cur(); if ( m && mult( m ) ) { if ( m != '?' && ! width( n ) ) { bad = true; return; } n.mult = m == '*' ? '*' : m == '+' ? '+' : '?'; ++p; if ( p < s.size() && mult( s[p] ) ) { bad = true; return; } }
      q.push_back( n );
    }
  }
  void alternatives( std::vector< RSeq >& a ) { a.push_back( RSeq() ); sequence( a.back() ); while ( ! bad && cur() == '|' ) { ++p; a.push_back( RSeq() ); sequence( a.back() ); } }
  bool parse( std::vector< RSeq >& a ) { alternatives( a ); return ! bad && p == s.size(); }
};
struct RMatch
{
  typedef std::function< bool( size_t ) > K;
  std::string const& t; int from[10], to[10];
  RMatch( std::string const& x ) : t( x ) {}
  bool alts( std::vector< RSeq > const& a, size_t p, K const& k ) { for ( auto const& q : a ) if ( seq( q, 0, p, k ) ) return true; return false; }
  bool seq( RSeq const& q, size_t i, size_t p, K const& k )
  {
    if ( i == q.size() ) return k( p );
    RNode const& n = q[i]; K rest = [&q, i, &k, this]( size_t r ) { return seq( q, i + 1, r, k ); };
    switch ( n.mult ) { case '*': return rep( n, p, 0, 1000, rest ); case '+': return rep( n, p, 1, 1000, rest ); case '?': return rep( n, p, 0, 1, rest ); default: return one( n, p, rest ); }
  }
  bool rep( RNode const& n, size_t p, int lo, int hi, K const& k )
  {
    if ( hi > 0 && one( n, p, [&n, lo, hi, &k, this]( size_t r ) { return rep( n, r, lo - 1, hi - 1, k ); } ) ) return true;
    return lo <= 0 && k( p );
  }
  bool one( RNode const& n, size_t p, K const& k )
  {
    switch ( n.kind )
    {
    case '^': return p == 0 && k( p );
    case '$': return p == t.size() && k( p );
    case '(':
      return alts( n.alts, p, [&n, p, &k, this]( size_t r ) { int f = from[n.group], e = to[n.group]; from[n.group] = p; to[n.group] = r; if ( k( r ) ) return true; from[n.group] = f; to[n.group] = e; return false; } );
    default:
    {
      if ( p >= t.size() ) return false;
      bool ok = n.kind == '.'; if ( n.kind == 'c' ) ok = t[p] == n.ch; if ( n.kind == '[' ) { bool in = false; for ( char c : n.set ) in |= c == t[p]; ok = in != n.neg; }
      return ok && k( p + 1 );
    }
    }
  }
  bool find( std::vector< RSeq > const& a )
  {
    for ( size_t s = 0; s <= t.size(); ++s )
    {
      for ( int g = 0; g < 10; ++g ) from[g] = to[g] = -1;
      if ( alts( a, s, [this]( size_t r ) { to[0] = r; return true; } ) ) { from[0] = s; return true; }
    }
    return false;
  }
};
