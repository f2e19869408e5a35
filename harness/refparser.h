// Independent reading of the documented configuration file format
// (vital/config/doc/config_file_format.md.dox), used as the oracle.
#ifndef REFPARSER_H
#define REFPARSER_H
#include "hx.h"
namespace ref {
struct entry { std::string key, val; bool ro; int line; std::string file; };
struct result
{
  bool error, ro_clash, quirk;      // quirk: a construct spread over two lines, nothing is claimed
  std::vector< entry > e;
  std::vector< std::pair< std::string, std::string > > local;
  std::vector< std::string > blocks;
  std::string ctx;
  result() : error( false ), ro_clash( false ), quirk( false ) {}
};
static inline bool alpha( char c ) { return ( ( c >= 'a' ) & ( c <= 'z' ) ) | ( ( c >= 'A' ) & ( c <= 'Z' ) ); }
static inline bool wordc( char c ) { return alpha( c ) | ( ( c >= '0' ) & ( c <= '9' ) ) | ( c == '-' ) | ( c == '.' ) | ( c == ':' ) | ( c == '/' ) | ( c == '_' ); }
static inline std::string word( std::string const& s )
{
  size_t n = 0;
  if ( s.empty() || ! alpha( s[0] ) ) return "";
  while ( n < s.size() && wordc( s[n] ) ) ++n;
  while ( n > 1 && s[n-1] == ':' ) --n;
  return s.substr( 0, n );
}
static inline size_t flag( std::string const& s )   // length of a leading flag list, 0 if none
{
  if ( s.size() < 3 || s[0] != '[' ) return 0;
  size_t n = 1;
  while ( n < s.size() && ( alpha( s[n] ) | ( s[n] == ',' ) ) ) ++n;
  return ( n > 1 && n < s.size() && s[n] == ']' ) ? n + 1 : 0;
}
static inline char up( char c ) { return ( c >= 'a' && c <= 'z' ) ? c - 32 : c; }
static inline entry* find( result& r, std::string const& k ) { for ( size_t i = 0; i < r.e.size(); ++i ) if ( hx_eq( r.e[i].key, k ) ) return &r.e[i]; return 0; }
typedef std::string ( *includer )( std::string const& name );   // content of an included file
// dir: directory of the file, expand: macro expansion of values
template < class Expand >
static void parse( result& r, std::string const& text, std::string const& file, std::string const& dir, Expand expand )
{
  size_t at = 0; int lineno = 0;
  while ( at < text.size() )
  {
    size_t nl = at;
    while ( nl < text.size() && text[nl] != '\n' ) ++nl;
    std::string l = text.substr( at, nl - at );
    at = nl + 1; ++lineno;
    size_t h = 0;
    while ( h < l.size() && l[h] != '#' ) ++h;
    l = hx_trim( l.substr( 0, h ) );
    if ( l.empty() ) continue;
    std::string w = word( l );
    if ( w.empty() ) { r.error = true; continue; }
    std::string rest = hx_trim( l.substr( w.size() ) );
    bool rel = false;
    if ( w == "block" )
    {
      if ( rest.empty() ) { r.quirk = true; return; }
      std::string n = word( rest );
      if ( n.empty() ) { r.error = true; continue; }
      r.blocks.push_back( r.ctx ); r.ctx += n + ":";
      continue;
    }
    if ( w == "endblock" )
    {
      if ( r.blocks.empty() ) { r.error = true; return; }
      r.ctx = r.blocks.back(); r.blocks.pop_back();
      continue;
    }
    if ( w == "relativepath" )
    {
      if ( rest.empty() ) { r.quirk = true; return; }
      rel = true; w = word( rest );
      if ( w.empty() ) { r.error = true; continue; }
      rest = hx_trim( rest.substr( w.size() ) );
    }
    bool ro = false;
    for ( ;; )
    {
      if ( rest.empty() ) { r.quirk = true; return; }
      size_t f = flag( rest );
      if ( ! f ) break;
      if ( f == 4 && up( rest[1] ) == 'R' && up( rest[2] ) == 'O' ) ro = true; else r.error = true;
      rest = hx_trim( rest.substr( f ) );
    }
    if ( rest[0] == '=' )
    {
      std::string v = expand( r, hx_trim( rest.substr( 1 ) ) );
      if ( rel ) v = dir + "/" + v;
      v = hx_trim( v );
      entry* e = find( r, r.ctx + w );
      if ( e && e->ro ) { r.error = r.ro_clash = true; return; }
      if ( ! e ) { entry n; n.key = r.ctx + w; n.ro = false; r.e.push_back( n ); e = &r.e.back(); }
      e->val = v; e->line = lineno; e->file = file; if ( ro ) e->ro = true;
    }
    else if ( rest.size() >= 2 && rest[0] == ':' && rest[1] == '=' )
    {
      std::string v = expand( r, hx_trim( rest.substr( 2 ) ) );
      size_t i = 0;
      while ( i < r.local.size() && ! hx_eq( r.local[i].first, w ) ) ++i;
      if ( i == r.local.size() ) r.local.push_back( std::make_pair( w, v ) ); else r.local[i].second = v;
    }
    else r.error = true;
  }
}
}
#endif
