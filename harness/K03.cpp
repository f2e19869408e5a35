// SX-SOURCES: vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-REACH: split home collapse absolute relative same parts root subdirectory outside unix
// SX-ASSUME: paths of arbitrary bytes (no NUL) up to the stated lengths; a leading ~ only where stated, two leading slashes (network paths) not for relative paths and parent directories, runs of separators with a backslash in them not for conversion, no colon (drive letter) in subdirectory questions
#include "hx.h"
#include <kwiversys/SystemTools.hxx>
#include <vector>
#include <cstdlib>
typedef kwiversys::SystemTools ST;
typedef std::vector< std::string > parts;
static bool sep( char c ) { return ( c == '/' ) | ( c == '\\' ); }
static parts ref_split( std::string const& p )
{
  parts r; size_t i = 0;
  if ( p.size() > 0 && sep( p[0] ) ) { if ( p.size() > 1 && p[1] == p[0] ) { r.push_back( "//" ); i = 2; } else { r.push_back( "/" ); i = 1; } }
  else if ( p.size() > 1 && p[1] == ':' ) { if ( p.size() > 2 && sep( p[2] ) ) { r.push_back( std::string( 1, p[0] ) + ":/" ); i = 3; } else { r.push_back( p.substr( 0, 2 ) ); i = 2; } }
  else r.push_back( "" );
  if ( i == p.size() ) return r;
  std::string c; for ( ; i < p.size(); ++i ) if ( sep( p[i] ) ) { r.push_back( c ); c.clear(); } else c += p[i];
  r.push_back( c ); return r;
}
static void fold( parts& o, parts const& p )
{
  for ( size_t i = 1; i < p.size(); ++i )
    if ( p[i].size() == 2 && ( ( p[i][0] == '.' ) & ( p[i][1] == '.' ) ) ) { if ( o.size() > 1 ) o.pop_back(); }
    else if ( ! p[i].empty() && ! ( p[i].size() == 1 && p[i][0] == '.' ) ) o.push_back( p[i] );
}
static std::string ref_join( parts const& p ) { std::string r; for ( size_t i = 0; i < p.size(); ++i ) { if ( i > 1 ) r += '/'; r += p[i]; } return r; }
static parts ref_collapse( std::string const& p, std::string const& base )
{
  parts s = ref_split( p ), o; if ( s[0].empty() ) { parts b = ref_split( base ); o.push_back( b[0] ); fold( o, b ); } else o.push_back( s[0] );
  fold( o, s ); return o;
}
static std::string runs( std::string const& s ) { std::string r; for ( size_t i = 0; i < s.size(); ++i ) if ( ! ( r.size() && s[i] == '/' && r[r.size()-1] == '/' ) ) r += s[i]; return r; }
static std::string strip( std::string s ) { while ( s.size() > 1 && s[s.size()-1] == '/' && ! ( s.size() == 3 && s[1] == ':' ) ) s.resize( s.size() - 1 ); return s; }
static std::string path( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
static std::string plain( const char* n, int lo, int hi ) { std::string s = path( n, lo, hi ); if ( s.size() ) sx_assume( s[0] != '~' ); return s; }
static void tail( std::string const& s ) { for ( size_t i = 0; i < s.size(); ++i ) sx_assume( ( s[i] != ':' ) & ( s[i] != '~' ) & ( s[i] != '\\' ) ); if ( s.size() ) sx_assume( s[0] != '/' ); }
void sx_main()
{
  int n = sx_param( "path_bytes", 5, 6 );
  switch ( sx_choice( "operation", 7 ) )
  {
  case 0:
  {
    std::string p = plain( "path", 0, n ); parts c, w = ref_split( p ); ST::SplitPath( p, c, sx_choice( "home", 2 ) != 0 );
    sx_assert( c.size() == w.size() ); for ( size_t i = 0; i < w.size(); ++i ) sx_assert( hx_eq( c[i], w[i] ) );
    std::string u = p; for ( size_t i = 0; i < u.size(); ++i ) if ( u[i] == '\\' ) u[i] = '/';
    if ( w[0] == "//" || w[0] == "/" || true ) sx_assert( hx_eq( ST::JoinPath( c ), u ) );
    std::string root; const char* rest = ST::SplitPathRootComponent( p, &root ); sx_assert( hx_eq( root, w[0] ) && rest == p.c_str() + w[0].size() );
    sx_assert( ST::FileIsFullPath( p ) == ( p.size() && p[0] == '/' ) && ST::FileIsFullPath( p.c_str() ) == ST::FileIsFullPath( p ) );
    sx_reach( "split" ); break;
  }
  case 1:
  {
    static const char* homes[] = { "/h", "/h/k/", "/", "rel/a" }; const char* home = homes[sx_choice( "home", 4 )]; setenv( "HOME", home, 1 );
    std::string rest = path( "rest", 0, n - 2 ), p = rest.empty() && sx_bool( "bare" ) ? "~" : "~/" + rest;
    parts c; ST::SplitPath( p, c, false ); sx_assert( hx_eq( c[0], "~/" ) ); sx_assert( ST::FileIsFullPath( p ) && ST::FileIsFullPath( p.c_str() ) );
    parts o, h = ref_split( home ), r = ref_split( "/" + ( rest.empty() ? rest : "x/" + rest ) ); o.push_back( h[0] ); fold( o, h ); r.erase( r.begin(), r.begin() + ( rest.empty() ? 0 : 1 ) ); if ( rest.size() ) r[0] = ""; 
    fold( o, r ); if ( h[0].empty() ) return; // a home that is no full path
    sx_assert( hx_eq( ST::CollapseFullPath( p, "/other" ), ref_join( o ) ) ); sx_reach( "home" ); break;
  }
  case 2:
  {
    std::string base = "/" + path( "base", 0, n - 2 ), p = plain( "path", 0, n - 1 ); std::string want = ref_join( ref_collapse( p, base ) );
    sx_assert( hx_eq( sx_choice( "how", 2 ) ? ST::CollapseFullPath( p, base ) : ST::CollapseFullPath( p, base.c_str() ), want ) );
    sx_reach( "collapse" ); if ( p.size() && sep( p[0] ) ) { sx_assert( hx_eq( ST::CollapseFullPath( p ), want ) ); sx_reach( "absolute" ); } break;
  }
  case 3:
  {
    std::string a = path( "local", 0, n - 2 ), b = path( "remote", 0, n - 2 ); tail( a ); tail( b ); std::string l = "/" + a, r = "/" + b;
    std::string rel = ST::RelativePath( l, r ); parts pl = ref_collapse( l, "/" ), pr = ref_collapse( r, "/" ); size_t k = 1;
    while ( k < pl.size() && k < pr.size() && hx_eq( pl[k], pr[k] ) ) ++k;
    std::string want; for ( size_t i = k; i < pl.size(); ++i ) want += "../"; for ( size_t i = k; i < pr.size(); ++i ) { if ( i > k ) want += '/'; want += pr[i]; }
    sx_assert( hx_eq( rel, want ) ); sx_assert( hx_eq( ST::CollapseFullPath( rel, l ), ref_join( pr ) ) ); sx_reach( rel.empty() ? "same" : "relative" );
    sx_assert( ST::RelativePath( a, r ).empty() && ST::RelativePath( l, b ).empty() ); break;
  }
  case 4:
  {
    std::string f = plain( "file", 0, n ); size_t s = f.size(); while ( s > 0 && f[s-1] != '/' ) --s; std::string name = f.substr( s );
    sx_assert( hx_eq( ST::GetFilenameName( f ), name ) ); size_t d = 0, e = name.size(); while ( d < name.size() && name[d] != '.' ) ++d; while ( e > 0 && name[e-1] != '.' ) --e; e = e ? e - 1 : name.size();
    sx_assert( hx_eq( ST::GetFilenameExtension( f ), name.substr( d ) ) && hx_eq( ST::GetFilenameWithoutExtension( f ), name.substr( 0, d ) ) );
    sx_assert( hx_eq( ST::GetFilenameLastExtension( f ), name.substr( e ) ) && hx_eq( ST::GetFilenameWithoutLastExtension( f ), name.substr( 0, e ) ) );
    for ( size_t i = 0; i < f.size(); ++i ) if ( f[i] == '\\' ) return;
    if ( f.size() > 1 && f[0] == '/' && f[1] == '/' ) return;
    std::string t = strip( runs( f ) ); size_t c = t.size(); while ( c > 0 && t[c-1] != '/' ) --c;
    std::string want = c ? t.substr( 0, c - 1 ) : ""; if ( c && want.empty() ) { want = "/"; sx_reach( "root" ); } if ( c && want.size() == 2 && want[1] == ':' ) want += '/';
    sx_assert( hx_eq( ST::GetFilenamePath( f ), want ) ); sx_assert( hx_eq( ST::GetParentDirectory( f ), want ) ); sx_reach( "parts" ); break;
  }
  case 5:
  {
    std::string f = plain( "file", 0, n ), w; for ( size_t i = 0; i < f.size(); ++i ) { if ( i ) { sx_assume( ! ( sep( f[i] ) & ( f[i-1] == '\\' ) ) & ! ( ( f[i] == '\\' ) & ( f[i-1] == '/' ) ) ); } }
    for ( size_t i = 0; i < f.size(); ++i ) w += f[i] == '\\' && ! ( i + 1 < f.size() && f[i+1] == ' ' ) ? '/' : f[i];
    std::string g = f, x = runs( w ); if ( w.size() > 1 && w[0] == '/' && w[1] == '/' && w.find( "//", 1 ) == w.npos ) x = "/" + x; // two leading slashes may stay
    x = runs( strip( x ) ); ST::ConvertToUnixSlashes( g ); size_t i = 0; if ( g.size() > 1 && g[0] == '/' && g[1] == '/' ) { i = 1; sx_assert( w[0] == '/' && w[1] == '/' ); }
    sx_assert( hx_eq( g.substr( i ), x ) ); sx_reach( "unix" ); break;
  }
  default:
  {
    std::string s = plain( "inner", 0, n ), d = plain( "outer", 0, n - 1 ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( ( s[i] != '\\' ) & ( s[i] != ':' ) ); for ( size_t i = 0; i < d.size(); ++i ) sx_assume( ( d[i] != '\\' ) & ( d[i] != ':' ) );
    if ( s.size() > 1 ) sx_assume( ! ( ( s[0] == '/' ) & ( s[1] == '/' ) ) ); if ( d.size() > 1 ) sx_assume( ! ( ( d[0] == '/' ) & ( d[1] == '/' ) ) );
    std::string a = strip( runs( s ) ), b = strip( runs( d ) ); if ( b.size() && b[b.size()-1] != '/' ) b += '/';
    bool want = b.size() && a.size() > b.size() && hx_eq( a.substr( 0, b.size() ), b ); sx_assert( ST::IsSubDirectory( s, d ) == want ); sx_reach( want ? "subdirectory" : "outside" );
  }
  }
}
