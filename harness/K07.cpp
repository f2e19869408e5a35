// SX-SOURCES: vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-REACH: replace case words chars prefix last crop split lines escape append identifier output getline long compare
// SX-ASSUME: texts of arbitrary bytes without NUL up to the stated length, sets and patterns of up to two bytes
#include "hx.h"
#include <kwiversys/SystemTools.hxx>
#include <vector>
#include <sstream>
#include <memory>
typedef kwiversys::SystemTools ST;
typedef std::vector< std::string > parts;
static std::string text( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
static char up( char c ) { return ( c >= 'a' ) & ( c <= 'z' ) ? c - 32 : c; }
static char low( char c ) { return ( c >= 'A' ) & ( c <= 'Z' ) ? c + 32 : c; }
static bool big( char c ) { return ( c >= 'A' ) & ( c <= 'Z' ); }
static bool has( std::string const& set, char c ) { bool r = false; for ( size_t i = 0; i < set.size(); ++i ) r |= set[i] == c; return r; }
static bool at( std::string const& s, size_t i, std::string const& p ) { return i + p.size() <= s.size() && hx_eq( s.substr( i, p.size() ), p ); }
static void own( char* got, std::string const& want ) { std::unique_ptr< char[] > g( got ); sx_assert( g.get() && hx_eq( g.get(), want ) ); }
void sx_main()
{
  int n = sx_param( "text_bytes", 5, 6 );
  switch ( sx_choice( "helper", 14 ) )
  {
  case 0:
  {
    std::string s = text( "text", 0, n ), p = text( "pattern", 0, 3 ), w = text( "with", 0, p.size() > 2 ? 1 : 2 ), r;
    for ( size_t i = 0; i < s.size(); ) if ( p.size() && at( s, i, p ) ) { r += w; i += p.size(); } else r += s[i++];
    std::string g = s; int how = sx_choice( "how", 3 ); if ( how == 0 ) ST::ReplaceString( g, p, w ); else if ( how == 1 ) ST::ReplaceString( g, p.c_str(), w.c_str() ); else { if ( w.size() ) return; ST::ReplaceString( g, p.c_str(), (const char*)0 ); }
    sx_assert( hx_eq( g, r ) ); sx_reach( "replace" ); break;
  }
  case 1:
  {
    std::string s = text( "text", 0, n ), u = s, l = s, c = s; for ( size_t i = 0; i < s.size(); ++i ) { u[i] = up( s[i] ); l[i] = low( s[i] ); c[i] = i ? low( s[i] ) : up( s[i] ); }
    sx_assert( hx_eq( ST::UpperCase( s ), u ) && hx_eq( ST::LowerCase( s ), l ) && hx_eq( ST::Capitalized( s ), c ) ); sx_reach( "case" ); break;
  }
  case 2:
  {
    std::string s = text( "text", 0, n ), c = s, d = s, sp; for ( size_t i = 0; i < s.size(); ++i ) { bool first = ! i || hx_space( s[i-1] ); if ( first ) { c[i] = up( s[i] ); d[i] = low( s[i] ); } if ( i && big( s[i] ) && ! big( s[i-1] ) && ! hx_space( s[i-1] ) ) sp += ' '; sp += s[i]; }
    sx_assert( hx_eq( ST::CapitalizedWords( s ), c ) && hx_eq( ST::UnCapitalizedWords( s ), d ) && hx_eq( ST::AddSpaceBetweenCapitalizedWords( s ), sp ) ); sx_reach( "words" ); break;
  }
  case 3:
  {
    std::string s = text( "text", 0, n ), set = text( "set", 0, 2 ), c = text( "char", 1, 1 ), rem, rep = s, hex; size_t count = 0;
    for ( size_t i = 0; i < s.size(); ++i ) { count += s[i] == c[0]; if ( has( set, s[i] ) ) rep[i] = c[0]; else rem += s[i]; }
    sx_assert( ST::CountChar( s.c_str(), c[0] ) == count && ST::CountChar( 0, c[0] ) == 0 ); own( ST::RemoveChars( s.c_str(), set.c_str() ), rem ); sx_assert( ! ST::RemoveChars( 0, "a" ) );
    std::unique_ptr< char[] > b( new char[s.size() + 1] ); memcpy( b.get(), s.c_str(), s.size() + 1 ); sx_assert( ST::ReplaceChars( b.get(), set.c_str(), c[0] ) == b.get() && hx_eq( b.get(), rep ) ); sx_reach( "chars" ); break;
  }
  case 4:
  {
    std::string s = text( "text", 0, n ), p = text( "pattern", 0, 3 ); bool b = at( s, 0, p ), e = p.size() <= s.size() && at( s, s.size() - p.size(), p );
    sx_assert( ST::StringStartsWith( s, p.c_str() ) == b && ST::StringStartsWith( s.c_str(), p.c_str() ) == b && ST::StringEndsWith( s, p.c_str() ) == e && ST::StringEndsWith( s.c_str(), p.c_str() ) == e );
    sx_assert( ! ST::StringStartsWith( s, 0 ) && ! ST::StringEndsWith( s, 0 ) && ! ST::StringStartsWith( (const char*)0, p.c_str() ) && ! ST::StringEndsWith( (const char*)0, p.c_str() ) ); sx_reach( "prefix" ); break;
  }
  case 5:
  {
    std::string s = text( "text", 0, n ), p = text( "pattern", 0, 2 ); size_t i = s.size() + 1; while ( i > 0 && ! at( s, i - 1, p ) ) --i;
    const char* f = ST::FindLastString( s.c_str(), p.c_str() ); sx_assert( i ? f == s.c_str() + i - 1 : f == 0 ); sx_reach( "last" ); break;
  }
  case 6:
  {
    std::string s = text( "text", 0, n + 2 ); size_t m = sx_choice( "limit", n + 4 ); std::string c = ST::CropString( s, m );
    if ( m == 0 || m >= s.size() ) { sx_assert( hx_eq( c, s ) ); break; }
    sx_assert( c.size() == m ); size_t dots = m > 2 ? ( m - 2 < 3 ? m - 2 : 3 ) : 0, lo = dots < 2 ? m / 2 : m / 2 - 1, hi = lo + dots; // the middle gives way
    for ( size_t i = 0; i < m; ++i ) { char want = i < lo ? s[i] : i < hi ? '.' : s[s.size() - m + i]; sx_assert( c[i] == want ); } sx_reach( "crop" ); break;
  }
  case 7:
  {
    std::string s = text( "text", 0, n ), c = text( "separator", 1, 1 ); bool path = sx_choice( "path", 2 ) != 0; parts w; std::string q = s, x;
    if ( path && q.size() && q[0] == '/' ) { w.push_back( "/" ); q.erase( 0, 1 ); }
    for ( size_t i = 0; i < q.size(); ++i ) if ( q[i] == c[0] ) { w.push_back( x ); x.clear(); } else x += q[i];
    if ( s.size() ) w.push_back( x );
    std::vector< kwiversys::String > g = ST::SplitString( s, c[0], path ); sx_assert( g.size() == w.size() ); for ( size_t i = 0; i < w.size(); ++i ) sx_assert( hx_eq( g[i], w[i] ) );
    if ( path ) break;
    parts k, g2; x.clear(); for ( size_t i = 0; i < s.size(); ++i ) if ( s[i] == c[0] ) { k.push_back( x ); x.clear(); } else x += s[i]; bool full = x.empty(); if ( ! full ) k.push_back( x );
    sx_assert( ST::Split( s, g2, c[0] ) == full && g2.size() == k.size() ); for ( size_t i = 0; i < k.size(); ++i ) sx_assert( hx_eq( g2[i], k[i] ) ); sx_reach( "split" ); break;
  }
  case 8:
  {
    std::string s = text( "text", 0, n ), x; parts k, g( 1, "kept" ); for ( size_t i = 0; i < s.size(); ++i ) if ( s[i] == '\n' ) { if ( x.size() && x[x.size()-1] == '\r' ) x.resize( x.size() - 1 ); k.push_back( x ); x.clear(); } else x += s[i];
    bool full = x.empty(); if ( ! full ) k.push_back( x ); sx_assert( ST::Split( s, g ) == full && g.size() == k.size() + 1 && g[0] == "kept" ); for ( size_t i = 0; i < k.size(); ++i ) sx_assert( hx_eq( g[i+1], k[i] ) ); sx_reach( "lines" ); break;
  }
  case 9:
  {
    std::string s = text( "text", 0, n ), set = text( "set", 0, 2 ), e = text( "escape", 1, 1 ), w; for ( size_t i = 0; i < s.size(); ++i ) { if ( has( set, s[i] ) ) w += e[0]; w += s[i]; }
    sx_assert( hx_eq( ST::EscapeChars( s.c_str(), set.c_str(), e[0] ), w ) ); if ( set.empty() ) sx_assert( hx_eq( ST::EscapeChars( s.c_str(), 0 ), s ) && ST::EscapeChars( 0, "a" ).empty() ); sx_reach( "escape" ); break;
  }
  case 10:
  {
    std::string a = text( "first", 0, 2 ), b = text( "second", 0, 2 ), c = text( "third", 0, 2 ); int absent = sx_choice( "absent", 8 ); const char *pa = absent & 1 ? 0 : a.c_str(), *pb = absent & 2 ? 0 : b.c_str(), *pc = absent & 4 ? 0 : c.c_str();
    std::string w2 = ( pa ? a : "" ) + ( pb ? b : "" ); std::string w3 = w2 + ( pc ? c : "" );
    if ( pa || pb ) own( ST::AppendStrings( pa, pb ), w2 ); else sx_assert( ! ST::AppendStrings( pa, pb ) );
    if ( absent != 7 ) own( ST::AppendStrings( pa, pb, pc ), w3 ); else sx_assert( ! ST::AppendStrings( pa, pb, pc ) );
    if ( pa ) own( ST::DuplicateString( pa ), a ); sx_reach( "append" ); break;
  }
  case 11:
  {
    std::string s = text( "text", 0, n ), w, hex; if ( s.size() && s[0] >= '0' && s[0] <= '9' ) w = "_"; for ( size_t i = 0; i < s.size(); ++i ) { char c = s[i]; bool d = ( c >= '0' ) & ( c <= '9' ), ok = d | big( c ) | ( ( c >= 'a' ) & ( c <= 'z' ) ) | ( c == '_' ); w += ok ? c : '_'; if ( d || ( c >= 'A' && c <= 'F' ) ) hex += c; }
    sx_assert( hx_eq( ST::MakeCidentifier( s ), w ) && hx_eq( ST::MakeCindentifier( s ), w ) ); own( ST::RemoveCharsButUpperHex( s.c_str() ), hex ); sx_reach( "identifier" ); break;
  }
  case 12:
  {
    std::string s = text( "path", 0, n ), r, w; for ( size_t i = 0; i < s.size(); ++i ) if ( ! ( i > 1 && s[i] == '/' && s[i-1] == '/' ) ) r += s[i];
    for ( size_t i = 0; i < r.size(); ++i ) { if ( r[i] == ' ' && ! ( i && r[i-1] == '\\' ) ) w += '\\'; w += r[i]; }
    sx_assert( hx_eq( ST::ConvertToUnixOutputPath( s ), w ) && hx_eq( ST::ConvertToOutputPath( s ), w ) ); sx_reach( "output" ); break;
  }
  default:
  {
    std::string s = text( "text", 0, n ); if ( sx_choice( "compare", 2 ) )
    {
      std::string t = text( "other", 0, 2 ); if ( s.size() > 3 ) return; size_t i = 0; while ( i < s.size() && i < t.size() && low( s[i] ) == low( t[i] ) ) ++i;
      int a = i < s.size() ? low( s[i] ) : 0, b = i < t.size() ? low( t[i] ) : 0, g = ST::Strucmp( s.c_str(), t.c_str() ); sx_assert( ( a < b ) == ( g < 0 ) && ( a > b ) == ( g > 0 ) ); sx_reach( "compare" ); break;
    }
    // long lines pass the sizes buffers like to have
    int longer = sx_choice( "longer", 1 + sx_param( "long_lines", 2, 6 ) ); if ( longer ) { if ( s.size() > 3 ) return; s.insert( 0, 1020 + longer + ( longer > 3 ? 1020 : 0 ), 'x' ); }
    long limit = sx_choice( "limit", 4 ); limit = limit == 3 ? 1021 : limit ? limit : -1; if ( limit > 0 && ! longer && s.size() > 3 ) return;
    std::istringstream in( s ); std::string line = "before"; bool nl = false; size_t i = 0;
    for ( int k = 0; k <= (int)s.size() + 1; ++k )
    {
      std::string w; bool have = i < s.size(), end = false; for ( ; i < s.size() && ! end; ++i ) if ( s[i] == '\n' ) end = true; else w += s[i]; if ( w.size() && w[w.size()-1] == '\r' ) w.resize( w.size() - 1 ); if ( limit > 0 && (long)w.size() > limit ) w.resize( limit );
      sx_assert( ( limit < 0 ? ST::GetLineFromStream( in, line, &nl ) : ST::GetLineFromStream( in, line, &nl, limit ) ) == have && nl == end && hx_eq( line, w ) ); if ( ! have ) break;
    }
    if ( longer ) sx_reach( "long" );
    sx_reach( "getline" );
  }
  }
}
