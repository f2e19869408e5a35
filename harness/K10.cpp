// SX-SOURCES: vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx
// SX-STUBS: sysinfo.cpp
// SX-REACH: differ same long missing copied into-directory new-directory kept refused signature no-signature binary text unknown length located deeper not-located entries
// SX-ASSUME: files of up to the stated number of arbitrary bytes, also behind equal beginnings that fill the block they are compared and copied in; three sets of permissions; everything in a scratch directory
#include "hx.h"
#include <kwiversys/SystemTools.hxx>
#include <kwiversys/Directory.hxx>
#include <fstream>
#include <algorithm>
#include <sys/stat.h>
typedef kwiversys::SystemTools ST;
static std::string content( std::string const& path ) { std::ifstream f( path.c_str(), std::ios::binary ); sx_assert( f.good() ); std::string s; char b[5000]; f.read( b, sizeof b ); s.assign( b, (size_t)f.gcount() ); return s; }
static void put( std::string const& path, std::string const& s, int mode ) { sx_file( path.c_str(), s.data(), s.size() ); sx_assert( chmod( path.c_str(), mode ) == 0 ); }
static bool there( std::string const& p ) { struct stat s; return stat( p.c_str(), &s ) == 0; }
static int mode_of( std::string const& p ) { struct stat s; if ( stat( p.c_str(), &s ) ) return -1; return s.st_mode & 07777; }
void sx_main()
{
  std::string d = sx_scratch(), a = d + "/sx_source_file.dat", b = d + "/sx_target_file.dat";
  switch ( sx_choice( "what", 6 ) )
  {
  case 0:
  {
    int n = sx_param( "file_bytes", 3, 5 ); std::string lead;
    if ( sx_choice( "long", 2 ) ) { lead.assign( 4094 + sx_choice( "block", 4 ), 'x' ); n = 2; sx_reach( "long" ); }
    std::string x = lead + hx_str( "source", 0, n ), y = lead + hx_str( "target", 0, n );
    put( a, x, 0600 ); put( b, y, 0600 );
    bool same = hx_eq( x, y ); if ( x.size() != y.size() ) same = false;
    sx_assert( ST::FilesDiffer( a, b ) == ! same ); sx_reach( same ? "same" : "differ" );
    sx_assert( ST::FilesDiffer( a, d + "/sx_no_file" ) && ST::FilesDiffer( d + "/sx_no_file", a ) && ! ST::FilesDiffer( a, a ) ); sx_reach( "missing" );
    sx_assert( ST::FileLength( a ) == x.size() ); sx_reach( "length" );
    break;
  }
  case 1: case 2:
  {
    int how = sx_choice( "how", 3 ); // always, if different, by flag
    static const int modes[3] = { 0600, 0444, 0755 }; int ma = modes[sx_choice( "permissions", 3 )];
    int n = sx_param( "copied_bytes", 3, 5 ); std::string lead; if ( sx_choice( "long", 2 ) ) { lead.assign( 4095 + sx_choice( "block", 3 ), 'y' ); n = 2; }
    std::string x = lead + hx_str( "source", 0, n ); put( a, x, ma );
    int to = sx_choice( "destination", 4 ); // a file, nothing, a directory, a file in a directory that is not there
    std::string target = b, dest = b, y; bool same = false;
    if ( to == 0 ) { y = lead + hx_str( "target", 0, n ); put( b, y, 0640 ); same = x.size() == y.size() && hx_eq( x, y ); }
    else if ( to == 2 ) { dest = d + "/sx_dir"; sx_assert( mkdir( dest.c_str(), 0700 ) == 0 ); target = dest + "/sx_source_file.dat"; sx_reach( "into-directory" ); }
    else if ( to == 3 ) { dest = target = d + "/sx_new/sx_newer/sx_file"; sx_reach( "new-directory" ); }
    bool always = how == 0 || ( how == 2 && sx_choice( "flag", 2 ) );
    bool missing = sx_choice( "no source", 2 ); std::string src = missing ? d + "/sx_no_file" : a;
    bool ok = how == 0 ? ST::CopyFileAlways( src, dest ) : how == 1 ? ST::CopyFileIfDifferent( src, dest ) : ST::CopyAFile( src, dest, always );
    sx_assert( ok == ! missing );
    if ( missing ) { sx_assert( to == 0 ? hx_eq( content( b ), y ) && mode_of( b ) == 0640 : ! there( target ) ); sx_reach( "refused" ); }
    else
    {
      std::string z = content( target ); sx_assert( z.size() == x.size() && hx_eq( z, x ) );
      if ( same && ! always ) { sx_assert( mode_of( target ) == 0640 ); sx_reach( "kept" ); } else sx_assert( mode_of( target ) == ma );
      sx_reach( "copied" );
    }
    sx_assert( hx_eq( content( a ), x ) && mode_of( a ) == ma );
    break;
  }
  case 3:
  {
    std::string x = hx_str( "file", 0, sx_param( "signed_bytes", 3, 4 ) ), s = hx_str( "signature", 0, 2 ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 );
    put( a, x, 0600 ); long at = sx_choice( "offset", 5 );
    bool want = s.empty() || (size_t)at + s.size() <= x.size(); if ( want && ! s.empty() ) want = hx_eq( x.substr( at, s.size() ), s );
    sx_assert( ST::FileHasSignature( a.c_str(), s.c_str(), at ) == want ); sx_reach( want ? "signature" : "no-signature" );
    if ( at == 0 ) sx_assert( ST::FileHasSignature( a.c_str(), s.c_str() ) == want );
    sx_assert( ! ST::FileHasSignature( b.c_str(), s.c_str() ) && ! ST::FileHasSignature( 0, s.c_str() ) && ! ST::FileHasSignature( a.c_str(), 0 ) );
    break;
  }
  case 4:
  {
    std::string x = hx_str( "file", 0, sx_param( "judged_bytes", 4, 6 ) ); put( a, x, 0600 );
    unsigned long len = sx_choice( "length", 4 ); len = len == 3 ? 256 : len + 1; static const double limits[4] = { 0.05, 0.5, 1, 0 }; double limit = limits[sx_choice( "limit", 4 )];
    size_t n = std::min< size_t >( len, x.size() ), bin = 0;
    for ( size_t i = 0; i < n; ++i ) { unsigned char c = x[i]; bool t = ( ( c >= 32 ) & ( c <= 127 ) ) | ( c == '\n' ) | ( c == '\r' ) | ( c == '\t' ); if ( ! t ) ++bin; }
    ST::FileTypeEnum want = n == 0 ? ST::FileTypeUnknown : (double)bin / (double)n >= limit ? ST::FileTypeBinary : ST::FileTypeText;
    sx_assert( ST::DetectFileType( a.c_str(), len, limit ) == want );
    sx_reach( want == ST::FileTypeUnknown ? "unknown" : want == ST::FileTypeBinary ? "binary" : "text" );
    sx_assert( ST::DetectFileType( 0 ) == ST::FileTypeUnknown && ST::DetectFileType( a.c_str(), 5, -1 ) == ST::FileTypeUnknown && ST::DetectFileType( d.c_str() ) == ST::FileTypeUnknown && ST::DetectFileType( b.c_str() ) == ST::FileTypeUnknown );
    break;
  }
  default:
  {
    // a tree with the file at one of several places
    static const char* dirs[] = { "/p", "/p/q", "/p/q/r", "/p/r" }; for ( const char* x : dirs ) sx_assert( mkdir( ( d + x ).c_str(), 0700 ) == 0 );
    bool in[5]; static const char* places[5] = { "/f", "/p/f", "/p/q/f", "/p/q/r/f", "/p/r/f" }; int count = 0;
    for ( int i = 0; i < 5; ++i ) { in[i] = sx_choice( "present", 2 ); if ( in[i] ) { put( d + places[i], "1", 0600 ); ++count; } }
    kwiversys::Directory list; sx_assert( list.Load( d + "/p" ) );
    std::vector< std::string > got, want; for ( unsigned long i = 0; i < list.GetNumberOfFiles(); ++i ) got.push_back( list.GetFile( i ) );
    want.push_back( "." ); want.push_back( ".." ); want.push_back( "q" ); want.push_back( "r" ); if ( in[1] ) want.push_back( "f" );
    std::sort( got.begin(), got.end() ); std::sort( want.begin(), want.end() ); sx_assert( got == want && list.GetFile( got.size() ) == 0 && d + "/p" == list.GetPath() );
    sx_assert( kwiversys::Directory::GetNumberOfFilesInDirectory( d + "/p" ) == want.size() );
    sx_reach( "entries" );
    static const char* names[3] = { "f", "r/f", "/p/q/r/f" }; int name = sx_choice( "name", 3 ); bool harder = sx_choice( "harder", 2 );
    int from = sx_choice( "from", 3 ); std::string start = d + ( from == 0 ? "/p" : from == 1 ? "/p/" : "/p/f" );
    std::string found = "untouched", expect = "untouched"; std::string base = from == 1 ? start : d + "/p";
    std::string slash = from == 1 ? "" : "/";
    bool ok = true;
    if ( in[1] ) expect = base + slash + "f";
    else if ( harder && name == 1 && in[4] ) expect = base + slash + "r/f";
    else if ( harder && name == 2 && in[4] ) expect = base + slash + "r/f";
    else if ( harder && name == 2 && in[3] ) expect = base + slash + "q/r/f";
    else ok = false;
    sx_assert( ST::LocateFileInDir( names[name], start.c_str(), found, harder ) == ok );
    if ( ok ) { while ( found.find( "//" ) != std::string::npos ) found.erase( found.find( "//" ), 1 ); while ( expect.find( "//" ) != std::string::npos ) expect.erase( expect.find( "//" ), 1 ); }
    sx_assert( found == expect ); sx_reach( ! ok ? "not-located" : in[1] ? "located" : "deeper" );
    found = "x"; sx_assert( ! ST::LocateFileInDir( 0, start.c_str(), found, 1 ) && ! ST::LocateFileInDir( "f", 0, found, 1 ) && found == "x" );
  }
  }
}
