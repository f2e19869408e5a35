// SX-SOURCES: vital/kwiversys/CommandLineArguments.cxx vital/kwiversys/SystemTools.cxx vital/kwiversys/RegularExpression.cxx vital/kwiversys/EncodingC*.c* vital/kwiversys/FStream.cxx vital/kwiversys/Directory.cxx vital/kwiversys/System.c vital/kwiversys/String.c
// SX-EXCLUDE: vital/kwiversys/SystemInformation.cxx
// SX-STUBS: sysinfo.cpp
// SX-REACH: variables flags vectors help long alias
// SX-ASSUME: numbers of up to three bytes, real numbers from a table; help texts of letters, blanks and tabs up to the stated length
#include "hx.h"
#include <kwiversys/CommandLineArguments.hxx>
#include <vector>
#include <memory>
typedef kwiversys::CommandLineArguments CLA;
static std::string text( const char* n, int lo, int hi ) { std::string s = hx_str( n, lo, hi ); for ( size_t i = 0; i < s.size(); ++i ) sx_assume( s[i] != 0 ); return s; }
static bool truth( std::string const& s ) { static const char* const t[] = { "1", "ON", "on", "On", "TRUE", "true", "True", "yes", "Yes", "YES" }; bool r = false; for ( auto x : t ) r |= hx_eq( s, x ); return r; }
static int number( std::string const& s ) { size_t i = 0; while ( i < s.size() && hx_space( s[i] ) ) ++i; bool neg = i < s.size() && s[i] == '-'; if ( i < s.size() && ( s[i] == '-' || s[i] == '+' ) ) ++i; int v = 0; while ( i < s.size() && ( s[i] >= '0' ) & ( s[i] <= '9' ) ) v = v * 10 + ( s[i++] - '0' ); return neg ? -v : v; }
static std::string squeeze( std::string const& s ) { std::string r; for ( size_t i = 0; i < s.size(); ++i ) if ( ! ( ( s[i] == ' ' ) | ( s[i] == '\t' ) | ( s[i] == '\n' ) ) ) r += s[i]; return r; }
static const char* const reals[] = { "1.5", "-2", "x", "", "3e2y" }; static const double real[] = { 1.5, -2, 0, 0, 300 };
void sx_main()
{
  switch ( sx_choice( "what", 4 ) )
  {
  case 0:
  {
    int d = sx_choice( "real", 5 ); std::string v = text( "value", 0, sx_param( "value_bytes", 3, 4 ) ); CLA p; bool b = sx_bool( "before" ); int i = 7; double x = 9; char* c = 0; if ( sx_bool( "held" ) ) { c = new char[3]; memcpy( c, "zz", 3 ); } std::string s = "old";
    p.AddArgument( "-b", CLA::EQUAL_ARGUMENT, &b, "h" ); p.AddArgument( "-i", CLA::SPACE_ARGUMENT, &i, "h" ); p.AddArgument( "-d", CLA::CONCAT_ARGUMENT, &x, "h" ); p.AddArgument( "-c", CLA::EQUAL_ARGUMENT, &c, "h" ); p.AddArgument( "-s", CLA::CONCAT_ARGUMENT, &s, "h" );
    std::string a = "-b=" + v, e = std::string( "-d" ) + reals[d], f = "-c=" + v, g = "-s" + v; int only = sx_choice( "only", 5 );
    p.Initialize(); if ( only == 0 ) p.ProcessArgument( a.c_str() ); if ( only == 1 ) { p.ProcessArgument( "-i" ); p.ProcessArgument( v.c_str() ); } if ( only == 2 ) p.ProcessArgument( e.c_str() ); if ( only == 3 ) p.ProcessArgument( f.c_str() ); if ( only == 4 ) p.ProcessArgument( g.c_str() );
    bool was = b, held = c != 0; sx_assert( p.Parse() == 1 );
    sx_assert( b == ( only == 0 ? truth( v ) : was ) && i == ( only == 1 ? number( v ) : 7 ) && x == ( only == 2 ? real[d] : 9 ) && hx_eq( s, only == 4 ? v : std::string( "old" ) ) );
    if ( only == 3 ) sx_assert( c && hx_eq( c, v ) ); else if ( held ) sx_assert( hx_eq( c, "zz" ) ); else sx_assert( ! c );
    delete [] c; sx_reach( "variables" ); break;
  }
  case 1:
  {
    CLA p; bool b = false; int i = 0; double x = 0; char* c = 0; std::string s; p.AddBooleanArgument( "-b", &b, "h" ); p.AddBooleanArgument( "-i", &i, "h" ); p.AddBooleanArgument( "-d", &x, "h" ); p.AddBooleanArgument( "-c", &c, "h" ); p.AddBooleanArgument( "-s", &s, "h" );
    static const char* const names[] = { "-b", "-i", "-d", "-c", "-s" }; bool on[5] = { false, false, false, false, false }; p.Initialize(); for ( int k = 0; k < 2; ++k ) { int o = sx_choice( "flag", 5 ); on[o] = true; p.ProcessArgument( names[o] ); }
    sx_assert( p.Parse() == 1 && b == on[0] && i == ( on[1] ? 1 : 0 ) && x == ( on[2] ? 1.0 : 0.0 ) && ( c != 0 ) == on[3] && ( ! c || hx_eq( c, "1" ) ) && hx_eq( s, on[4] ? "1" : "" ) ); delete [] c; sx_reach( "flags" ); break;
  }
  case 2:
  {
    CLA p; std::vector< bool > b; std::vector< int > i; std::vector< double > x; std::vector< char* > c; std::vector< std::string > s;
    p.AddArgument( "-b", CLA::MULTI_ARGUMENT, &b, "h" ); p.AddArgument( "-i", CLA::MULTI_ARGUMENT, &i, "h" ); p.AddArgument( "-d", CLA::MULTI_ARGUMENT, &x, "h" ); p.AddArgument( "-c", CLA::MULTI_ARGUMENT, &c, "h" ); p.AddArgument( "-s", CLA::MULTI_ARGUMENT, &s, "h" );
    static const char* const names[] = { "-b", "-i", "-d", "-c", "-s" }; int o = sx_choice( "vector", 5 ); std::vector< std::string > v; std::vector< double > dv; int n = sx_choice( "values", 3 ); p.Initialize(); p.ProcessArgument( names[o] );
    for ( int k = 0; k < n; ++k ) { if ( o == 2 ) { int d = sx_choice( "real", 5 ); v.push_back( reals[d] ); dv.push_back( real[d] ); } else { std::string t = text( "value", 0, 2 ); for ( auto e : names ) sx_assume( ! hx_eq( t, e ) ); v.push_back( t ); } p.ProcessArgument( v.back().c_str() ); }
    sx_assert( p.Parse() == 1 && b.size() == ( o == 0 ? n : 0u ) && i.size() == ( o == 1 ? n : 0u ) && x.size() == ( o == 2 ? n : 0u ) && c.size() == ( o == 3 ? n : 0u ) && s.size() == ( o == 4 ? n : 0u ) );
    for ( int k = 0; k < n; ++k ) switch ( o ) { case 0: sx_assert( b[k] == truth( v[k] ) ); break; case 1: sx_assert( i[k] == number( v[k] ) ); break; case 2: sx_assert( x[k] == dv[k] ); break; case 3: sx_assert( hx_eq( c[k], v[k] ) ); delete [] c[k]; break; default: sx_assert( hx_eq( s[k], v[k] ) ); }
    sx_reach( "vectors" ); break;
  }
  default:
  {
    static const char* const tails[] = { "", "opt", " opt", "=opt", " opt opt ..." };
    int type = sx_choice( "type", 5 ), length = sx_choice( "length", 4 ), line = sx_choice( "line", sx_param( "lines", 6, 12 ) ) + 9; static const int lens[] = { 1, 3, 60, 120 }; std::string name = "-" + std::string( lens[length], 'n' ), label = name + tails[type];
    std::string h = text( "help", 0, sx_param( "help_bytes", 4, 6 ) ); for ( size_t i = 0; i < h.size(); ++i ) sx_assume( ( h[i] == 'x' ) | ( h[i] == ' ' ) | ( h[i] == '\t' ) );
    std::unique_ptr< char[] > held( new char[h.size() + 1] ); memcpy( held.get(), h.c_str(), h.size() + 1 ); int seen = 0; CLA p; p.SetLineLength( line );
    p.AddArgument( name.c_str(), (CLA::ArgumentTypeEnum)type, &seen, held.get() ); std::string got = p.GetHelp();
    sx_assert( hx_eq( squeeze( got ), squeeze( label ) + squeeze( h ) ) && got.size() > label.size() + 2 && hx_eq( got.substr( 0, 3 + label.size() ), "\n  " + label ) );
    sx_assert( hx_eq( p.GetHelp( name.c_str() ), h ) && ! p.GetHelp( "-zz" ) );
    if ( length > 1 ) sx_reach( "long" );
    // lines keep to the length where the options leave room for the text
    size_t room = 4 + label.size(); if ( type != CLA::MULTI_ARGUMENT && room < (size_t)line ) { size_t w = 0; for ( size_t i = 0; i < got.size(); ++i ) { if ( got[i] == '\n' ) w = 0; else sx_assert( ++w <= (size_t)line ); } }
    // an option whose help is the name of another one shares that one's help
    std::string again = name + "2"; p.AddArgument( again.c_str(), CLA::NO_ARGUMENT, &seen, name.c_str() ); if ( ! h.empty() && ! hx_eq( h, name ) && ! hx_eq( h, again ) ) { sx_assert( hx_eq( p.GetHelp( again.c_str() ), h ) ); std::string both = squeeze( p.GetHelp() ); sx_assert( hx_eq( both, squeeze( label ) + again + squeeze( h ) ) ); sx_reach( "alias" ); }
    sx_reach( "help" );
  }
  }
}
