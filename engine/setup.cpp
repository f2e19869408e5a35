// locale with instrumented facets, so that formatted stream I/O of symbolic
// numbers runs through instrumented code
#include "sx.h"
#include <locale>
#include <iostream>
#include <istream>
#include <string>
#include <cstdio>
extern "C" void sx_setup(void){
  std::locale l(std::locale::classic(), new std::num_put<char>());
  std::locale m(l, new std::num_get<char>());
  std::locale::global(m);
  std::cin.imbue(m); std::cout.imbue(m); std::cerr.imbue(m); std::clog.imbue(m);
}

// libstdc++ carries hand-specialised versions of these for char inside the
// shared library; defining them here makes them part of the instrumented program
namespace std {
template<> basic_istream<char>& getline( basic_istream<char>& in, basic_string<char>& str, char delim )
{
  size_t n = 0; ios_base::iostate err = ios_base::goodbit;
  istream::sentry ok( in, true );
  if ( ok )
  {
    str.erase();
    int c = in.rdbuf()->sgetc();
    while ( n < str.max_size() && c != EOF && (char)c != delim ) { str += (char)c; ++n; c = in.rdbuf()->snextc(); }
    if ( c == EOF ) err |= ios_base::eofbit;
    else if ( (char)c == delim ) { ++n; in.rdbuf()->sbumpc(); }
    else err |= ios_base::failbit;
  }
  if ( ! n ) err |= ios_base::failbit;
  if ( err ) in.setstate( err );
  return in;
}
static inline bool sx_ws( char c ) { return ( c == ' ' ) | ( c == '\t' ) | ( c == '\n' ) | ( c == '\v' ) | ( c == '\f' ) | ( c == '\r' ); }
template<> basic_istream<char>& operator>>( basic_istream<char>& in, basic_string<char>& str )
{
  size_t n = 0; ios_base::iostate err = ios_base::goodbit;
  istream::sentry ok( in, false );
  if ( ok )
  {
    str.erase();
    streamsize w = in.width(); size_t lim = w > 0 ? (size_t)w : str.max_size();
    int c = in.rdbuf()->sgetc();
    while ( n < lim && c != EOF && ! sx_ws( (char)c ) ) { str += (char)c; ++n; c = in.rdbuf()->snextc(); }
    if ( n < lim && c == EOF ) err |= ios_base::eofbit;
    in.width( 0 );
  }
  if ( ! n ) err |= ios_base::failbit;
  if ( err ) in.setstate( err );
  return in;
}
template<> basic_istream<char>& basic_istream<char>::getline( char* s, streamsize n, char delim )
{
  _M_gcount = 0; ios_base::iostate err = ios_base::goodbit;
  sentry ok( *this, true );
  if ( ok )
  {
    int c = rdbuf()->sgetc();
    while ( _M_gcount + 1 < n && c != EOF && (char)c != delim ) { *s++ = (char)c; ++_M_gcount; c = rdbuf()->snextc(); }
    if ( c == EOF ) err |= ios_base::eofbit;
    else if ( (char)c == delim ) { ++_M_gcount; rdbuf()->sbumpc(); }
    else err |= ios_base::failbit;
  }
  if ( n > 0 ) *s = 0;
  if ( ! _M_gcount ) err |= ios_base::failbit;
  if ( err ) setstate( err );
  return *this;
}
template<> basic_istream<char>& basic_istream<char>::ignore( streamsize n )
{
  _M_gcount = 0; ios_base::iostate err = ios_base::goodbit;
  sentry ok( *this, true );
  if ( ok && n > 0 )
  {
    int c = rdbuf()->sgetc();
    while ( _M_gcount < n && c != EOF ) { ++_M_gcount; c = rdbuf()->snextc(); }
    if ( c == EOF ) err |= ios_base::eofbit;
  }
  if ( err ) setstate( err );
  return *this;
}
template<> basic_istream<char>& basic_istream<char>::ignore( streamsize n, int delim )
{
  _M_gcount = 0; ios_base::iostate err = ios_base::goodbit;
  sentry ok( *this, true );
  if ( ok && n > 0 )
  {
    int c = rdbuf()->sgetc();
    while ( _M_gcount < n && c != EOF && c != delim ) { ++_M_gcount; c = rdbuf()->snextc(); }
    if ( _M_gcount < n && c != EOF ) { ++_M_gcount; rdbuf()->sbumpc(); }
    else if ( c == EOF ) err |= ios_base::eofbit;
  }
  if ( err ) setstate( err );
  return *this;
}
}
