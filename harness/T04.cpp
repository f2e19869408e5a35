// SX-SOURCES: vital/types/timestamp.cxx
// SX-REACH: by-time by-frame incomparable domains transitive
#include "hx.h"
#include <vital/types/timestamp.h>
using namespace kwiver::vital;
struct ref { bool ht, hf; int64_t t, f; int dom; };
static timestamp make( ref& r )
{
  r.ht = sx_bool( "has time" ); r.hf = sx_bool( "has frame" );
  r.t = (int64_t)sx_var( "time", 64 ); r.f = (int64_t)sx_var( "frame", 64 ); r.dom = (int)sx_var( "domain", 32 );
  if ( r.ht && r.hf && sx_bool( "constructed" ) ) { timestamp s( r.t, r.f ); s.set_time_domain_index( r.dom ); return s; }
  timestamp s; 
  if ( sx_bool( "was set before" ) ) { s.set_time_usec( r.f ).set_frame( r.t ).set_invalid(); }
  if ( r.ht ) s.set_time_usec( r.t );
  if ( r.hf ) s.set_frame( r.f );
  s.set_time_domain_index( r.dom );
  return s;
}
void sx_main()
{
  ref a, b, c;
  timestamp x = make( a ), y = make( b );
  sx_assert( x.has_valid_time() == a.ht && x.has_valid_frame() == a.hf && x.is_valid() == ( a.ht && a.hf ) );
  if ( a.ht ) sx_assert( x.get_time_usec() == a.t );
  if ( a.hf ) sx_assert( x.get_frame() == a.f );
  sx_assert( x.get_time_domain_index() == a.dom );
  bool bt = a.ht && b.ht, bf = a.hf && b.hf, cmp = a.dom == b.dom && ( bt || bf );
  int64_t p = bt ? a.t : a.f, q = bt ? b.t : b.f;
  sx_assert( ( x == y ) == ( cmp && p == q ) );
  sx_assert( ( x != y ) == ( cmp && p != q ) );
  sx_assert( ( x < y ) == ( cmp && p < q ) );
  sx_assert( ( x > y ) == ( cmp && p > q ) );
  sx_assert( ( x < y ) == ( y > x ) && ( x == y ) == ( y == x ) && ( x != y ) == ( y != x ) );
  if ( a.dom != b.dom ) sx_reach( "domains" );
  else if ( bt ) sx_reach( "by-time" ); else if ( bf ) sx_reach( "by-frame" ); else sx_reach( "incomparable" );
  timestamp z = make( c );
  // order is transitive among stamps that carry the same kind of information
  if ( a.ht == b.ht && b.ht == c.ht && a.hf == b.hf && b.hf == c.hf )
  {
    if ( x < y && y < z ) { sx_assert( x < z ); sx_reach( "transitive" ); }
    if ( x == y && y == z ) sx_assert( x == z );
  }
}
