// SX-SOURCES: kwsys:vital/kwiversys/Base64.c
// SX-REACH: map multimap set multiset grown cleared range-erased range-inserted copied assigned swapped indexed text-keys own-key
// SX-ASSUME: integer keys 0 to 5 under seven collision patterns of the hash function (none, all, before or after growth only, pairs, huge values), arbitrary values; histories from an empty table or one that is full before growth; texts of up to the stated length as keys under the default hash
#include "hx.h"
#include <kwsys/hash_map.hxx>
#include <kwsys/hash_set.hxx>
#include <utility>
#include <type_traits>
#include <new>
static int pattern;
struct hasher { size_t operator()( int k ) const
{
  switch ( pattern ) { case 0: return k; case 1: return 3; case 2: return k * 5; case 3: return k * 11; case 4: return k % 2; case 5: return ~(size_t)k; default: return k < 3 ? 4 : 4 + 55 * k; }
} };
typedef std::vector< std::pair< int, int > > model;
struct mapt { typedef kwsys::hash_map< int, int, hasher > T; enum { uniq = 1, pairs = 1 }; };
struct mmapt { typedef kwsys::hash_multimap< int, int, hasher > T; enum { uniq = 0, pairs = 1 }; };
struct sett { typedef kwsys::hash_set< int, hasher > T; enum { uniq = 1, pairs = 0 }; };
struct msett { typedef kwsys::hash_multiset< int, hasher > T; enum { uniq = 0, pairs = 0 }; };
static int const& key_of( std::pair< const int, int > const& p ) { return p.first; }
static int const& key_of( int const& k ) { return k; }
static int value_of( std::pair< const int, int > const& p ) { return p.second; }
static int value_of( int ) { return 0; }
static void put( std::pair< const int, int >* p, int k, int v ) { new ( p ) std::pair< const int, int >( k, v ); }
static void put( int* p, int k, int ) { *p = k; }
template < typename V > struct made { V v; made( int k, int w ) : v( make( k, w, (V*)0 ) ) {} static V make( int k, int w, std::pair< const int, int >* ) { return V( k, w ); } static V make( int k, int, int* ) { return V( k ); } };
static bool inserted( bool b ) { return b; }
template < typename I > static bool done( std::pair< I, bool > const& r ) { return r.second; }
template < typename I > static bool done( I const& ) { return true; }
template < typename I > static I place( std::pair< I, bool > const& r ) { return r.first; }
template < typename I > static I place( I const& r ) { return r; }
static int find( model const& m, int k ) { for ( size_t i = 0; i < m.size(); ++i ) if ( m[i].first == k ) return (int)i; return -1; }
static int number( model const& m, int k ) { int n = 0; for ( size_t i = 0; i < m.size(); ++i ) n += m[i].first == k; return n; }
static void take( model& m, int k, int v ) { for ( size_t i = 0; i < m.size(); ++i ) if ( m[i].first == k && m[i].second == v ) { m.erase( m.begin() + i ); return; } sx_fail( "an element that was never added" ); }
template < typename C > static void compare( C& t, model const& m )
{
  sx_assert( t.size() == m.size() && t.empty() == m.empty() );
  model left = m; size_t n = 0;
  for ( auto it = t.begin(); it != t.end(); ++it, ++n ) { sx_assert( n < m.size() ); take( left, key_of( *it ), value_of( *it ) ); }
  sx_assert( left.empty() );
  size_t all = 0; for ( size_t b = 0; b < t.bucket_count(); ++b ) all += t.elems_in_bucket( b );
  sx_assert( all == m.size() );
  for ( int k = 0; k < 7; ++k )
  {
    int c = number( m, k );
    sx_assert( (int)t.count( k ) == c );
    auto f = t.find( k ); sx_assert( ( f != t.end() ) == ( c > 0 ) ); if ( c ) sx_assert( key_of( *f ) == k );
    auto r = t.equal_range( k );
    int d = 0; for ( auto it = r.first; it != r.second; it++, ++d ) { sx_assert( d < c && key_of( *it ) == k ); }
    sx_assert( d == c );
  }
}
template < typename C > static void compare_all( C& t, model const& m ) { compare( t, m ); compare( const_cast< C const& >( t ), m ); }
template < typename K, typename T > static void index( K, T& t, model& m, int k, int v ) {}
static void index( mapt, mapt::T& t, model& m, int k, int v )
{
  int i = find( m, k ); int& r = t[k];
  if ( i < 0 ) { sx_assert( r == 0 ); m.push_back( std::make_pair( k, v ) ); } else { sx_assert( r == m[i].second ); m[i].second = v; }
  r = v; sx_reach( "indexed" );
}
template < typename K > static void add( K, typename K::T& t, model& m, int k, int v, bool noresize )
{
  typedef typename K::T::value_type V; made< V > e( k, v ); if ( ! K::pairs ) v = 0;
  size_t before = t.bucket_count();
  bool is_new = ! K::uniq || find( m, k ) < 0;
  auto r = noresize ? t.insert_noresize( e.v ) : t.insert( e.v );
  sx_assert( done( r ) == is_new && key_of( *place( r ) ) == k );
  if ( is_new ) { sx_assert( value_of( *place( r ) ) == v ); m.push_back( std::make_pair( k, v ) ); }
  else sx_assert( value_of( *place( r ) ) == m[find( m, k )].second );
  if ( noresize ) sx_assert( t.bucket_count() == before ); else sx_assert( t.bucket_count() >= t.size() );
  if ( t.bucket_count() > before ) sx_reach( "grown" );
}
template < typename K > static void history( K kind )
{
  typedef typename K::T T; typedef typename T::value_type V;
  T t( 1 ); model m;
  pattern = sx_choice( "pattern", 7 );
  int start = sx_choice( "start", 2 ) ? 5 : 0;
  for ( int i = 0; i < start; ++i ) add( kind, t, m, K::uniq ? i : i / 2, 10 + i, false );
  if ( start && ! K::uniq ) { /* two of each of two keys */ sx_assert( t.count( 0 ) == 2 ); }
  bool deep = sx_thorough() || pattern == 1 || pattern == 2; int steps = deep ? sx_param( "operations", 2, 2 ) : 1;
  static const int keys[4] = { 0, 1, 2, 5 };
  for ( int s = 0; s < steps; ++s )
  {
    int op = sx_choice( "operation", s ? 5 : std::is_same< K, mapt >::value ? 10 : 9 );
    int k = op < 4 || op > 7 ? keys[sx_choice( "key", op == 8 ? 2 : 4 )] : 0;
    int v = K::uniq ? (int)sx_range( "value", 0, 1000 ) : 100 + 10 * s;
    switch ( op )
    {
    case 0: add( kind, t, m, k, v, false ); break;
    case 1: add( kind, t, m, k, v, true ); break;
    case 2:
    {
      int c = number( m, k );
      auto it = t.find( k ), next = it;
      if ( it != t.end() && ++next != t.end() && key_of( *next ) == k ) it = next;
      if ( it != t.end() && sx_choice( "by its own key", 2 ) ) { sx_assert( (int)t.erase( key_of( *it ) ) == c ); sx_reach( "own-key" ); }
      else sx_assert( (int)t.erase( k ) == c );
      for ( int i = find( m, k ); i >= 0; i = find( m, k ) ) m.erase( m.begin() + i );
      break;
    }
    case 3:
    {
      auto it = t.find( k );
      if ( it != t.end() ) { if ( sx_choice( "the next", 2 ) ) ++it; if ( it != t.end() ) { int a = key_of( *it ), b = value_of( *it ); t.erase( it ); take( m, a, b ); } }
      break;
    }
    case 4:
    {
      int a = sx_choice( "from", sx_param( "from", 3, 6 ) ), b = sx_choice( "number", sx_param( "number", 3, 7 ) ); auto f = t.begin(); for ( int i = 0; i < a && f != t.end(); ++i ) ++f;
      auto l = f; for ( int i = 0; i < b && l != t.end(); ++i, ++l ) take( m, key_of( *l ), value_of( *l ) );
      t.erase( f, l ); sx_reach( "range-erased" ); break;
    }
    case 5: t.clear(); m.clear(); sx_reach( "cleared" ); break;
    case 6: { size_t n = sx_choice( "hint", 3 ); n = n == 0 ? 0 : n == 1 ? 6 : 12; size_t before = t.bucket_count(); t.resize( n ); sx_assert( t.bucket_count() >= n && t.bucket_count() >= before ); break; }
    case 7:
    {
      T copy( t ); sx_assert( copy == t && ! ( copy != t ) ); compare( copy, m ); sx_reach( "copied" );
      T other( 30 ); model mo; add( kind, other, mo, 5, 77, false ); add( kind, other, mo, 4, 78, false );
      model mm = m;
      if ( sx_choice( "swap", 2 ) )
      {
        if ( sx_choice( "member", 2 ) ) t.swap( other ); else swap( t, other );
        std::swap( m, mo ); compare_all( other, mo ); sx_reach( "swapped" );
      }
      else { other = t; sx_assert( other == t ); compare( other, m ); other.clear(); other = copy; compare_all( other, m ); T& self = other; other = self; compare( other, m ); sx_reach( "assigned" ); }
      add( kind, copy, mm, 5, v, false ); compare( copy, mm );
      sx_assert( ( copy == t ) == ( mm.size() == m.size() && &mm != &m && copy.size() == t.size() && copy == t ) );
      if ( copy.size() != t.size() ) sx_assert( copy != t );
      break;
    }
    case 8:
    {
      typename std::aligned_storage< sizeof( V ), alignof( V ) >::type room[3]; V* e = (V*)room; int ks[3] = { k, 5 - k, k };
      for ( int i = 0; i < 3; ++i ) put( e + i, ks[i], v + i );
      int n = sx_choice( "length", 2 ) + 2;
      if ( sx_choice( "constructed", 2 ) ) { T c( e, e + n ); T d( e, e + n, 2 ); compare( d, [&]{ model x; for ( int i = 0; i < n; ++i ) if ( ! K::uniq || find( x, ks[i] ) < 0 ) x.push_back( std::make_pair( ks[i], K::pairs ? v + i : 0 ) ); return x; }() ); sx_assert( c.size() == d.size() ); t.insert( d.begin(), d.end() ); }
      else t.insert( e, e + n );
      for ( int i = 0; i < n; ++i ) if ( ! K::uniq || find( m, ks[i] ) < 0 ) m.push_back( std::make_pair( ks[i], K::pairs ? v + i : 0 ) );
      sx_reach( "range-inserted" ); break;
    }
    default: index( kind, t, m, k, v ); break;
    }
    sx_assert( t.bucket_count() > 0 );
  }
  compare_all( t, m );
}
// texts under the default hash: equal texts are one key wherever they are kept
static void texts()
{
  kwsys::hash_map< std::string, int > t( 1 ); kwsys::hash_set< std::string > s( 1 );
  std::vector< std::string > keys; std::vector< int > values;
  for ( int i = 0; i < 2; ++i )
  {
    std::string k = hx_str( "text", 0, sx_param( "text_bytes", 1, 2 ) ); for ( size_t j = 0; j < k.size(); ++j ) sx_assume( k[j] != 0 );
    t[k] = i + 1; bool fresh = s.insert( k ).second;
    size_t at = keys.size(); for ( size_t j = 0; j < keys.size(); ++j ) if ( hx_eq( keys[j], k ) ) at = j;
    sx_assert( fresh == ( at == keys.size() ) );
    if ( at == keys.size() ) { keys.push_back( k ); values.push_back( i + 1 ); } else values[at] = i + 1;
  }
  sx_assert( t.size() == keys.size() && s.size() == keys.size() );
  for ( size_t i = 0; i < keys.size(); ++i ) { sx_assert( t.find( keys[i] ) != t.end() && t.find( keys[i] )->second == values[i] ); sx_assert( s.count( keys[i] ) == 1 ); }
  sx_reach( "text-keys" );
}
void sx_main()
{
  switch ( sx_choice( "kind", 5 ) )
  {
  case 0: history( mapt() ); sx_reach( "map" ); break;
  case 1: history( mmapt() ); sx_reach( "multimap" ); break;
  case 2: history( sett() ); sx_reach( "set" ); break;
  case 3: history( msett() ); sx_reach( "multiset" ); break;
  default: texts();
  }
}
