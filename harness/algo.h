// Two kinds of algorithms for the harnesses of the registry and of nested configuration.
#ifndef ALGO_H
#define ALGO_H
#include "hx.h"
#include <vital/algo/algorithm.txx>
#include <map>
using namespace kwiver::vital;
static std::string type_name_of[2];
struct part
{
  std::string impl, descr; int tag; bool accept;
  std::map< std::string, std::string > defaults;
  std::map< std::string, std::string > seen; bool configured;
  part( std::string const& i, int t ) : impl( i ), tag( t ), accept( true ), configured( false ) {}
  config_block_sptr get( config_block_sptr c ) const { for ( auto const& d : defaults ) c->set_value( d.first, d.second, "described" ); return c; }
  void set( config_block_sptr c ) { configured = true; seen.clear(); for ( auto const& k : c->available_values() ) seen[k] = c->get_value< std::string >( k ); }
};
static std::map< std::string, std::string > checked; static int checks;
#define KIND( NAME, N ) struct NAME : algorithm_def< NAME > { \
  static std::string static_type_name() { return type_name_of[N]; } part p; \
  NAME( std::string const& i, int t ) : p( i, t ) {} \
  std::string impl_name() const { return p.impl; } std::string description() const { return p.descr; } \
  std::shared_ptr< NAME > clone() const { return std::make_shared< NAME >( *this ); } algorithm_sptr base_clone() const { return clone(); } \
  config_block_sptr get_configuration() const { return p.get( algorithm::get_configuration() ); } \
  void set_configuration( config_block_sptr c ) { p.set( c ); } \
  bool check_configuration( config_block_sptr c ) const { ++checks; part q( p ); q.set( c ); checked = q.seen; return p.accept; } };
KIND( first_kind, 0 )
KIND( second_kind, 1 )
static part& part_of( algorithm* a ) { if ( first_kind* f = dynamic_cast< first_kind* >( a ) ) return f->p; return dynamic_cast< second_kind* >( a )->p; }
static algorithm_sptr make( int kind, std::string const& impl, int tag ) { if ( kind ) return std::make_shared< second_kind >( impl, tag ); return std::make_shared< first_kind >( impl, tag ); }
static bool enlist( algorithm_sptr a ) { registrar& r = registrar::instance(); if ( auto f = std::dynamic_pointer_cast< first_kind >( a ) ) return first_kind::register_instance( r, f ); return second_kind::register_instance( r, std::dynamic_pointer_cast< second_kind >( a ) ); }
#endif
