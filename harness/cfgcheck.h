// Reads a file with the real code and compares the outcome with the oracle's.
#ifndef CFGCHECK_H
#define CFGCHECK_H
#include "refparser.h"
#include <vital/config/config_block.h>
#include <vital/config/config_block_io.h>
#include <vital/config/config_block_exception.h>
static void cfg_compare( kwiver::vital::config_block_sptr c, ref::result& r )
{
  kwiver::vital::config_block_keys_t ks = c->available_values();
  sx_assert( ks.size() == r.e.size() );
  for ( size_t i = 0; i < r.e.size(); ++i )
  {
    ref::entry& e = r.e[i];
    sx_assert( c->has_value( e.key ) );
    sx_assert( hx_eq( c->get_value< std::string >( e.key ), e.val ) );
    sx_assert( c->is_read_only( e.key ) == e.ro );
    std::string f; int l = -1;
    sx_assert( c->get_location( e.key, f, l ) );
    sx_assert( f == e.file && l == e.line );
  }
}
// returns the block, or null if the file was refused; any exception type of the library counts as refusal
static kwiver::vital::config_block_sptr cfg_read( std::string const& p )
{
  try { return kwiver::vital::read_config_file( p ); }
  catch ( kwiver::vital::config_block_exception const& ) { return kwiver::vital::config_block_sptr(); }
  catch ( kwiver::vital::config_block_io_exception const& ) { return kwiver::vital::config_block_sptr(); }
}
#endif
