// Stand-in for the logger manager: no logging back end is loaded, nothing is printed.
#include <vital/logger/logger.h>
namespace kwiver { namespace vital {
namespace { class null_logger : public kwiver_logger {
public:
  null_logger() : kwiver_logger( 0, "x" ) {}
  bool is_fatal_enabled() const { return false; }
  bool is_error_enabled() const { return false; }
  bool is_warn_enabled() const { return false; }
  bool is_info_enabled() const { return false; }
  bool is_debug_enabled() const { return false; }
  bool is_trace_enabled() const { return false; }
  void set_level( log_level_t ) {}
  log_level_t get_level() const { return LEVEL_NONE; }
  typedef std::string const& S; typedef logger_ns::location_info const& L;
  void log_fatal( S ) {} void log_fatal( S, L ) {}
  void log_error( S ) {} void log_error( S, L ) {}
  void log_warn( S ) {} void log_warn( S, L ) {}
  void log_info( S ) {} void log_info( S, L ) {}
  void log_debug( S ) {} void log_debug( S, L ) {}
  void log_trace( S ) {} void log_trace( S, L ) {}
  void log_message( log_level_t, S ) {}
  void log_message( log_level_t, S, L ) {}
}; }
static logger_handle_t& the() { static logger_handle_t h; if ( !h ) h = std::make_shared< null_logger >(); return h; }
logger_handle_t get_logger( char const* ) { return the(); }
logger_handle_t get_logger( std::string const& ) { return the(); }
} }
