// Replay side of a relational contract: the compiled code and its specification run on the same random state
// with stand-ins for the functions they call, which record the calls.  `native_case(seed, msg, n)` is 0 when
// they agree.
#ifndef __clang__
#include <string>
#include <vector>
#include <cstdarg>
#include <cstdint>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <cstdio>
static std::vector<std::string> LOG;
static std::vector<void *> KEEP;
static uint64_t rs_;
static inline uint32_t rnd( void ) { rs_ = rs_*6364136223846793005ull + 1442695040888963407ull; return (uint32_t)( rs_>>33 ); }
static inline int rint_( int a, int b ) { return a + (int)( rnd()%(uint32_t)( b-a+1 ) ); }
static inline double rdbl( double a, double b ) { return a + ( b-a )*( rnd()/2147483648. ); }
static void logf_( const char * f, ... ) { char b[2048]; va_list ap; va_start( ap, f ); vsnprintf( b, sizeof(b), f, ap ); va_end( ap ); LOG.push_back( b ); }
static std::string hex_( const void * p, size_t n ) { std::string s; char b[4]; for( size_t i=0; i<n; i++ ) { snprintf( b, 4, "%02x", ((const unsigned char *)p)[i] ); s += b; } return s; }
template<typename T> static T * fresh_( size_t n=1 ) { void * p = NULL; if( posix_memalign( &p, 128, n*sizeof(T) + 128 ) ) abort(); memset( p, 0, n*sizeof(T) + 128 ); KEEP.push_back( p ); return (T *)p; }
static void release_( void ) { for( void * p : KEEP ) free( p ); KEEP.clear(); }
// numbers with a point or exponent are compared to 5 digits (relative to the larger, absolute below 1e-6)
static bool agree_( const std::string & a, const std::string & b ) {
  const char * p = a.c_str(), * q = b.c_str();
  while( *p || *q ) {
    bool num = ( *p=='-' || ( *p>='0' && *p<='9' ) ) && ( *q=='-' || ( *q>='0' && *q<='9' ) );
    if( num ) {
      char * pe, * qe; double x = strtod( p, &pe ), y = strtod( q, &qe ); bool fl = false;
      if( pe==p || qe==q ) { if( *p!=*q ) return false; p++; q++; continue; }
      for( const char * c=p; c<pe; c++ ) if( *c=='.' || *c=='e' ) fl = true;
      for( const char * c=q; c<qe; c++ ) if( *c=='.' || *c=='e' ) fl = true;
      if( fl ? !( std::fabs( x-y )<=1e-5*std::fmax( std::fabs( x ), std::fabs( y ) ) + 1e-6 ) : std::string( p, (const char *)pe )!=std::string( q, (const char *)qe ) ) return false;
      p = pe; q = qe; continue;
    }
    if( *p!=*q ) return false;
    p++; q++;
  }
  return true;
}
static int differ_( const std::vector<std::string> & a, const std::vector<std::string> & b, char * msg, int n ) {
  for( size_t i=0; i<a.size() || i<b.size(); i++ ) {
    std::string x = i<a.size() ? a[i] : "(nothing)", y = i<b.size() ? b[i] : "(nothing)";
    if( !agree_( x, y ) ) { snprintf( msg, n, "step %i: %s, expected %s", (int)i, x.substr( 0, 700 ).c_str(), y.substr( 0, 700 ).c_str() ); return 1; }
  }
  return 0;
}
// quiet replacements for the library's logging, timing and allocation
void log_printf( const char *, ... ) {}
int _world_rank, _world_size = 1;
decltype( _world ) _world = 0;
double wallclock( void ) { return 0; }
#define ALLOCATORS \
  void util_malloc( const char *, void * mem, size_t n ) { void * p = NULL; if( n && posix_memalign( &p, 128, n + 128 ) ) abort(); if( n ) memset( p, 0x5a, n ); *(void **)mem = p; } \
  void util_free( void * m ) { if( m && *(void **)m ) { free( *(void **)m ); *(void **)m = 0; } } \
  void util_malloc_aligned( const char *, void * mem, size_t n, size_t ) { util_malloc( 0, mem, n ); } \
  void util_free_aligned( void * m ) { util_free( m ); }
#endif
