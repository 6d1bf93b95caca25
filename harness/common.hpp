// Shared harness: seeded case runner, oracle bookkeeping, element types with lifetime monitors,
// allocation accounting and the interception of LvArray's error handler.
#pragma once
#include <algorithm>
#include <array>
#include <cassert>
#include <chrono>
#include <climits>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <deque>
#include <functional>
#include <iostream>
#include <limits>
#include <list>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <unordered_set>
#include <utility>
#include <vector>
#include <execinfo.h>
#include <unistd.h>
#include <fcntl.h>

#if defined( __has_feature )
  #if __has_feature( address_sanitizer )
    #define H_ASAN 1
  #endif
  #if __has_feature( thread_sanitizer )
    #define H_TSAN 1
  #endif
#endif
#if defined( __SANITIZE_ADDRESS__ )
  #define H_ASAN 1
#endif
#if defined( __SANITIZE_THREAD__ )
  #define H_TSAN 1
#endif
#if defined( H_ASAN )
extern "C" std::size_t __sanitizer_get_current_allocated_bytes();
#endif

#include "system.hpp"

namespace H
{
// ------------------------------------------------------------------------------------------ random
struct Rng
{
  std::uint64_t s;
  explicit Rng( std::uint64_t seed ): s( seed ) {}
  std::uint64_t next()
  {
    std::uint64_t z = ( s += 0x9E3779B97F4A7C15ull );
    z = ( z ^ ( z >> 30 ) ) * 0xBF58476D1CE4E5B9ull;
    z = ( z ^ ( z >> 27 ) ) * 0x94D049BB133111EBull;
    return z ^ ( z >> 31 );
  }
  // uniform in [0, n)
  std::uint64_t below( std::uint64_t n ) { return n ? next() % n : 0; }
  // uniform in [a, b]
  long range( long a, long b ) { return a + long( below( std::uint64_t( b - a ) + 1 ) ); }
  bool chance( int percent ) { return int( below( 100 ) ) < percent; }
  double unit() { return double( next() >> 11 ) / 9007199254740992.0; }
  // weighted towards small values, in [0, n]
  long small( long n ) { long a = range( 0, n ), b = range( 0, n ); return chance( 60 ) ? std::min( a, b ) : a; }
};
inline std::uint64_t mix( std::uint64_t a, std::uint64_t b ) { Rng r( a ^ ( b * 0xD6E8FEB86659FD93ull + 0x2545F4914F6CDD1Dull ) ); return r.next(); }
inline std::uint64_t hashStr( char const * p ) { std::uint64_t h = 1469598103934665603ull; for( ; *p; ++p ) h = ( h ^ std::uint64_t( (unsigned char) *p ) ) * 1099511628211ull; return h; }

// ------------------------------------------------------------------------------------------ context
struct Fail { std::string key, msg; };

struct LvError {};

struct Global
{
  sigjmp_buf * jump = nullptr;        // where an LvArray error jumps to (case level or expectation level)
  bool throwing = false;              // an LvArray error is thrown as an LvError
  bool inCase = false;
  long errorsSeen = 0;
  std::string lastError;              // text of the last LvArray error
  std::string pendingFail;            // failure recorded where exceptions cannot be thrown
  int statusFd = -1;
  std::ostringstream * sink = nullptr;
};
inline Global & G() { static Global * g = new Global; return *g; }

struct Ctx
{
  Rng rng;
  std::string name;
  std::uint64_t seed = 0;
  bool thorough = false;
  bool keepTrace = true;
  long ops = 0;              // operations on the code under test
  long checks = 0;           // oracle comparisons made
  std::uint64_t hash = 0;    // hash of the history
  bool nontrivial = false;
  std::deque< std::string > trace;
  std::map< std::string, long > events;
  explicit Ctx( std::uint64_t sd ): rng( sd ), seed( sd ) {}

  void op( char const * fmt, ... ) __attribute__( ( format( printf, 2, 3 ) ) )
  {
    char buf[ 256 ];
    va_list ap; va_start( ap, fmt ); std::vsnprintf( buf, sizeof( buf ), fmt, ap ); va_end( ap );
    ++ops;
    hash = mix( hash, hashStr( buf ) );
    trace.emplace_back( buf );
    if( trace.size() > 60 ) trace.pop_front();
  }
  void event( char const * e, long n = 1 ) { events[ e ] += n; }
  [[noreturn]] void fail( std::string const & key, std::string const & msg ) { throw Fail{ key, msg }; }
};

template< typename T > struct Show { static std::string s( T const & t ) { std::ostringstream o; o << t; return o.str(); } };
template< typename T > std::string show( T const & t ) { return Show< T >::s( t ); }

#define H_STR2( X ) #X
#define H_STR( X ) H_STR2( X )
// The message is only built with H_VERBOSE: the history and the values are reported in any case, and
// the streaming code would dominate the build time.
[[gnu::cold]] [[gnu::noinline]] inline void failCond( Ctx & c, char const * key, char const * cond, int line )
{ c.fail( key, std::string( cond ) + " does not hold (harness line " + std::to_string( line ) + ")" ); }
[[gnu::cold]] [[gnu::noinline]] inline void failEq( Ctx & c, char const * key, char const * expr, long a, long b, int line )
{ c.fail( key, std::string( expr ) + " is " + std::to_string( a ) + ", expected " + std::to_string( b ) + " (harness line " + std::to_string( line ) + ")" ); }
[[gnu::cold]] [[gnu::noinline]] inline void failEqS( Ctx & c, char const * key, char const * expr, std::string const & a, std::string const & b, int line )
{ c.fail( key, std::string( expr ) + " is \"" + a + "\", expected \"" + b + "\" (harness line " + std::to_string( line ) + ")" ); }
template< typename A, typename B > std::enable_if_t< std::is_integral< A >::value && std::is_integral< B >::value >
checkEq( Ctx & c, A a, B b, char const * key, char const * expr, int line ) { if( long( a ) != long( b ) ) failEq( c, key, expr, long( a ), long( b ), line ); }
template< typename A, typename B > std::enable_if_t< !( std::is_integral< A >::value && std::is_integral< B >::value ) >
checkEq( Ctx & c, A const & a, B const & b, char const * key, char const * expr, int line ) { if( !( a == b ) ) failEqS( c, key, expr, show( a ), show( b ), line ); }
#if defined( H_VERBOSE )
  #define CHECK( CTX, COND, KEY, MSG ) do { ++( CTX ).checks; if( !( COND ) ) { std::ostringstream o_; o_ << MSG << " [" #COND "]"; ( CTX ).fail( KEY, o_.str() ); } } while( 0 )
#else
  #define CHECK( CTX, COND, KEY, MSG ) do { ++( CTX ).checks; if( !( COND ) ) ::H::failCond( CTX, KEY, #COND, __LINE__ ); } while( 0 )
#endif
#define CHECK_EQ( CTX, A, B, KEY, MSG ) do { ++( CTX ).checks; ::H::checkEq( CTX, A, B, KEY, #A, __LINE__ ); } while( 0 )

// ------------------------------------------------------------------------------------------ LvArray errors
struct NullBuf : std::streambuf
{
  std::string tail;
  int overflow( int c ) override { if( c != EOF ) { tail.push_back( char( c ) ); if( tail.size() > 8192 ) tail.erase( 0, 4096 ); } return c; }
  std::streamsize xsputn( char const * p, std::streamsize n ) override
  { tail.append( p, std::size_t( n ) ); if( tail.size() > 8192 ) tail.erase( 0, tail.size() - 4096 ); return n; }
};
inline NullBuf & coutSink() { static NullBuf * b = new NullBuf; return *b; }
inline std::string lastErrorText()
{
  std::string const & t = coutSink().tail;
  std::size_t p = t.rfind( "***** LOCATION" );
  std::string r = p == std::string::npos ? t : t.substr( p );
  std::size_t q = r.find( "** StackTrace" );
  if( q != std::string::npos ) r.resize( q );
  return r.substr( 0, 600 );
}
// In worker threads errors are thrown: there is no case to jump back to.
inline bool & inWorker() { static thread_local bool b = false; return b; }
inline void installErrorHandler()
{
  std::cout.rdbuf( &coutSink() );
  LvArray::system::setErrorHandler( []()
  {
    if( inWorker() ) throw LvError();
    ++G().errorsSeen;
    if( G().throwing ) throw LvError();
    if( G().jump != nullptr ) siglongjmp( *G().jump, 1 );
    std::fprintf( stderr, "LVARRAY-ERROR outside of a case:\n%s\n", lastErrorText().c_str() );
    std::abort();
  } );
}

// Runs f and says whether LvArray reported an error. f must not own anything it cannot afford to leak.
template< typename F > __attribute__( ( noinline ) ) bool reportsError( F && f )
{
  sigjmp_buf here;
  sigjmp_buf * const previous = G().jump;
  if( sigsetjmp( here, 0 ) == 0 )
  {
    G().jump = &here;
    f();
    G().jump = previous;
    return false;
  }
  G().jump = previous;
  return true;
}

// The same for functions that let exceptions through, without leaking what they own.
template< typename F > __attribute__( ( noinline ) ) bool throwsError( F && f )
{
  bool r = false;
  G().throwing = true;
  try { f(); }
  catch( LvError const & ) { r = true; }
  catch( ... ) { G().throwing = false; throw; }
  G().throwing = false;
  return r;
}

// ------------------------------------------------------------------------------------------ element types
// Lifetime monitor: every Tracked object registers its own address.
struct Life
{
  static std::unordered_map< void const *, int > & live() { static auto * m = new std::unordered_map< void const *, int >; return *m; }
  static std::string & error() { static auto * s = new std::string; return *s; }
  static long & constructed() { static long n; return n; }
  static long & destroyed() { static long n; return n; }
  static void err( char const * what ) { if( error().empty() ) error() = what; }
  static void construct( void const * p )
  {
    ++constructed();
    if( !live().emplace( p, 1 ).second ) err( "object constructed over a live object" );
  }
  static void destroy( void const * p )
  {
    ++destroyed();
    if( live().erase( p ) == 0 ) err( "destructor run on something that is not a live object" );
  }
  static bool isLive( void const * p ) { return live().count( p ) != 0; }
  static void use( void const * p, char const * what ) { if( !isLive( p ) ) err( what ); }
  static void reset() { live().clear(); error().clear(); }
};

template< int KIND > // 0 copy + move, 1 copy only
struct TrackedT
{
  long v;
  TrackedT const * self;
  static constexpr long MOVED = -987654321;
  TrackedT(): v( 0 ), self( this ) { Life::construct( this ); }
  TrackedT( long x ): v( x ), self( this ) { Life::construct( this ); }
  TrackedT( int x ): v( x ), self( this ) { Life::construct( this ); }
  TrackedT( long a, long b ): v( a * 1000 + b ), self( this ) { Life::construct( this ); }
  TrackedT( TrackedT const & o ): v( o.v ), self( this ) { o.alive( "copied from something that is not a live object" ); Life::construct( this ); }
  TrackedT & operator=( TrackedT const & o )
  {
    o.alive( "copy-assigned from something that is not a live object" );
    alive( "copy-assigned to something that is not a live object" );
    v = o.v; return *this;
  }
  ~TrackedT() { if( self != this ) Life::err( "object relocated without its move constructor" ); Life::destroy( this ); v = -1; self = nullptr; }
  void alive( char const * what ) const { Life::use( this, what ); if( self != this ) Life::err( "object relocated without its move constructor" ); }
  friend bool operator==( TrackedT const & a, TrackedT const & b ) { a.alive( "read of a dead object" ); b.alive( "read of a dead object" ); return a.v == b.v; }
  friend bool operator!=( TrackedT const & a, TrackedT const & b ) { return !( a == b ); }
  friend bool operator<( TrackedT const & a, TrackedT const & b ) { a.alive( "comparison of a dead object" ); b.alive( "comparison of a dead object" ); return a.v < b.v; }
  friend bool operator>( TrackedT const & a, TrackedT const & b ) { return b < a; }
  friend bool operator<=( TrackedT const & a, TrackedT const & b ) { return !( b < a ); }
  friend bool operator>=( TrackedT const & a, TrackedT const & b ) { return !( a < b ); }
  TrackedT & operator+=( TrackedT const & o ) { o.alive( "read of a dead object" ); alive( "+= on a dead object" ); v += o.v; return *this; }
  friend std::ostream & operator<<( std::ostream & os, TrackedT const & t ) { return os << "T" << t.v; }
};
// copy + move: same, with move operations that leave a recognisable value behind
struct Tracked : TrackedT< 0 >
{
  using B = TrackedT< 0 >;
  Tracked() = default;
  Tracked( long x ): B( x ) {}
  Tracked( int x ): B( x ) {}
  Tracked( long a, long b ): B( a, b ) {}
  Tracked( Tracked const & o ) = default;
  Tracked( Tracked && o ): B( o.v ) { o.alive( "moved from something that is not a live object" ); o.v = MOVED; }
  Tracked & operator=( Tracked const & o ) = default;
  Tracked & operator=( Tracked && o )
  {
    o.alive( "move-assigned from something that is not a live object" );
    alive( "move-assigned to something that is not a live object" );
    if( &o != this ) { v = o.v; o.v = MOVED; }
    return *this;
  }
};
using TrackedCopy = TrackedT< 1 >;

// A trivially copyable aggregate larger than a word.
struct Pod
{
  double x; std::int32_t k; std::int16_t h;
  Pod(): x( 0 ), k( 0 ), h( 0 ) {}
  Pod( long v ): x( double( v ) * 0.5 ), k( std::int32_t( v ) ), h( std::int16_t( v % 30000 ) ) {}
  friend bool operator==( Pod const & a, Pod const & b ) { return a.x == b.x && a.k == b.k && a.h == b.h; }
  friend bool operator!=( Pod const & a, Pod const & b ) { return !( a == b ); }
  friend bool operator<( Pod const & a, Pod const & b ) { return a.k < b.k; }
  friend bool operator>( Pod const & a, Pod const & b ) { return b < a; }
  Pod & operator+=( Pod const & o ) { *this = Pod( long( k ) + o.k ); return *this; }
  friend std::ostream & operator<<( std::ostream & os, Pod const & p ) { return os << "P" << p.k; }
};

// Values are made from a long so that every type has the same model order.
template< typename T > struct Make { static T of( long v ) { return T( v ); } static long back( T const & t ) { return long( t ); } };
template<> struct Make< Tracked > { static Tracked of( long v ) { return Tracked( v ); } static long back( Tracked const & t ) { t.alive( "read of a dead object" ); return t.v; } };
template<> struct Make< TrackedCopy > { static TrackedCopy of( long v ) { return TrackedCopy( v ); } static long back( TrackedCopy const & t ) { t.alive( "read of a dead object" ); return t.v; } };
template<> struct Make< Pod > { static Pod of( long v ) { return Pod( v ); } static long back( Pod const & t ) { if( !( t == Pod( long( t.k ) ) ) ) return -444444; return t.k; } };
// Strings long enough to defeat the small string optimisation, ordered like the numbers.
template<> struct Make< std::string >
{
  static std::string of( long v ) { char b[ 64 ]; if( v == 0 ) return std::string(); std::snprintf( b, sizeof( b ), "%012ld a tail that needs the heap", v + 500000000 ); return b; }
  static long back( std::string const & s ) { if( s.empty() ) return 0; if( s.size() < 20 ) return -333333; return std::atol( s.c_str() ) - 500000000; }
};
template<> struct Make< double > { static double of( long v ) { return double( v ) + ( v ? 0.25 : 0 ); } static long back( double d ) { if( d == 0 ) return 0; return long( std::floor( d - 0.25 ) ) == d - 0.25 ? long( d - 0.25 ) : -222222; } };
template< typename T > T mk( long v ) { return Make< T >::of( v ); }
template< typename T > long bk( T const & t ) { return Make< T >::back( t ); }

// ------------------------------------------------------------------------------------------ cases
// A view that came about in one of the ways views do: copied or moved, constructed or assigned over another one.
template< typename V > typename std::decay< V >::type via( Ctx & c, V const & v, V const & other )
{
  using D = typename std::decay< V >::type;
  switch( c.rng.below( 6 ) )
  {
    case 0: { D w( other ); w = v; return w; }
    case 1: { D w( other ), x( v ); w = std::move( x ); return w; }
    case 2: { D w( v ); return D( std::move( w ) ); }
    case 3: { D w( v ); D const & r = w; w = r; return w; }
    default: return v;
  }
}

struct Case { std::string name; std::function< void( Ctx & ) > run; int weight; bool leakCheck; };
inline std::vector< Case > & cases() { static auto * v = new std::vector< Case >; return *v; }
struct Register { Register( std::string n, std::function< void( Ctx & ) > f, int w = 1, bool leak = true ) { cases().push_back( Case{ std::move( n ), std::move( f ), w, leak } ); } };

inline std::string jsonEsc( std::string const & s )
{
  std::string r;
  for( unsigned char c : s )
  {
    if( c == '"' || c == '\\' ) { r.push_back( '\\' ); r.push_back( char( c ) ); }
    else if( c == '\n' ) r += "\\n";
    else if( c < 32 || c > 126 ) { char b[ 8 ]; std::snprintf( b, sizeof( b ), "\\u%04x", c ); r += b; }
    else r.push_back( char( c ) );
  }
  return r;
}

inline std::size_t allocated()
{
#if defined( H_ASAN )
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

inline void onAlarm( int ) { char const m[] = "HARNESS-HANG\n"; ssize_t r = write( 2, m, sizeof( m ) - 1 ); ( void ) r; _exit( 97 ); }

struct Outcome { bool failed = false; std::string key, msg; };

// Runs one case once.
__attribute__( ( noinline ) ) inline void runOnce( Case const & c, Ctx & ctx, Outcome & out )
{
  sigjmp_buf here;
  Life::reset();
  G().pendingFail.clear();
  if( sigsetjmp( here, 0 ) == 0 )
  {
    G().jump = &here;
    try { c.run( ctx ); }
    catch( Fail const & f ) { out.failed = true; out.key = f.key; out.msg = f.msg; }
    catch( std::exception const & e ) { out.failed = true; out.key = "exception"; out.msg = std::string( "unexpected exception: " ) + e.what(); }
    G().jump = nullptr;
  }
  else
  {
    G().jump = nullptr;
    out.failed = true; out.key = "spurious-error"; out.msg = "LvArray reported an error for a legal use:\n" + lastErrorText();
  }
  if( !out.failed )
  {
    if( !G().pendingFail.empty() ) { out.failed = true; out.key = "monitor"; out.msg = G().pendingFail; }
    else if( !Life::error().empty() ) { out.failed = true; out.key = "lifetime"; out.msg = Life::error(); }
    else if( !Life::live().empty() ) { out.failed = true; out.key = "lifetime"; out.msg = std::to_string( Life::live().size() ) + " element(s) never destroyed"; }
  }
  else if( !Life::error().empty() ) out.msg += " (lifetime monitor: " + Life::error() + ")";
}

inline int mainLoop( int argc, char ** argv )
{
  std::uint64_t seed = 1; long count = 100, start = 0, stride = 1; std::string filter, outPath = "/dev/stderr", statusPath; bool thorough = false;
  std::string onlyCase; std::uint64_t onlySeed = 0; bool haveOnly = false; int hang = 60; bool list = false; long maxFail = 8;
  for( int i = 1; i < argc; ++i )
  {
    std::string a = argv[ i ];
    auto val = [&]() { return std::string( argv[ ++i ] ); };
    if( a == "--seed" ) seed = std::strtoull( val().c_str(), nullptr, 10 );
    else if( a == "--count" ) count = std::atol( val().c_str() );
    else if( a == "--start" ) start = std::atol( val().c_str() );
    else if( a == "--stride" ) stride = std::atol( val().c_str() );
    else if( a == "--filter" ) filter = val();
    else if( a == "--out" ) outPath = val();
    else if( a == "--status" ) statusPath = val();
    else if( a == "--thorough" ) thorough = true;
    else if( a == "--case" ) { onlyCase = val(); haveOnly = true; }
    else if( a == "--case-seed" ) onlySeed = std::strtoull( val().c_str(), nullptr, 10 );
    else if( a == "--hang" ) hang = std::atoi( val().c_str() );
    else if( a == "--list" ) list = true;
    else { std::fprintf( stderr, "unknown argument %s\n", a.c_str() ); return 3; }
  }
  if( list ) { for( auto const & c : cases() ) std::printf( "%s\n", c.name.c_str() ); return 0; }
  std::FILE * out = std::fopen( outPath.c_str(), "a" );
  if( !out ) return 3;
  int statusFd = statusPath.empty() ? -1 : open( statusPath.c_str(), O_CREAT | O_WRONLY, 0644 );
  installErrorHandler();
  std::signal( SIGALRM, onAlarm );

  // The cases that run, expanded by weight.
  std::vector< std::size_t > order;
  for( std::size_t i = 0; i < cases().size(); ++i )
  {
    std::string const & n = cases()[ i ].name;
    if( haveOnly ? n == onlyCase : ( filter.empty() || n.find( filter ) != std::string::npos ) )
      for( int w = 0; w < cases()[ i ].weight; ++w ) order.push_back( i );
  }
  if( order.empty() ) { std::fprintf( stderr, "no cases match\n" ); std::fclose( out ); return 3; }

  std::map< std::string, long > events, perCase;
  std::vector< std::uint64_t > hashes;
  long evaluations = 0, ops = 0, checks = 0, failures = 0;
  std::string sample;
  for( long i = start; haveOnly ? i < start + 1 : i < count; i += haveOnly ? 1 : stride )
  {
    Case const & c = cases()[ order[ std::size_t( i ) % order.size() ] ];
    std::uint64_t const caseSeed = haveOnly ? onlySeed : mix( mix( seed, hashStr( c.name.c_str() ) ), std::uint64_t( i ) );
    if( statusFd >= 0 )
    {
      char b[ 256 ];
      int n = std::snprintf( b, sizeof( b ), "%ld %llu %-120s\n", i, ( unsigned long long ) caseSeed, c.name.c_str() );
      ssize_t r = pwrite( statusFd, b, std::size_t( n ), 0 ); ( void ) r;
    }
    alarm( unsigned( hang ) );
    Outcome o;
    bool leaked = false;
    std::size_t before = allocated(), after = 0;
    {
      Ctx ctx( caseSeed );
      ctx.name = c.name; ctx.thorough = thorough;
      runOnce( c, ctx, o );
      evaluations++; ops += ctx.ops; checks += ctx.checks; perCase[ c.name ]++;
      for( auto const & e : ctx.events ) events[ e.first ] += e.second;
      if( ctx.nontrivial ) hashes.push_back( mix( ctx.hash, hashStr( c.name.c_str() ) ) );
      if( o.failed )
      {
        std::string tr;
        for( auto const & t : ctx.trace ) { if( !tr.empty() ) tr += ", "; tr += "\"" + jsonEsc( t ) + "\""; }
        std::fprintf( out, "{\"type\":\"violation\",\"case\":\"%s\",\"seed\":%llu,\"key\":\"%s\",\"msg\":\"%s\",\"trace\":[%s]}\n", jsonEsc( c.name ).c_str(),
                      ( unsigned long long ) caseSeed, jsonEsc( o.key ).c_str(), jsonEsc( o.msg ).c_str(), tr.c_str() );
        std::fflush( out );
      }
      else if( ctx.nontrivial && sample.empty() )
      {
        sample = "{\"case\":\"" + jsonEsc( c.name ) + "\",\"seed\":" + std::to_string( caseSeed ) + ",\"ops\":" + std::to_string( ctx.ops ) + ",\"history\":[";
        std::size_t k = 0;
        for( auto const & t : ctx.trace ) { if( k ) sample += ","; sample += "\"" + jsonEsc( t ) + "\""; if( ++k >= 12 ) break; }
        sample += "]}";
      }
      ctx.trace.clear();
    }
    after = allocated();
    // A leak is only reported if running the very same case again, twice, leaks again: lazily built
    // statics and the harness's own growth do not.
    if( !o.failed && c.leakCheck && after > before )
    {
      long grew = 0;
      for( int rep = 0; rep < 3; ++rep )
      {
        std::size_t const b = allocated();
        { Ctx ctx( caseSeed ); ctx.name = c.name; ctx.thorough = thorough; Outcome o2; runOnce( c, ctx, o2 ); }
        if( allocated() > b ) ++grew;
      }
      leaked = grew == 3;
      if( leaked )
      {
        o.failed = true;
        std::fprintf( out, "{\"type\":\"violation\",\"case\":\"%s\",\"seed\":%llu,\"key\":\"leak\",\"msg\":\"memory allocated during the history was not released when every container had been destroyed\",\"trace\":[]}\n",
                      jsonEsc( c.name ).c_str(), ( unsigned long long ) caseSeed );
        std::fflush( out );
      }
    }
    alarm( 0 );
    if( o.failed && ++failures >= maxFail ) break;
  }
  std::string ev, pc;
  for( auto const & e : events ) { if( !ev.empty() ) ev += ","; ev += "\"" + jsonEsc( e.first ) + "\":" + std::to_string( e.second ); }
  for( auto const & e : perCase ) { if( !pc.empty() ) pc += ","; pc += "\"" + jsonEsc( e.first ) + "\":" + std::to_string( e.second ); }
  std::fprintf( out, "{\"type\":\"summary\",\"evaluations\":%ld,\"ops\":%ld,\"checks\":%ld,\"failures\":%ld,\"events\":{%s},\"cases\":{%s},\"sample\":%s,\"hashes\":[", evaluations, ops,
                checks, failures, ev.c_str(), pc.c_str(), sample.empty() ? "null" : sample.c_str() );
  std::sort( hashes.begin(), hashes.end() );
  hashes.erase( std::unique( hashes.begin(), hashes.end() ), hashes.end() );
  for( std::size_t k = 0; k < hashes.size(); ++k ) std::fprintf( out, "%s\"%llx\"", k ? "," : "", ( unsigned long long ) hashes[ k ] );
  std::fprintf( out, "]}\n" );
  std::fclose( out );
  return failures ? 1 : 0;
}
} // namespace H

#define H_MAIN() int main( int argc, char ** argv ) { return H::mainLoop( argc, argv ); }
