// C24 floating point exceptions, C25 error reporting.
// Compiled with LVARRAY_ADDR2LINE_EXEC in one configuration, with NDEBUG in another.
#include "common.hpp"
#include "Macros.hpp"
#include "system.hpp"
#include <cfenv>
#include <dirent.h>
#include <cxxabi.h>
#if defined( __x86_64__ )
  #include <pmmintrin.h>
#endif
using namespace H;
namespace sys = LvArray::system;

// ------------------------------------------------------------------------------------------ C24
#if !defined( NO_FPE )
static int const FES[] = { FE_DIVBYZERO, FE_INEXACT, FE_INVALID, FE_OVERFLOW, FE_UNDERFLOW };
int drawExcepts( Rng & r )
{
  switch( r.below( 6 ) )
  {
    case 0: return 0;
    case 1: return FE_ALL_EXCEPT;
    case 2: return FES[ r.below( 5 ) ];
    case 3: return sys::getDefaultFloatingPointExceptions();
    default: return int( r.next() ) & FE_ALL_EXCEPT;
  }
}
unsigned trappedSSE()
{
#if defined( __x86_64__ )
  return ( ~_mm_getcsr() >> 7 ) & FE_ALL_EXCEPT;
#else
  return unsigned( fegetexcept() );
#endif
}
sigjmp_buf s_fpeJump;
volatile sig_atomic_t s_fpe = 0;
void onFpe( int ) { s_fpe = 1; siglongjmp( s_fpeJump, 1 ); }
// Performs an operation that raises exactly the given exceptions ( inexact comes along with overflow
// and underflow ) and says whether the program was interrupted.
__attribute__( ( noinline ) ) bool interrupted( int const which )
{
  std::fenv_t env; std::fegetenv( &env );
  unsigned const csr = _mm_getcsr();
  struct sigaction sa, old; std::memset( &sa, 0, sizeof( sa ) ); sa.sa_handler = onFpe; sa.sa_flags = SA_NODEFER;
  sigaction( SIGFPE, &sa, &old );
  s_fpe = 0;
  if( sigsetjmp( s_fpeJump, 1 ) == 0 )
  {
    volatile double a, b, r = 0;
    switch( which )
    {
      case FE_DIVBYZERO: a = 1; b = 0; r = a / b; break;
      case FE_INVALID: a = 0; b = 0; r = a / b; break;
      case FE_OVERFLOW: a = std::numeric_limits< double >::max(); b = a; r = a * b; break;
      case FE_UNDERFLOW: a = std::numeric_limits< double >::min(); b = 1e-10; r = a * b; break;
      default: a = 1; b = 3; r = a / b;
    }
    ( void ) r;
  }
  sigaction( SIGFPE, &old, nullptr );
  std::fesetenv( &env );
  _mm_setcsr( csr & ~unsigned( FE_ALL_EXCEPT ) );
  return s_fpe != 0;
}
struct Thrown {};
struct FpeRun
{
  Ctx & c;
  int S;          // the model: what is trapped
  int budget;
  explicit FpeRun( Ctx & x ): c( x ), S( 0 ), budget( int( x.rng.range( 5, 40 ) ) ) {}
  void verify()
  {
    CHECK_EQ( c, fegetexcept(), S, "fpe-mask", "the trapped exceptions ( fegetexcept )" );
    CHECK_EQ( c, int( trappedSSE() ), S, "fpe-mask-sse", "the trapped exceptions ( MXCSR )" );
    if( c.rng.chance( 15 ) )
    {
      int const w = FES[ c.rng.below( 5 ) ];
      int const raised = w | ( w == FE_OVERFLOW || w == FE_UNDERFLOW ? FE_INEXACT : 0 );
      CHECK_EQ( c, interrupted( w ), ( raised & S ) != 0, "fpe-delivery", "SIGFPE is delivered exactly for trapped exceptions" );
      c.event( s_fpe ? "SIGFPE-delivered" : "operation-not-trapped" );
      CHECK_EQ( c, fegetexcept(), S, "fpe-mask", "harness: environment restored" );
    }
    c.checks++;
  }
  void step( int depth )
  {
    while( budget > 0 )
    {
      --budget;
      int const e = drawExcepts( c.rng );
      switch( c.rng.below( depth < 6 ? 7 : 4 ) )
      {
        case 0: case 1:
        {
          c.op( "enable %d", e );
          int const r = e == sys::getDefaultFloatingPointExceptions() && c.rng.chance( 50 ) ? sys::enableFloatingPointExceptions() : sys::enableFloatingPointExceptions( e );
          CHECK_EQ( c, r, S, "fpe-return", "enable returns the previous set" );
          S |= e;
          break;
        }
        case 2:
        {
          c.op( "disable %d", e );
          int const r = e == sys::getDefaultFloatingPointExceptions() && c.rng.chance( 50 ) ? sys::disableFloatingPointExceptions() : sys::disableFloatingPointExceptions( e );
          CHECK_EQ( c, r, S, "fpe-return", "disable returns the previous set" );
          S &= ~e;
          break;
        }
        case 3:
          if( depth > 0 && c.rng.chance( 60 ) )
          {
            if( c.rng.chance( 30 ) ) { c.op( "throw" ); throw Thrown(); }
            c.op( "end of scope" );
            return;
          }
          break;
        case 4: case 5:
        {
          int const before = S;
          c.op( "guard %d", e );
          c.event( "guards" );
          {
            sys::FloatingPointExceptionGuard guard( e );
            S &= ~e;
            verify();
            try { step( depth + 1 ); }
            catch( Thrown const & ) { c.event( "exception-inside-guard" ); }
          }
          S = before;
          break;
        }
        default:
        {
          int const before = S;
          c.op( "guard %d left by an exception", e );
          c.event( "guards" );
          try
          {
            sys::FloatingPointExceptionGuard guard( e );
            S &= ~e;
            step( depth + 1 );
            throw Thrown();
          }
          catch( Thrown const & ) { c.event( "guard-left-by-exception" ); }
          S = before;
        }
      }
      verify();
    }
  }
};
void fpeCase( Ctx & c )
{
  std::fenv_t env; std::fegetenv( &env );
  unsigned const csr = _mm_getcsr();
  struct Restore { std::fenv_t & e; unsigned m; ~Restore() { std::fesetenv( &e ); _mm_setcsr( m ); } } restore{ env, csr };
  fedisableexcept( FE_ALL_EXCEPT );
  std::feclearexcept( FE_ALL_EXCEPT );
  FpeRun r( c );
  r.step( 0 );
  c.nontrivial = c.ops > 6;
}
void defaultsCase( Ctx & c )
{
  std::fenv_t env; std::fegetenv( &env );
  unsigned const csr = _mm_getcsr();
  struct Restore { std::fenv_t & e; unsigned m; ~Restore() { std::fesetenv( &e ); _mm_setcsr( m ); } } restore{ env, csr };
  fedisableexcept( FE_ALL_EXCEPT );
  std::feclearexcept( FE_ALL_EXCEPT );
  CHECK_EQ( c, sys::getDefaultFloatingPointExceptions(), FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID, "fpe-default", "the default exceptions" );
  int const pre = drawExcepts( c.rng ) & ~FE_UNDERFLOW;
  c.op( "setFPE with %d trapped", pre );
  feenableexcept( pre );
  sys::setFPE();
  int const want = pre | FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID;
  CHECK_EQ( c, fegetexcept(), want, "fpe-set", "setFPE enables the default exceptions" );
  CHECK_EQ( c, int( trappedSSE() ), want, "fpe-set", "setFPE enables the default exceptions" );
  fedisableexcept( FE_ALL_EXCEPT );
  volatile double tiny = std::numeric_limits< double >::min(), ten = 10, big = 1e300;
  volatile double flushed = tiny / ten;
  CHECK( c, flushed == 0, "fpe-flush", "setFPE flushes denormal results to zero" );
  union { std::uint64_t u; double d; } den; den.u = 12345;
  volatile double d = den.d;
  volatile double p = d * big;
  CHECK( c, p == 0, "fpe-flush", "setFPE treats denormal operands as zero" );
  {
    int const e = drawExcepts( c.rng );
    feenableexcept( want );
    { sys::FloatingPointExceptionGuard g; CHECK_EQ( c, fegetexcept(), want & ~( FE_DIVBYZERO | FE_OVERFLOW | FE_INVALID ), "fpe-guard-default", "the default guard masks the default exceptions" ); }
    CHECK_EQ( c, fegetexcept(), want, "fpe-guard-default", "restored" );
    { sys::FloatingPointExceptionGuard g( e ); CHECK_EQ( c, fegetexcept(), want & ~e, "fpe-guard-default", "masked" ); }
    CHECK_EQ( c, fegetexcept(), want, "fpe-guard-default", "restored" );
    // flush-to-zero is not undone by a guard or by enabling and disabling
    fedisableexcept( FE_ALL_EXCEPT );
    volatile double again = tiny / ten;
    CHECK( c, again == 0, "fpe-flush", "only the requested exceptions change" );
  }
  c.nontrivial = true;
}
static Register r_fpe( "fpe/nesting", fpeCase, 9 );
static Register r_fpd( "fpe/defaults", defaultsCase );
#endif

// ------------------------------------------------------------------------------------------ C25
// The text printed to std::cout in between.
struct Captured
{
  std::ostringstream text;
  std::streambuf * const previous;
  Captured(): previous( std::cout.rdbuf( text.rdbuf() ) ) {}
  ~Captured() { std::cout.rdbuf( previous ); }
  std::string str() const { return text.str(); }
};
struct Handler
{
  int calls = 0;
  std::string seen;  // what had been printed when the handler ran
  explicit Handler( Captured & cap ) { sys::setErrorHandler( [this, &cap]() { ++calls; seen = cap.str(); } ); }
  ~Handler() { auto * b = std::cout.rdbuf(); installErrorHandler(); std::cout.rdbuf( b ); }
};
bool has( std::string const & s, std::string const & t ) { return s.find( t ) != std::string::npos; }
int countOf( std::string const & s, std::string const & t ) { int n = 0; for( std::size_t p = s.find( t ); p != std::string::npos; p = s.find( t, p + t.size() ) ) ++n; return n; }

template< typename T > T drawVal( Rng & r );
template<> int drawVal< int >( Rng & r ) { return r.chance( 20 ) ? std::numeric_limits< int >::min() : r.chance( 10 ) ? std::numeric_limits< int >::max() : int( r.range( -3, 3 ) ); }
template<> long drawVal< long >( Rng & r ) { return r.chance( 20 ) ? std::numeric_limits< long >::min() : r.chance( 10 ) ? std::numeric_limits< long >::max() : r.range( -3, 3 ); }
template<> unsigned drawVal< unsigned >( Rng & r ) { return r.chance( 20 ) ? 4294967295u : unsigned( r.range( 0, 4 ) ); }
template<> double drawVal< double >( Rng & r ) { return r.chance( 15 ) ? std::numeric_limits< double >::quiet_NaN() : r.chance( 10 ) ? std::numeric_limits< double >::infinity() : r.chance( 10 ) ? -0.0 : double( r.range( -2, 2 ) ) * 0.5; }
template<> std::string drawVal< std::string >( Rng & r ) { return std::string( std::size_t( r.range( 0, 3 ) ), "abc"[ r.below( 3 ) ] ); }

// a as a B where that is possible, otherwise something else
template< typename A, typename B > std::enable_if_t< std::is_same< A, B >::value || !std::is_floating_point< A >::value, B > same( A const & a ) { return B( a ); }
template< typename A, typename B > std::enable_if_t< !std::is_same< A, B >::value && std::is_floating_point< A >::value, B > same( A const & a ) { return std::fabs( a ) < 1e6 ? B( a ) : B( 0 ); }

static std::string s_location;
#define HERE() ( s_location = std::string( __FILE__ ) + ":" + std::to_string( __LINE__ ) )

struct CustomError : std::runtime_error { using std::runtime_error::runtime_error; };

// What one use of a reporting macro did.
struct Did { int handler = 0; bool threw = false, wrongType = false; int evalL = 0, evalR = 0, evalMsg = 0; bool after = false; std::string text; };

enum Kind { ERR, THR, ASR, WARN, INFO };

template< typename A, typename B >
void verifyReport( Ctx & c, Did const & d, Kind kind, bool const bad, bool const msg, char const * name, char const * nop, A const & a, B const & b, bool const binary )
{
#if defined( NDEBUG )
  if( kind == ASR )
  {
    CHECK( c, d.handler == 0 && d.evalL == 0 && d.evalR == 0 && d.evalMsg == 0 && d.text.empty(), "assert-ndebug", "assertions vanish without debugging" );
    c.event( "assert-disabled" );
    return;
  }
#endif
  c.event( bad ? "reported" : "not-reported" );
  CHECK_EQ( c, d.after, !( bad && kind == THR ), "macro-flow", "the statement after the macro runs unless an exception was thrown" );
  CHECK_EQ( c, d.handler, bad && ( kind == ERR || kind == ASR ) ? 1 : 0, std::string( std::string( "macro-reports-" ) + name ).c_str(), "the error handler runs exactly once if the condition holds" );
  CHECK_EQ( c, d.threw, bad && kind == THR, std::string( std::string( "macro-throws-" ) + name ).c_str(), "an exception is thrown exactly if the condition holds" );
  CHECK( c, !d.wrongType, "macro-exception-type", "the exception has the named type" );
  if( !bad )
  {
    CHECK( c, d.evalL == 1 && d.evalR == ( binary ? 1 : 0 ) && d.evalMsg == 0, "macro-evaluation", "without a report the operands are evaluated once and the message not at all" );
    CHECK( c, d.text.empty(), "macro-silent", "nothing is printed without a report" );
    return;
  }
  CHECK( c, d.evalL >= 1 && ( !binary || d.evalR >= 1 ) && d.evalMsg == ( msg ? 1 : 0 ), "macro-evaluation", "the message is evaluated once when reporting" );
  if( !has( d.text, s_location ) ) c.fail( "macro-location", "the report does not name " + s_location + ":\n" + d.text );
  if( msg ) CHECK( c, has( d.text, "message-with-77" ), "macro-message", "the report contains the message" );
  CHECK( c, !has( d.text, "should be true" ), "macro-sense", "the expression shown is the one that should not hold" );
  if( kind != WARN && kind != INFO ) CHECK( c, has( d.text, "StackTrace" ), "macro-trace", "the report contains a stack trace" );
  if( binary )
  {
    CHECK( c, has( d.text, "lhs = " + show( a ) + "\n" ) && has( d.text, "rhs = " + show( b ) + "\n" ), "macro-values", "the report contains the values" );
    if( kind != ASR )
      if( !has( d.text, std::string( "lhs " ) + nop + " rhs" ) ) c.fail( "macro-expectation", std::string( "the report does not say lhs " ) + nop + " rhs:\n" + d.text );
  }
  else CHECK( c, has( d.text, "cond" ), "macro-condition", "the report contains the condition" );
  if( kind == WARN ) CHECK( c, has( d.text, "WARNING" ), "macro-kind", "a warning says so" );
  if( kind == INFO ) CHECK( c, has( d.text, "INFO" ), "macro-kind", "an info says so" );
  if( kind == ERR || kind == ASR ) CHECK( c, has( d.text, "ERROR" ), "macro-kind", "an error says so" );
}

#define MSG ( ++d.evalMsg, "message-with-" ) << 77
template< typename A, typename B >
void binaryMacros( Ctx & c )
{
  A const a = drawVal< A >( c.rng ); B const b = c.rng.chance( 30 ) ? same< A, B >( a ) : drawVal< B >( c.rng );
  // Variables cannot count, so a second form with counting expressions is used for the evaluations.
  int which = int( c.rng.below( 6 ) );
  bool const withMsg = c.rng.chance( 50 ), counting = c.rng.chance( 50 );
  Kind const kind = Kind( c.rng.below( 3 ) );
  static char const * const names[] = { "EQ", "NE", "GT", "GE", "LT", "LE" };
  static char const * const nops[] = { "!=", "==", "<=", "<", ">=", ">" };
  if( kind == ASR && which > 3 ) which -= 2;
  bool const t[] = { a == b, a != b, a > b, a >= b, a < b, a <= b };
  bool const bad = kind == ASR ? !t[ which ] : t[ which ];
  c.op( "%s %s %s %s ( %s , %s )%s", kind == ERR ? "ERROR_IF" : kind == THR ? "THROW_IF" : "ASSERT", names[ which ], withMsg ? "with message" : "", counting ? "counting" : "", show( a ).c_str(), show( b ).c_str(), bad ? " to be reported" : "" );
  Did d;
  {
    Captured cap;
    Handler h( cap );
    A const & lhs = a; B const & rhs = b;
    auto L = [&]() -> A const & { ++d.evalL; return a; };
    auto R = [&]() -> B const & { ++d.evalR; return b; };
    std::string thrown;
    try
    {
#define EACH( I, OP ) case I: \
      if( kind == ERR ) { \
        if( withMsg ) { if( counting ) { HERE(); LVARRAY_ERROR_IF_##OP##_MSG( L(), R(), MSG ); } else { HERE(); LVARRAY_ERROR_IF_##OP##_MSG( lhs, rhs, MSG ); } } \
        else { if( counting ) { HERE(); LVARRAY_ERROR_IF_##OP( L(), R() ); } else { HERE(); LVARRAY_ERROR_IF_##OP( lhs, rhs ); } } } \
      else if( kind == THR ) { \
        if( withMsg ) { if( counting ) { HERE(); LVARRAY_THROW_IF_##OP##_MSG( L(), R(), MSG, CustomError ); } else { HERE(); LVARRAY_THROW_IF_##OP##_MSG( lhs, rhs, MSG, CustomError ); } } \
        else { if( counting ) { HERE(); LVARRAY_THROW_IF_##OP( L(), R(), CustomError ); } else { HERE(); LVARRAY_THROW_IF_##OP( lhs, rhs, CustomError ); } } } \
      break;
      if( kind != ASR ) switch( which ) { EACH( 0, EQ ) EACH( 1, NE ) EACH( 2, GT ) EACH( 3, GE ) EACH( 4, LT ) EACH( 5, LE ) }
#define EACHA( I, OP ) case I: \
        if( withMsg ) { if( counting ) { HERE(); LVARRAY_ASSERT_##OP##_MSG( L(), R(), MSG ); } else { HERE(); LVARRAY_ASSERT_##OP##_MSG( lhs, rhs, MSG ); } } \
        else { if( counting ) { HERE(); LVARRAY_ASSERT_##OP( L(), R() ); } else { HERE(); LVARRAY_ASSERT_##OP( lhs, rhs ); } } \
        break;
      else switch( which ) { EACHA( 0, EQ ) EACHA( 1, NE ) EACHA( 2, GT ) EACHA( 3, GE ) }
      d.after = true;
    }
    catch( CustomError const & e ) { d.threw = true; thrown = e.what(); d.wrongType = typeid( e ) != typeid( CustomError ); }
    catch( std::exception const & e ) { d.threw = d.wrongType = true; thrown = e.what(); }
    d.handler = h.calls;
    d.text = d.threw ? thrown : h.calls ? h.seen : cap.str();
    if( d.threw && !cap.str().empty() ) c.event( "also-printed" );
  }
  bool const evaluated =
#if defined( NDEBUG )
    kind != ASR;
#else
    true;
#endif
  if( !counting && evaluated )
  {
    if( bad ) d.evalL = d.evalR = 1; else { CHECK_EQ( c, d.evalL, 0, "harness", "" ); d.evalL = d.evalR = 1; }
  }
  if( counting )
  {
    // the operands' text is that of the calls; make it comparable
    for( std::size_t p; ( p = d.text.find( "L()" ) ) != std::string::npos; ) d.text.replace( p, 3, "lhs" );
    for( std::size_t p; ( p = d.text.find( "R()" ) ) != std::string::npos; ) d.text.replace( p, 3, "rhs" );
  }
  verifyReport( c, d, kind, bad, withMsg, names[ which ], nops[ which ], a, b, true );
  c.nontrivial = true;
}

template< typename EX > void plainMacros( Ctx & c )
{
  bool const value = c.rng.chance( 50 );
  Kind const kind = Kind( c.rng.below( 5 ) );
  int const form = int( c.rng.below( 3 ) );
  c.op( "plain kind %d form %d value %d", int( kind ), form, int( value ) );
  bool const bad = form == 2 && kind != THR ? ( kind == ASR ? !value : true ) : kind == ASR ? !value : value;
  bool msg = true;
  bool unconditional = false;
  Did d;
  {
    Captured cap;
    Handler h( cap );
    auto cond = [&]() { ++d.evalL; return value; };
    std::string thrown;
    try
    {
      if( kind == ERR ) { if( form == 2 ) { unconditional = true; HERE(); LVARRAY_ERROR( MSG ); } else { HERE(); LVARRAY_ERROR_IF( cond(), MSG ); } }
      else if( kind == THR ) { HERE(); LVARRAY_THROW_IF( cond(), MSG, EX ); }
      else if( kind == ASR ) { if( form == 2 ) { msg = false; HERE(); LVARRAY_ASSERT( cond() ); } else { HERE(); LVARRAY_ASSERT_MSG( cond(), MSG ); } }
      else if( kind == WARN ) { if( form == 2 ) { unconditional = true; HERE(); LVARRAY_WARNING( MSG ); } else { HERE(); LVARRAY_WARNING_IF( cond(), MSG ); } }
      else { if( form == 2 ) { unconditional = true; HERE(); LVARRAY_INFO( MSG ); } else { HERE(); LVARRAY_INFO_IF( cond(), MSG ); } }
      d.after = true;
    }
    catch( EX const & e ) { d.threw = true; thrown = e.what(); d.wrongType = typeid( e ) != typeid( EX ); }
    catch( std::exception const & e ) { d.threw = d.wrongType = true; thrown = e.what(); }
    d.handler = h.calls;
    d.text = d.threw ? thrown : cap.str();
    if( h.calls ) CHECK_EQ( c, h.seen, cap.str(), "macro-order", "everything is printed before the handler runs" );
  }
  if( unconditional ) { d.evalL = 1; d.text += "cond"; }
  verifyReport( c, d, kind, bad, msg, "plain", "", 0, 0, false );
  if( !bad && !unconditional && !( kind == ASR ) ) CHECK_EQ( c, d.evalL, 1, "macro-evaluation", "evaluated once" );
  c.nontrivial = true;
}

void syntaxCase( Ctx & c )
{
  Captured cap;
  Handler h( cap );
  int x = int( c.rng.range( 0, 3 ) ), y = int( c.rng.range( 0, 3 ) ), taken = 0;
  c.op( "syntax %d %d", x, y );
  // a macro is one statement
  if( x == 0 ) LVARRAY_ERROR_IF( y == 1, "one" ); else taken = 1;
  CHECK_EQ( c, h.calls, ( x == 0 && y == 1 ) ? 1 : 0, "macro-statement", "a macro is one statement" );
  CHECK_EQ( c, taken, x == 0 ? 0 : 1, "macro-statement", "the else belongs to the outer if" );
  h.calls = 0; taken = 0;
  if( x == 1 ) LVARRAY_ERROR_IF_EQ( y, 2 ); else taken = 1;
  CHECK_EQ( c, h.calls, ( x == 1 && y == 2 ) ? 1 : 0, "macro-statement", "a macro is one statement" );
  CHECK_EQ( c, taken, x == 1 ? 0 : 1, "macro-statement", "the else belongs to the outer if" );
  h.calls = 0; taken = 0;
  if( x == 2 ) LVARRAY_WARNING_IF( y == 1, "w" ); else taken = 1;
  CHECK_EQ( c, taken, x == 2 ? 0 : 1, "macro-statement", "the else belongs to the outer if" );
  if( x == 2 ) LVARRAY_ASSERT_GT( y, -1 ); else taken = 2;
  CHECK_EQ( c, taken, x == 2 ? 0 : 2, "macro-statement", "the else belongs to the outer if" );
  // operands of low precedence
  h.calls = 0;
  LVARRAY_ERROR_IF( x == 1 || y == 1, "or" );
  CHECK_EQ( c, h.calls, x == 1 || y == 1 ? 1 : 0, "macro-precedence", "a disjunction" );
  h.calls = 0;
  LVARRAY_ERROR_IF_NE( x & 1, y & 1 );
  CHECK_EQ( c, h.calls, ( x & 1 ) != ( y & 1 ) ? 1 : 0, "macro-precedence", "bit operations" );
  h.calls = 0;
  LVARRAY_ERROR_IF_GE( x > 1 ? 5 : 0, y > 1 ? 5 : 1 );
  CHECK_EQ( c, h.calls, ( x > 1 ? 5 : 0 ) >= ( y > 1 ? 5 : 1 ) ? 1 : 0, "macro-precedence", "conditional operands" );
#if !defined( NDEBUG )
  h.calls = 0;
  LVARRAY_ASSERT( x == 0 || y == 0 );
  CHECK_EQ( c, h.calls, ( x == 0 || y == 0 ) ? 0 : 1, "macro-precedence", "a disjunction asserted" );
  h.calls = 0;
  LVARRAY_ASSERT_EQ( x & 1, y | 1 );
  CHECK_EQ( c, h.calls, ( x & 1 ) == ( y | 1 ) ? 0 : 1, "macro-precedence", "bit operations asserted" );
#endif
  h.calls = 0;
  // several in one scope, nested
  for( int i = 0; i < 3; ++i ) { LVARRAY_ERROR_IF( i == x, "a " << i ); LVARRAY_ERROR_IF( i == y, "b " << i ); }
  CHECK_EQ( c, h.calls, int( x < 3 ) + int( y < 3 ), "macro-statement", "each report is made" );
  c.nontrivial = true;
}
void logCase( Ctx & c )
{
  int const value = int( c.rng.range( -9, 9 ) );
  c.op( "log %d", value );
  Captured cap;
  Handler h( cap );
  LVARRAY_LOG( "text " << value << " end" );
  CHECK_EQ( c, cap.str(), "text " + std::to_string( value ) + " end\n", "macro-log", "LVARRAY_LOG prints its arguments" );
  cap.text.str( "" );
  LVARRAY_LOG_VAR( value );
  CHECK_EQ( c, cap.str(), "value = " + std::to_string( value ) + "\n", "macro-log", "LVARRAY_LOG_VAR prints name and value" );
  CHECK_EQ( c, h.calls, 0, "macro-log", "logging calls no handler" );
  c.nontrivial = true;
}
void handlerCase( Ctx & c )
{
  // whichever handler was installed last is called, however many there were
  int calls[ 4 ] = { 0, 0, 0, 0 }, want[ 4 ] = { 0, 0, 0, 0 };
  {
    Captured cap;
    struct Back { ~Back() { auto * b = std::cout.rdbuf(); installErrorHandler(); std::cout.rdbuf( b ); } } back;
    int current = -1;
    std::string big( std::size_t( c.rng.range( 0, 200 ) ), 'x' );
    for( int i = 0; i < 12; ++i )
    {
      if( current < 0 || c.rng.chance( 40 ) )
      {
        current = int( c.rng.below( 4 ) );
        c.op( "set handler %d", current );
        int const k = current;
        sys::setErrorHandler( [&calls, k, big]() { ++calls[ k ]; if( big.size() > 10000 ) std::abort(); } );
      }
      else
      {
        c.op( "report" );
        ++want[ current ];
        if( c.rng.chance( 50 ) ) sys::callErrorHandler(); else LVARRAY_ERROR( "x" );
      }
      for( int k = 0; k < 4; ++k ) CHECK_EQ( c, calls[ k ], want[ k ], "handler", "exactly the installed handler is called" );
    }
    // a null handler is refused with a report through the current one
    ++want[ current ];
    // ( the handler returns, so the null one is then installed: put a real one back at once )
    sys::setErrorHandler( nullptr );
    for( int k = 0; k < 4; ++k ) CHECK_EQ( c, calls[ k ], want[ k ], "handler-null", "a null handler is reported" );
  }
  c.nontrivial = true;
}

// calculateSize, demangle
void sizeCase( Ctx & c )
{
  for( int i = 0; i < 40; ++i )
  {
    std::uint64_t const b = c.rng.chance( 30 ) ? ( std::uint64_t( 1 ) << c.rng.below( 64 ) ) + std::uint64_t( c.rng.range( -2, 2 ) ) : c.rng.next() >> c.rng.below( 64 );
    c.op( "calculateSize %llu", ( unsigned long long ) b );
    std::string const s = sys::calculateSize( b );
    double v = 0; char unit[ 40 ] = {}; char tail = 0;
    int const n = std::sscanf( s.c_str(), "%lf %30s%c", &v, unit, &tail );
    CHECK_EQ( c, n, 2, "size-format", "a number and a unit" );
    std::string const u = unit;
    std::string const wantUnit = b >= ( 1ull << 30 ) ? "GB" : b >= ( 1ull << 20 ) ? "MB" : "KB";
    CHECK_EQ( c, u, wantUnit, "size-unit", "the largest unit not above the size" );
    long double const div = u == "GB" ? 1073741824.0L : u == "MB" ? 1048576.0L : 1024.0L;
    long double const want = ( long double )( b ) / div;
    CHECK( c, std::fabs( ( long double )( v ) - want ) <= 0.0500001L + want * 1e-15L, "size-value", "the size to one decimal" );
  }
  c.nontrivial = true;
}
struct NameProbe { template< typename T, int N > struct Inner {}; };
enum class EnumProbe { a };
template< typename T > void demangleOf( Ctx & c, char const * want )
{
  ++c.ops;
  CHECK_EQ( c, sys::demangle( typeid( T ).name() ), std::string( want ), "demangle", "demangle" );
  CHECK_EQ( c, sys::demangleType< T >(), std::string( want ), "demangle-type", "demangleType" );
}
void demangleCase( Ctx & c )
{
  demangleOf< int >( c, "int" );
  demangleOf< unsigned long >( c, "unsigned long" );
  demangleOf< double >( c, "double" );
  demangleOf< char const * >( c, "char const*" );
  demangleOf< NameProbe::Inner< long, 7 > >( c, "NameProbe::Inner<long, 7>" );
  demangleOf< EnumProbe >( c, "EnumProbe" );
  demangleOf< H::Ctx >( c, "H::Ctx" );
  CHECK_EQ( c, sys::demangleType( 3.0f ), std::string( "float" ), "demangle-type", "demangleType of a value" );
  CHECK_EQ( c, sys::demangle( nullptr ), std::string(), "demangle-null", "no name" );
  CHECK_EQ( c, sys::demangle( "main" ), std::string( "main" ), "demangle-plain", "an unmangled name stays" );
  CHECK_EQ( c, sys::demangle( "" ), std::string(), "demangle-plain", "an empty name stays" );
  CHECK_EQ( c, sys::demangle( "_Z3fooi" ), std::string( "foo(int)" ), "demangle", "a function" );
  // random names: what the ABI library says, or the name itself
  for( int i = 0; i < 30; ++i )
  {
    static char const alphabet[] = "_ZN3fooI1iEvPKcS0_T_LStL0123456789";
    std::string s = c.rng.chance( 70 ) ? "_Z" : "";
    for( long n = c.rng.range( 0, 14 ); n > 0; --n ) s += alphabet[ c.rng.below( sizeof( alphabet ) - 1 ) ];
    int status = 0;
    char * const p = abi::__cxa_demangle( s.c_str(), nullptr, nullptr, &status );
    std::string const want = status == 0 ? p : s;
    std::free( p );
    c.op( "demangle %s", s.c_str() );
    CHECK_EQ( c, sys::demangle( s.c_str() ), want, "demangle-random", "a demangled name or the name itself" );
  }
  c.nontrivial = true;
}

// stack traces
static std::string s_trace;
static int const s_leafLine = __LINE__ + 1;
__attribute__( ( noinline ) ) int traceLeaf( bool const loc ) { s_trace = sys::stackTrace( loc ); return int( s_trace.size() ); }
__attribute__( ( noinline ) ) int traceMiddle( int n, bool const loc ) { volatile int r = n > 0 ? traceMiddle( n - 1, loc ) : traceLeaf( loc ); return r + 1; }
__attribute__( ( noinline ) ) int traceOuter( int n, bool const loc ) { volatile int r = traceMiddle( n, loc ); return r + 1; }
int openFds() { int n = 0; if( DIR * d = opendir( "/proc/self/fd" ) ) { while( readdir( d ) ) ++n; closedir( d ); } return n; }
void traceCase( Ctx & c )
{
#if defined( LVARRAY_ADDR2LINE_EXEC )
  bool const loc = c.rng.chance( 70 );
  int const depth = int( c.rng.range( 0, 3 ) );
#else
  bool const loc = c.rng.chance( 50 );
  int const depth = int( c.rng.range( 0, 60 ) );
#endif
  c.op( "stackTrace depth %d location %d", depth, int( loc ) );
  int const fds = openFds();
  traceOuter( depth, loc );
  std::string const & t = s_trace;
  CHECK_EQ( c, openFds(), fds, "trace-fds", "no file descriptor is left open" );
  int const frames = countOf( t, "Frame " );
  CHECK( c, frames >= 1 && frames <= 25, "trace-frames", "between one and twenty five frames" );
  for( int i = 0; i < frames; ++i ) CHECK( c, has( t, "Frame " + std::to_string( i ) + ": " ), "trace-frames", "the frames are numbered" );
#if defined( TRACE_NAMES )
  int const leaf = countOf( t, "traceLeaf(" ), middle = countOf( t, "traceMiddle(" ), outer = countOf( t, "traceOuter(" );
  #if !defined( LVARRAY_ADDR2LINE_EXEC )
  // the first frame may or may not be stackTrace itself; from traceLeaf on the frames are known
  std::size_t const p = t.find( "traceLeaf(" );
  CHECK_EQ( c, leaf, 1, "trace-names", "the calling function" );
  CHECK( c, countOf( t.substr( 0, p ), "Frame " ) <= 3, "trace-skip", "no frames of the machinery come before the caller" );
  CHECK_EQ( c, middle, std::min( depth + 1, frames - countOf( t.substr( 0, p ), "Frame " ) ), "trace-names", "every activation" );
  if( depth < 15 )
  {
    CHECK_EQ( c, outer, 1, "trace-names", "the outer function" );
    CHECK( c, t.find( "traceMiddle(" ) > p && t.find( "traceOuter(" ) > t.rfind( "traceMiddle(" ), "trace-order", "innermost first" );
    CHECK( c, has( t, "traceCase(" ), "trace-names", "the case" );
  }
  #else
  CHECK( c, leaf >= 1 && middle >= 1 && outer >= 1, "trace-names", "the functions" );
  if( loc )
  {
    // file and line of the calls
    CHECK( c, countOf( t, "d_system.cpp:" ) >= depth + 3, "trace-location", "source locations" );
    for( int k = 0; k < 3; ++k )
    {
      std::string const where = "d_system.cpp:" + std::to_string( s_leafLine + k ); bool found = false;
      for( std::size_t at = t.find( where ); at != std::string::npos; at = t.find( where, at + 1 ) ) if( !std::isdigit( static_cast< unsigned char >( t[ at + where.size() ] ) ) ) found = true;
      CHECK( c, found, "trace-location", where );
    }
    CHECK( c, !has( t, "\n\nFrame" ), "trace-location", "one line per frame" );
    c.event( "locations-printed" );
  }
  #endif
#endif
  c.event( "frames", frames );
  c.nontrivial = true;
}

// signals
#if !defined( NO_SIGNALS )
static int const SIGS[] = { SIGHUP, SIGINT, SIGQUIT, SIGILL, SIGTRAP, SIGABRT, SIGFPE, SIGBUS, SIGSEGV, SIGSYS, SIGPIPE, SIGTERM };
using Hd = void ( * )( int );
volatile sig_atomic_t s_got[ 4 ];
void h0( int ) { ++s_got[ 0 ]; }
void h1( int ) { ++s_got[ 1 ]; }
void h2( int ) { ++s_got[ 2 ]; }
Hd dispositionOf( int sig ) { struct sigaction sa; sigaction( sig, nullptr, &sa ); return sa.sa_handler; }
struct SigSave
{
  struct sigaction old[ NSIG ];
  SigSave() { for( int s = 1; s < NSIG; ++s ) sigaction( s, nullptr, &old[ s ] ); }
  ~SigSave() { sys::resetSignalHandling(); for( int s = 1; s < NSIG; ++s ) if( s != SIGKILL && s != SIGSTOP ) sigaction( s, &old[ s ], nullptr ); }
};
void signalCase( Ctx & c )
{
  SigSave save;
  Hd const hs[] = { h0, h1, h2, SIG_IGN, SIG_DFL };
  for( int s : SIGS ) { Hd const h = hs[ c.rng.below( 5 ) ]; signal( s, h ); }
  std::map< int, Hd > original, now;
  for( int s : SIGS ) now[ s ] = dispositionOf( s );
  bool managed = false;
  for( int i = 0; i < 8; ++i )
  {
    int const k = int( c.rng.below( 3 ) );
    if( k < 2 )
    {
      Hd const h = hs[ c.rng.below( 5 ) ];
      c.op( "setSignalHandling %p", reinterpret_cast< void * >( h ) == nullptr ? nullptr : ( void * ) 1 );
      if( !managed ) original = now;
      managed = true;
      sys::setSignalHandling( h );
      for( auto & e : now ) e.second = h;
    }
    else
    {
      c.op( "resetSignalHandling" );
      sys::resetSignalHandling();
      if( managed ) now = original;
      managed = false;
    }
    for( auto const & e : now ) CHECK( c, dispositionOf( e.first ) == e.second, "signal-disposition", "every signal has the requested or its original handler" );
    int const s = SIGS[ c.rng.below( sizeof( SIGS ) / sizeof( int ) ) ];
    if( now[ s ] == h0 || now[ s ] == h1 || now[ s ] == h2 )
    {
      int const which = now[ s ] == h0 ? 0 : now[ s ] == h1 ? 1 : 2;
      int const before = s_got[ which ];
      raise( s );
      CHECK_EQ( c, int( s_got[ which ] ), before + 1, "signal-delivery", "the handler runs" );
      signal( s, now[ s ] );
      c.event( "signals-delivered" );
    }
  }
  c.nontrivial = true;
}
void onSignal( int sig ) { sys::stackTraceHandler( sig, true ); }
void stackTraceHandlerCase( Ctx & c )
{
  SigSave save;
  Captured cap;
  bool const exit = c.rng.chance( 60 ), real = exit && c.rng.chance( 60 );
  int const sig = SIGS[ c.rng.below( sizeof( SIGS ) / sizeof( int ) ) ];
  c.op( "stackTraceHandler signal %d exit %d delivered %d", sig, int( exit ), int( real ) );
  int calls = 0;
  Hd during = nullptr;
  std::string seen;
  {
    struct Back { ~Back() { auto * b = std::cout.rdbuf(); installErrorHandler(); std::cout.rdbuf( b ); } } back;
    sys::setErrorHandler( [&]() { ++calls; during = dispositionOf( sig ); seen = cap.str(); } );
    std::feclearexcept( FE_ALL_EXCEPT );
    int raised = 0;
    if( sig == SIGFPE && !real && c.rng.chance( 80 ) ) { raised = int( c.rng.next() ) & ( FE_DIVBYZERO | FE_INVALID | FE_OVERFLOW | FE_UNDERFLOW | FE_INEXACT ); std::feraiseexcept( raised ); raised = std::fetestexcept( FE_ALL_EXCEPT ); }
    sys::setSignalHandling( onSignal );
    if( real ) raise( sig );
    else sys::stackTraceHandler( sig, exit );
    std::feclearexcept( FE_ALL_EXCEPT );
    std::string const t = cap.str();
    CHECK_EQ( c, calls, exit ? 1 : 0, "signal-handler", "the error handler runs exactly if exiting" );
    if( exit )
    {
      CHECK( c, during == SIG_DFL, "signal-recursion", "the default handler is back before the error handler runs" );
      CHECK_EQ( c, seen, t, "signal-order", "everything is printed before the error handler runs" );
    }
    else CHECK( c, dispositionOf( sig ) == onSignal, "signal-kept", "the handlers stay without exiting" );
    CHECK( c, has( t, "signal " + std::to_string( sig ) ) && has( t, strsignal( sig ) ) && has( t, "StackTrace" ), "signal-text", "signal and stack trace are printed" );
    if( sig == SIGFPE )
    {
      CHECK_EQ( c, has( t, "Division by zero" ), ( raised & FE_DIVBYZERO ) != 0, "signal-fpe", "the raised exceptions are named" );
      CHECK_EQ( c, has( t, "Invalid" ), ( raised & FE_INVALID ) != 0, "signal-fpe", "the raised exceptions are named" );
      CHECK_EQ( c, has( t, "Overflow" ), ( raised & FE_OVERFLOW ) != 0, "signal-fpe", "the raised exceptions are named" );
      CHECK_EQ( c, has( t, "Underflow" ), ( raised & FE_UNDERFLOW ) != 0, "signal-fpe", "the raised exceptions are named" );
      CHECK_EQ( c, has( t, "Inexact" ), ( raised & FE_INEXACT ) != 0, "signal-fpe", "the raised exceptions are named" );
    }
  }
  // signal numbers out of range are not looked up
  if( c.rng.chance( 30 ) )
  {
    cap.text.str( "" );
    int const odd = c.rng.chance( 50 ) ? -int( c.rng.range( 1, 1000 ) ) : NSIG + int( c.rng.range( 0, 1000 ) );
    sys::stackTraceHandler( odd, false );
    CHECK( c, !has( cap.str(), "Received" ) && has( cap.str(), "StackTrace" ), "signal-odd", "an unknown signal only prints the trace" );
  }
  sys::resetSignalHandling();
  c.nontrivial = true;
}
static Register r_sig( "report/signals", signalCase, 2 );
static Register r_sth( "report/stackTraceHandler", stackTraceHandlerCase, 3, false );
#endif

static Register r_b1( "report/int-int", binaryMacros< int, int >, 3, false );
static Register r_b2( "report/unsigned", binaryMacros< unsigned, unsigned >, 2, false );
static Register r_b3( "report/long-int", binaryMacros< long, int >, 2, false );
static Register r_b4( "report/double", binaryMacros< double, double >, 3, false );
static Register r_b5( "report/double-int", binaryMacros< double, long >, 1, false );
static Register r_b6( "report/string", binaryMacros< std::string, std::string >, 2, false );
static Register r_b7( "report/int-unsigned", binaryMacros< int, unsigned >, 1, false );
static Register r_p1( "report/plain-runtime", plainMacros< std::runtime_error >, 3, false );
static Register r_p2( "report/plain-invalid", plainMacros< std::invalid_argument >, 1, false );
static Register r_p3( "report/plain-custom", plainMacros< CustomError >, 1, false );
static Register r_sy( "report/syntax", syntaxCase, 1, false );
static Register r_lo( "report/log", logCase, 1, false );
static Register r_ha( "report/handlers", handlerCase, 1, false );
static Register r_sz( "report/calculateSize", sizeCase, 1, false );
static Register r_dm( "report/demangle", demangleCase, 1, false );
static Register r_tr( "report/stackTrace", traceCase, 3, false );
H_MAIN()
