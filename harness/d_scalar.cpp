// C15 integer conversion and limits, C26 math functions.
#include "common.hpp"
#include "limits.hpp"
#include "math.hpp"
using namespace H;

// ------------------------------------------------------------------------------------------ C15
using Wide = __int128;
template< typename T > Wide trueMin() { return std::is_signed< T >::value ? -( Wide( 1 ) << ( sizeof( T ) * CHAR_BIT - 1 ) ) : Wide( 0 ); }
template< typename T > Wide trueMax() { return ( Wide( 1 ) << ( sizeof( T ) * CHAR_BIT - ( std::is_signed< T >::value ? 1 : 0 ) ) ) - 1; }
// plain char is signed here; the reference follows the sign bit of the type itself

template< typename IN > IN drawInt( Rng & r )
{
  Wide v = 0;
  switch( r.below( 6 ) )
  {
    case 0: v = Wide( r.range( -3, 3 ) ); break;
    case 1:   // a power of two and its neighbours, either sign
    {
      v = ( Wide( 1 ) << r.below( 64 ) ) + Wide( r.range( -2, 2 ) );
      if( r.chance( 50 ) ) v = -v;
      break;
    }
    case 2: v = trueMax< IN >() - Wide( r.below( 3 ) ); break;
    case 3: v = trueMin< IN >() + Wide( r.below( 3 ) ); break;
    case 4: v = Wide( std::int64_t( r.next() ) >> r.below( 64 ) ); break;
    default: v = Wide( r.next() >> r.below( 64 ) );
  }
  // brought into the range of IN
  return IN( std::uint64_t( v ) );
}

template< typename OUT, typename IN >
void convOne( Ctx & c, IN const in )
{
  Wide const v = Wide( in );
  bool const fits = v >= trueMin< OUT >() && v <= trueMax< OUT >();
  OUT got{};
  bool const err = throwsError( [&]() { got = LvArray::integerConversion< OUT >( in ); } );
  ++c.ops;
  c.event( fits ? "representable" : "not-representable" );
  CHECK_EQ( c, err, !fits, "conversion-error", "integerConversion reports an error exactly if the value is not representable" );
  if( fits ) CHECK( c, Wide( got ) == v, "conversion-value", "the value is kept" );
}
template< typename IN >
void convCase( Ctx & c )
{
  for( int i = 0; i < 6; ++i )
  {
    IN const in = drawInt< IN >( c.rng );
    c.op( "convert %s value %lld", typeid( IN ).name(), ( long long ) in );
    convOne< signed char >( c, in );
    convOne< unsigned char >( c, in );
    convOne< char >( c, in );
    convOne< short >( c, in );
    convOne< unsigned short >( c, in );
    convOne< int >( c, in );
    convOne< unsigned int >( c, in );
    convOne< long >( c, in );
    convOne< unsigned long >( c, in );
    convOne< long long >( c, in );
    convOne< unsigned long long >( c, in );
    convOne< std::ptrdiff_t >( c, in );
    convOne< std::size_t >( c, in );
  }
  c.nontrivial = true;
}
template< typename IN, typename OUT >
void convAll( Ctx & c )
{
  // every value of an 8 or 16 bit type
  for( Wide v = trueMin< IN >(); v <= trueMax< IN >(); ++v )
  {
    if( sizeof( IN ) == 2 && ( v & 127 ) > 2 && ( v & 127 ) < 125 && c.rng.below( c.thorough ? 2 : 64 ) ) continue;
    IN const in = IN( v );
    bool const fits = v >= trueMin< OUT >() && v <= trueMax< OUT >();
    OUT got{};
    bool const err = throwsError( [&]() { got = LvArray::integerConversion< OUT >( in ); } );
    ++c.ops;
    c.checks += 2;
    if( err == fits ) c.fail( "conversion-error", "integerConversion of " + std::to_string( long( v ) ) + ( err ? " reports an error" : " reports no error" ) );
    if( fits && Wide( got ) != v ) c.fail( "conversion-value", "integerConversion of " + std::to_string( long( v ) ) + " gives " + std::to_string( long( got ) ) );
    c.event( fits ? "representable" : "not-representable" );
  }
  c.hash = mix( hashStr( typeid( IN ).name() ), hashStr( typeid( OUT ).name() ) );
  c.nontrivial = true;
}
template< typename T > std::enable_if_t< std::is_integral< T >::value > limitsOf( Ctx & c )
{
  using L = LvArray::NumericLimits< T >;
  T const mn = L::min, lo = L::lowest, mx = L::max;
  CHECK( c, Wide( mn ) == trueMin< T >(), "limits", "min" );
  CHECK( c, Wide( lo ) == trueMin< T >(), "limits", "lowest" );
  CHECK( c, Wide( mx ) == trueMax< T >(), "limits", "max" );
  LvArray::NumericLimitsNC< T > nc;
  CHECK( c, nc.min == mn && nc.lowest == lo && nc.max == mx, "limits", "NumericLimitsNC" );
  CHECK( c, nc.epsilon == T( 0 ) && nc.denorm_min == T( 0 ), "limits", "integers have no epsilon" );
  c.ops += 5;
}
template< typename T > std::enable_if_t< std::is_floating_point< T >::value > limitsOf( Ctx & c )
{
  using L = LvArray::NumericLimits< T >;
  // computed, not looked up
  volatile T eps = 1;
  while( true ) { volatile T t = T( 1 ) + eps / 2; if( t == T( 1 ) ) break; eps = eps / 2; }
  volatile T den = 1;
  while( true ) { volatile T t = den / 2; if( t == T( 0 ) ) break; den = t; }
  T norm = 1;     // the smallest power of two that keeps full precision
  while( true ) { volatile T h = norm / 2; volatile T p = h * ( T( 1 ) + eps ); if( p == h || p / h != T( 1 ) + eps ) break; norm = h; }
  volatile T big = 2 - eps;
  while( true ) { volatile T t = big * 2; if( std::isinf( T( t ) ) ) break; big = t; }
  T const mn = L::min, lo = L::lowest, mx = L::max, e = L::epsilon, d = L::denorm_min, inf = L::infinity, q = L::quiet_NaN, s = L::signaling_NaN, re = L::round_error;
  CHECK( c, e == eps, "limits", "epsilon" );
  CHECK( c, d == den, "limits", "denorm_min" );
  CHECK( c, mn == norm, "limits", "min" );
  CHECK( c, mx == big, "limits", "max" );
  CHECK( c, lo == -big, "limits", "lowest" );
  CHECK( c, inf > mx && std::isinf( inf ), "limits", "infinity" );
  CHECK( c, std::isnan( q ) && std::isnan( s ), "limits", "NaN" );
  CHECK( c, re == T( 0.5 ), "limits", "round_error" );
  LvArray::NumericLimitsNC< T > nc;
  CHECK( c, nc.min == mn && nc.lowest == lo && nc.max == mx && nc.epsilon == e && nc.denorm_min == d, "limits", "NumericLimitsNC" );
  c.ops += 9;
}
void limitsCase( Ctx & c )
{
  limitsOf< char >( c ); limitsOf< signed char >( c ); limitsOf< unsigned char >( c ); limitsOf< short >( c ); limitsOf< unsigned short >( c );
  limitsOf< int >( c ); limitsOf< unsigned int >( c ); limitsOf< long >( c ); limitsOf< unsigned long >( c ); limitsOf< long long >( c ); limitsOf< unsigned long long >( c );
  limitsOf< float >( c ); limitsOf< double >( c ); limitsOf< long double >( c );
  c.op( "limits" );
  c.nontrivial = true;
}
#define CONV( T, N ) static Register r_conv_##N( "conv/" #N, convCase< T >, 4 )
CONV( signed char, i8 ); CONV( unsigned char, u8 ); CONV( char, c8 ); CONV( short, i16 ); CONV( unsigned short, u16 ); CONV( int, i32 ); CONV( unsigned int, u32 );
CONV( long, i64 ); CONV( unsigned long, u64 ); CONV( long long, ll ); CONV( unsigned long long, ull );
static Register r_limits( "conv/limits", limitsCase );
#define ALL( A, B, N ) static Register r_all_##N( "conv/all-" #N, convAll< A, B > )
ALL( signed char, unsigned char, i8u8 ); ALL( unsigned char, signed char, u8i8 ); ALL( short, unsigned short, i16u16 ); ALL( unsigned short, short, u16i16 ); ALL( short, signed char, i16i8 );
ALL( short, unsigned char, i16u8 ); ALL( unsigned short, signed char, u16i8 ); ALL( unsigned short, unsigned char, u16u8 ); ALL( signed char, unsigned long, i8u64 ); ALL( short, unsigned int, i16u32 );
ALL( signed char, unsigned short, i8u16 ); ALL( unsigned short, int, u16i32 );

// ------------------------------------------------------------------------------------------ C26
using LD = long double;
template< typename T > T ulpOf( LD ref )
{
  T const r = T( ref );
  if( !std::isfinite( r ) ) return std::numeric_limits< T >::max();
  T const a = std::fabs( r );
  T const n = std::nextafter( a, std::numeric_limits< T >::infinity() );
  return std::isfinite( n ) ? n - a : a - std::nextafter( a, T( 0 ) );
}
template< typename T > void near( Ctx & c, T got, LD ref, LD ulps, char const * what )
{
  ++c.checks; ++c.ops;
  T const r = T( ref );
  bool ok;
  if( std::isnan( ref ) ) ok = std::isnan( got );
  else if( std::isinf( r ) ) ok = ( got == r ) || ( std::isfinite( LD( ref ) ) && std::fabs( got ) >= std::numeric_limits< T >::max() && ( got > 0 ) == ( ref > 0 ) );
  else ok = std::isfinite( got ) && std::fabs( LD( got ) - ref ) <= ulps * LD( ulpOf< T >( ref ) ) && ( got != 0 || r != 0 || std::signbit( got ) == std::signbit( ref ) );
  if( !ok ) { char b[ 200 ]; std::snprintf( b, sizeof( b ), "%s gives %.21Lg, expected %.21Lg", what, LD( got ), ref ); c.fail( std::string( "math-" ) + what, b ); }
}
template< typename T > T drawFloat( Rng & r )
{
  static T const special[] = { T( 0 ), T( -0.0 ), T( 1 ), T( -1 ), T( 0.5 ), T( -0.5 ), T( 2 ), std::numeric_limits< T >::infinity(), -std::numeric_limits< T >::infinity(), std::numeric_limits< T >::quiet_NaN(),
                               std::numeric_limits< T >::max(), std::numeric_limits< T >::lowest(), std::numeric_limits< T >::min(), std::numeric_limits< T >::denorm_min(), T( 3.14159265358979323846L ),
                               T( 1.57079632679489661923L ), T( -3.14159265358979323846L ), T( 0.17 ), T( 1 ) + std::numeric_limits< T >::epsilon(), T( 1 ) - std::numeric_limits< T >::epsilon() / 2 };
  switch( r.below( 5 ) )
  {
    case 0: return special[ r.below( sizeof( special ) / sizeof( T ) ) ];
    case 1: return T( ( r.unit() - 0.5 ) * 2 );
    case 2: return T( ( r.unit() - 0.5 ) * 200 );
    case 3: return T( std::ldexp( T( r.unit() + 0.5 ), int( r.range( -60, 60 ) ) ) * ( r.chance( 50 ) ? 1 : -1 ) );
    default: return T( std::ldexp( T( r.unit() + 0.5 ), int( r.range( std::numeric_limits< T >::min_exponent - 5, std::numeric_limits< T >::max_exponent - 1 ) ) ) * ( r.chance( 50 ) ? 1 : -1 ) );
  }
}
// R is the type the functions are declared to return for arguments of type T.
template< typename T, typename R > void mathOf( Ctx & c, T const x, T const y )
{
  namespace m = LvArray::math;
  LD const X = LD( R( x ) ), Y = LD( R( y ) ); // integers are converted to double first
  static_assert( std::is_same< decltype( m::sqrt( x ) ), R >::value && std::is_same< decltype( m::invSqrt( x ) ), R >::value && std::is_same< decltype( m::sin( x ) ), R >::value
                 && std::is_same< decltype( m::cos( x ) ), R >::value && std::is_same< decltype( m::tan( x ) ), R >::value && std::is_same< decltype( m::asin( x ) ), R >::value
                 && std::is_same< decltype( m::acos( x ) ), R >::value && std::is_same< decltype( m::atan2( x, y ) ), R >::value && std::is_same< decltype( m::exp( x ) ), R >::value
                 && std::is_same< decltype( m::log( x ) ), R >::value, "return types" );
  near< R >( c, m::sqrt( x ), std::sqrt( X ), 1, "sqrt" );
  near< R >( c, m::invSqrt( x ), 1 / std::sqrt( X ), 2, "invSqrt" );
  near< R >( c, m::sin( x ), std::sin( X ), 2, "sin" );
  near< R >( c, m::cos( x ), std::cos( X ), 2, "cos" );
  near< R >( c, m::tan( x ), std::tan( X ), 3, "tan" );
  near< R >( c, m::asin( x ), std::asin( X ), 2, "asin" );
  near< R >( c, m::acos( x ), std::acos( X ), 2, "acos" );
  near< R >( c, m::atan2( y, x ), std::atan2( Y, X ), 2, "atan2" );
  near< R >( c, m::atan2( x, y ), std::atan2( X, Y ), 2, "atan2" );
  near< R >( c, m::exp( x ), std::exp( X ), 2, "exp" );
  near< R >( c, m::log( x ), std::log( X ), 2, "log" );
  R s = 77, k = 77;
  m::sincos( x, s, k );
  near< R >( c, s, std::sin( X ), 2, "sincos-sin" );
  near< R >( c, k, std::cos( X ), 2, "sincos-cos" );
  R const s1 = m::sin( x ), k1 = m::cos( x );
  CHECK( c, ( s == s1 || ( std::isnan( s ) && std::isnan( s1 ) ) ) && ( k == k1 || ( std::isnan( k ) && std::isnan( k1 ) ) ), "math-sincos", "sincos agrees with sin and cos" );
}
template< typename T > void ordered( Ctx & c, T const x, T const y )
{
  namespace m = LvArray::math;
  if( x == x && y == y )
  {
    T const mx = m::max( x, y ), mn = m::min( x, y );
    CHECK( c, ( mx == x || mx == y ) && !( mx < x ) && !( mx < y ), "math-max", "max" );
    CHECK( c, ( mn == x || mn == y ) && !( x < mn ) && !( y < mn ), "math-min", "min" );
    CHECK( c, m::max( y, x ) == mx && m::min( y, x ) == mn, "math-max", "max and min are symmetric" );
  }
  CHECK_EQ( c, m::numValues< T >(), 1, "math-numValues", "numValues" );
  static_assert( std::is_same< m::SingleType< T >, T >::value, "SingleType" );
  T const cv = m::convert< T >( x );
  CHECK( c, cv == x || x != x, "math-convert", "convert" );
  ++c.ops;
}
template< typename T > std::enable_if_t< std::is_signed< T >::value > intAbs( Ctx & c, T const x )
{
  if( x != std::numeric_limits< T >::min() ) CHECK( c, Wide( LvArray::math::abs( x ) ) == ( Wide( x ) < 0 ? -Wide( x ) : Wide( x ) ), "math-abs", "abs" );
}
template< typename T > std::enable_if_t< std::is_unsigned< T >::value > intAbs( Ctx &, T const ) {}
template< typename T > std::enable_if_t< std::is_integral< T >::value > absSquare( Ctx & c, T const x )
{
  namespace m = LvArray::math;
  intAbs( c, x );
  T const small = T( std::int64_t( x ) % 180 );
  CHECK( c, Wide( m::square( small ) ) == Wide( T( Wide( small ) * Wide( small ) ) ), "math-square", "square" );
}
template< typename T > std::enable_if_t< std::is_floating_point< T >::value > absSquare( Ctx & c, T const x )
{
  namespace m = LvArray::math;
  T const a = m::abs( x );
  CHECK( c, ( x != x && a != a ) || ( a == ( x < 0 ? -x : x ) && !std::signbit( a ) ), "math-abs", "abs" );
  volatile T const sq = x * x;
  T const got = m::square( x );
  CHECK( c, ( x != x && got != got ) || got == sq, "math-square", "square" );
}
template< typename T > std::enable_if_t< std::is_floating_point< T >::value, T > draw( Rng & r ) { return drawFloat< T >( r ); }
template< typename T > std::enable_if_t< std::is_integral< T >::value, T > draw( Rng & r ) { return drawInt< T >( r ); }
template< typename T, typename R > void mathCase( Ctx & c )
{
  for( int i = 0; i < 25; ++i )
  {
    T const x = draw< T >( c.rng ), y = c.rng.chance( 15 ) ? x : draw< T >( c.rng );
    c.op( "%s x %.20Lg y %.20Lg", typeid( T ).name(), LD( x ), LD( y ) );
    mathOf< T, R >( c, x, y );
    ordered< T >( c, x, y );
    absSquare< T >( c, x );
    absSquare< T >( c, y );
    c.event( std::isnan( LD( x ) ) || std::isinf( LD( x ) ) ? "non-finite" : LD( x ) == 0 ? "zero" : "finite" );
  }
  c.nontrivial = true;
}
template< typename T > void getCase( Ctx & c )
{
  namespace m = LvArray::math;
  T const x = draw< T >( c.rng );
  T const a = m::getFirst( x ), b = m::getSecond( x );
  CHECK( c, ( a == x && b == x ) || x != x, "math-getFirst", "getFirst and getSecond" );
  c.op( "getFirst %.20Lg", LD( x ) );
  c.nontrivial = true;
}
static Register r_mf( "math/float", mathCase< float, float >, 3 );
static Register r_md( "math/double", mathCase< double, double >, 3 );
static Register r_mi( "math/int", mathCase< int, double > );
static Register r_ml( "math/long", mathCase< long, double > );
static Register r_mu( "math/unsigned", mathCase< unsigned, double > );
static Register r_ms( "math/short", mathCase< short, double > );
static Register r_gf( "math/get-float", getCase< float > );
static Register r_gd( "math/get-double", getCase< double > );
static Register r_gi( "math/get-int", getCase< int > );
H_MAIN()
