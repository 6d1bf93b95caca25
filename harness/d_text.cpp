// C16 text input ( input/ ) and C17 text output ( print/ ).
#include "array_util.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "CRSMatrix.hpp"
#include "input.hpp"
#include "output.hpp"
#include <sys/mman.h>
#include <iomanip>
#include <map>
#include <set>
#include <unistd.h>
using namespace H;
using IDX = std::ptrdiff_t;

// ------------------------------------------------------------------------------------------ C16
enum class Verdict { valid, invalid, unspecified };
template< typename T > struct Token
{
  // The whole token must be one value of the type.
  static bool read( std::string const & s, T & v ) { std::istringstream in( s ); in >> v; return !in.fail() && in.peek() == std::istringstream::traits_type::eof(); }
};
template<> struct Token< std::string > { static bool read( std::string const & s, std::string & v ) { v = s; return true; } };

// The documented grammar.
template< typename T, int N > struct Grammar
{
  std::string const & s; std::size_t p = 0;
  std::array< long, std::size_t( N ) > dims; std::vector< T > values;
  explicit Grammar( std::string const & x ): s( x ) { dims.fill( -1 ); }
  void skip() { while( p < s.size() && s[ p ] == ' ' ) ++p; }
  bool level( int d )
  {
    skip();
    if( p == s.size() || s[ p ] != '{' ) return false;
    ++p;
    for( long n = 1;; ++n )
    {
      skip();
      if( d == N - 1 )
      {
        std::size_t const b = p;
        while( p < s.size() && s[ p ] != '{' && s[ p ] != '}' && s[ p ] != ',' && s[ p ] != ' ' ) ++p;
        T v{};
        if( p == b || !Token< T >::read( s.substr( b, p - b ), v ) ) return false;
        values.push_back( v );
      }
      else if( !level( d + 1 ) ) return false;
      skip();
      if( p == s.size() ) return false;
      if( s[ p ] == ',' ) { ++p; continue; }
      if( s[ p ] != '}' ) return false;
      ++p;
      if( dims[ std::size_t( d ) ] >= 0 && dims[ std::size_t( d ) ] != n ) return false;
      dims[ std::size_t( d ) ] = n;
      return true;
    }
  }
  Verdict run()
  {
    for( char c : s ) if( c == '\t' || c == '\n' || c == '\r' || c == '\v' || c == '\f' ) return Verdict::unspecified;
    std::string t;
    for( char c : s ) if( c != ' ' ) t += c;
    if( t == "{}" ) return Verdict::valid;
    if( !level( 0 ) ) return Verdict::invalid;
    skip();
    return p == s.size() ? Verdict::valid : Verdict::invalid;
  }
};
template< typename T > std::enable_if_t< std::is_integral< T >::value, std::string > drawToken( Rng & r )
{
  if( r.chance( 8 ) ) return std::to_string( r.chance( 50 ) ? std::numeric_limits< T >::max() : std::numeric_limits< T >::min() );
  return std::to_string( r.range( -200, 200 ) );
}
template< typename T > std::enable_if_t< std::is_floating_point< T >::value, std::string > drawToken( Rng & r )
{
  char b[ 60 ];
  std::snprintf( b, sizeof( b ), r.chance( 50 ) ? "%g" : r.chance( 50 ) ? "%.3e" : "%.17g", ( r.unit() - 0.5 ) * ( r.chance( 20 ) ? 1e12 : 10 ) );
  return b;
}
template< typename T > std::enable_if_t< std::is_same< T, std::string >::value, std::string > drawToken( Rng & r )
{
  std::string s;
  static char const al[] = "abcXYZ019-+._/\"'\\()[]:;=\xc3\xa9";
  for( long n = r.range( 1, r.chance( 10 ) ? 40 : 4 ); n > 0; --n ) s += al[ r.below( sizeof( al ) - 1 ) ];
  return s;
}
inline std::string spaces( Rng & r, int density ) { return r.chance( density ) ? std::string( std::size_t( r.range( 1, 3 ) ), ' ' ) : ""; }
template< typename T, int N > std::string drawText( Rng & r, Idx< N > const & dims, int density, int d = 0 )
{
  std::string s = spaces( r, density ) + "{";
  for( long i = 0; i < dims[ std::size_t( d ) ]; ++i )
  {
    if( i > 0 ) s += ",";
    s += d == N - 1 ? spaces( r, density ) + drawToken< T >( r ) + spaces( r, density ) : drawText< T, N >( r, dims, density, d + 1 );
  }
  return s + spaces( r, density ) + "}" + spaces( r, density );
}
template< typename T > void mutate( Rng & r, std::string & s )
{
  static char const al[] = "{{{}}},,,   -+.019eEaxn\t\n";
  auto const pos = [&]() { return std::size_t( r.below( s.size() + 1 ) ); };
  switch( r.below( 10 ) )
  {
    case 0: if( !s.empty() ) s.erase( r.below( s.size() ), 1 ); break;
    case 1: s.insert( pos(), 1, al[ r.below( r.chance( 92 ) ? sizeof( al ) - 3 : sizeof( al ) - 1 ) ] ); break;
    case 2: if( !s.empty() ) s[ r.below( s.size() ) ] = al[ r.below( sizeof( al ) - 3 ) ]; break;
    case 3: { std::size_t const b = pos(); std::string const t = s.substr( b, std::size_t( r.range( 1, 12 ) ) ); s.insert( pos(), t ); break; }
    case 4: { std::size_t const b = pos(); s.erase( b, std::size_t( r.range( 1, 10 ) ) ); break; }
    case 5: if( s.size() > 1 ) std::swap( s[ r.below( s.size() ) ], s[ r.below( s.size() ) ] ); break;
    case 6: { // a structural edit at a delimiter
      std::vector< std::size_t > at;
      for( std::size_t i = 0; i < s.size(); ++i ) if( s[ i ] == '{' || s[ i ] == '}' || s[ i ] == ',' ) at.push_back( i );
      if( at.empty() ) break;
      std::size_t const i = at[ r.below( at.size() ) ];
      if( r.chance( 30 ) ) s.erase( i, 1 );
      else { static char const * const what[] = { ",", "{", "}", "{}", "{1}", ",1", "1,", "},{", "1-2", "x", ", ,", "}}", "{{", " 1 ", "99999999999999999999", "1e999", "0x1F", "nan" }; s.insert( i + r.below( 2 ), what[ r.below( 18 ) ] ); }
      break; }
    case 7: s = s.substr( 0, pos() ); break;
    case 8: { // a delimiter moves next to another one
      std::vector< std::size_t > at;
      for( std::size_t i = 0; i < s.size(); ++i ) if( s[ i ] == '{' || s[ i ] == '}' || s[ i ] == ',' ) at.push_back( i );
      if( at.size() < 2 ) break;
      std::size_t const i = at[ r.below( at.size() ) ];
      char const ch = s[ i ];
      s.erase( i, 1 );
      at.clear();
      for( std::size_t k = 0; k < s.size(); ++k ) if( s[ k ] == '{' || s[ k ] == '}' || s[ k ] == ',' ) at.push_back( k );
      s.insert( at[ r.below( at.size() ) ] + r.below( 2 ), 1, ch );
      break; }
    default: if( r.chance( 50 ) ) s += r.chance( 50 ) ? "}" : "x"; else s.insert( 0, r.chance( 50 ) ? "{" : "1" );
  }
}
template< typename A, typename T, int N > void sameContents( Ctx & c, A & a, Idx< N > const & dims, std::vector< T > const & v, char const * key )
{
  for( int d = 0; d < N; ++d ) CHECK_EQ( c, long( a.size( d ) ), dims[ std::size_t( d ) ], key, "extent" );
  std::size_t k = 0;
  forAll< N >( dims, [&]( Idx< N > const & i ) { ++c.checks; if( !( at< N >( a, i ) == v[ k ] ) ) c.fail( key, "the value at " + showIdx< N >( i ) + " is " + show( at< N >( a, i ) ) + ", written was " + show( v[ k ] ) ); ++k; } );
}
template< typename T, int N, typename PERM > void parseCase( Ctx & c )
{
  Rng & r = c.rng;
  Idx< N > dims = randomDims< N >( r, r.chance( 5 ) ? 2000 : 30, 0 );
  if( N == 1 && r.chance( 3 ) ) dims[ 0 ] = r.range( 60, 3000 );
  std::string text = r.chance( 3 ) ? ( r.chance( 50 ) ? "{}" : " {  } " ) : drawText< T, N >( r, dims, int( r.below( 3 ) ) * 30 );
  if( r.chance( 4 ) ) text = std::string( std::size_t( r.range( 0, 40 ) ), '{' ) + ( r.chance( 50 ) ? "1" : "" ) + std::string( std::size_t( r.range( 0, 40 ) ), '}' );
  if( r.chance( 65 ) ) for( long n = r.range( 1, r.chance( 70 ) ? 1 : 5 ); n > 0; --n ) mutate< T >( r, text );
  c.op( "parse '%s' into rank %d", text.substr( 0, 300 ).c_str(), N );
  Grammar< T, N > g( text );
  Verdict const want = g.run();
  MArray< T, N, PERM, IDX > a;
  if( r.chance( 50 ) ) { Idx< N > const old = randomDims< N >( r, 20, 5 ); resizeAll< N >( a, old ); }
  bool rejected = false;
  try { rejected = throwsError( [&]() { LvArray::input::stringToArray( a, text ); } ); }
  catch( std::exception const & e ) { c.fail( "wrong-exception", std::string( "an exception of the standard library leaves stringToArray: " ) + e.what() ); }
  ++c.checks; ++c.ops;
  if( want == Verdict::valid )
  {
    c.event( "well-formed" );
    if( rejected ) c.fail( "rejects-valid", "well-formed text was rejected: " + lastErrorText().substr( 0, 200 ) );
    if( g.values.empty() ) CHECK_EQ( c, long( a.size() ), 0L, "null-input", "{} gives an empty array" );
    else { Idx< N > d{}; for( std::size_t i = 0; i < std::size_t( N ); ++i ) d[ i ] = g.dims[ i ]; sameContents< decltype( a ), T, N >( c, a, d, g.values, "parsed-value" ); }
  }
  else if( want == Verdict::invalid )
  {
    c.event( "malformed" );
    if( !rejected ) c.fail( "accepts-invalid", "malformed text was accepted" );
  }
  else c.event( rejected ? "tabs-rejected" : "tabs-accepted" );
  // Whatever happened the array is still usable.
  resizeAll< N >( a, randomDims< N >( r, 10, 0 ) );
  c.nontrivial = text.size() > 3;
}
template< typename T, int N, typename PERM > void parsePrinted( Ctx & c )
{
  Rng & r = c.rng;
  Idx< N > dims = randomDims< N >( r, 60, 0 );
  if( N == 1 && r.chance( 10 ) ) dims[ 0 ] = 0;
  MArray< T, N, PERM, IDX > a; resizeAll< N >( a, dims );
  std::vector< T > v;
  forAll< N >( dims, [&]( Idx< N > const & i ) { T x{}; Token< T >::read( drawToken< T >( r ), x ); at< N >( a, i ) = x; v.push_back( x ); } );
  std::ostringstream o;
  o << std::setprecision( 17 ) << a;
  MArray< T, N, camp::make_idx_seq_t< N >, IDX > b;
  c.op( "parse printed '%s'", o.str().substr( 0, 300 ).c_str() );
  if( throwsError( [&]() { LvArray::input::stringToArray( b, o.str() ); } ) ) c.fail( "rejects-printed", "printed text was rejected: " + lastErrorText().substr( 0, 200 ) );
  sameContents< decltype( b ), T, N >( c, b, dims, v, "printed-value" );
  c.event( "printed and parsed" ); c.ops += 2;
  c.nontrivial = v.size() > 1;
}
using Q1 = camp::idx_seq< 0 >;
#define PARSE( NAME, T, N, PERM, W ) static Register r_parse_##NAME( "input/" #NAME, parseCase< T, N, PERM >, W, true ); static Register r_rt_##NAME( "input/printed-" #NAME, parsePrinted< T, N, PERM > )
using Q2 = camp::idx_seq< 0, 1 >; using Q2T = camp::idx_seq< 1, 0 >; using Q3 = camp::idx_seq< 2, 0, 1 >; using Q3I = camp::idx_seq< 0, 1, 2 >; using Q4 = camp::idx_seq< 3, 1, 0, 2 >;
#if PART == 1
PARSE( int1, int, 1, Q1, 4 ); PARSE( double1, double, 1, Q1, 3 ); PARSE( string1, std::string, 1, Q1, 3 ); PARSE( int2, int, 2, Q2T, 4 );
PARSE( string2, std::string, 2, Q2, 3 ); PARSE( long3, long, 3, Q3, 4 ); PARSE( double4, double, 4, Q4, 2 ); PARSE( string3, std::string, 3, Q3I, 2 );
#endif

// ------------------------------------------------------------------------------------------ C17
#if PART == 2
template< typename T, int N > std::string refPrint( Idx< N > const & dims, std::function< T( Idx< N > const & ) > const & f, int precision, int d, Idx< N > i )
{
  std::ostringstream o; o << std::setprecision( precision );
  o << "{ ";
  for( long k = 0; k < dims[ std::size_t( d ) ]; ++k )
  {
    i[ std::size_t( d ) ] = k;
    if( k ) o << ", ";
    if( d == N - 1 ) o << f( i ); else o << refPrint< T, N >( dims, f, precision, d + 1, i );
  }
  o << " }";
  return o.str();
}
template< typename X > std::string printed( X const & x, int precision ) { std::ostringstream o; o << std::setprecision( precision ); std::ostream & back = ( o << x ); return &back == &o ? o.str() : "the stream is not returned"; }
template< typename T > std::enable_if_t< std::is_floating_point< T >::value, T > drawValue( Rng & r ) { return T( ( r.unit() - 0.5 ) * ( r.chance( 20 ) ? 1e9 : 20 ) ); }
template< typename T > std::enable_if_t< !std::is_floating_point< T >::value, T > drawValue( Rng & r ) { return mk< T >( r.range( 0, 999 ) ); }
template< int LEFT > struct Slices
{
  template< typename T, int N, typename S > static void go( Ctx & c, S const & s, std::string const & want, std::function< T( Idx< N > const & ) > const & f, Idx< N > const & dims, int precision, int d, Idx< N > i )
  {
    CHECK_EQ( c, printed( s, precision ), want, "slice-text", "slice" );
    if( dims[ std::size_t( d ) ] == 0 ) return;
    i[ std::size_t( d ) ] = c.rng.range( 0, dims[ std::size_t( d ) ] - 1 );
    ++c.ops;
    Slices< LEFT - 1 >::template go< T, N >( c, s[ i[ std::size_t( d ) ] ], refPrint< T, N >( dims, f, precision, d + 1, i ), f, dims, precision, d + 1, i );
  }
};
template<> struct Slices< 1 >
{
  template< typename T, int N, typename S > static void go( Ctx & c, S const & s, std::string const & want, std::function< T( Idx< N > const & ) > const &, Idx< N > const &, int precision, int, Idx< N > )
  { CHECK_EQ( c, printed( s, precision ), want, "slice-text", "slice" ); ++c.ops; }
};
template< typename T, int N, typename PERM > void printArray( Ctx & c )
{
  Rng & r = c.rng;
  Idx< N > const dims = randomDims< N >( r, 60, 6 );
  MArray< T, N, PERM, IDX > a; resizeAll< N >( a, dims );
  if( r.chance( 40 ) ) a.reserve( a.size() + IDX( r.range( 1, 30 ) ) );
  std::map< Idx< N >, T > ref;
  forAll< N >( dims, [&]( Idx< N > const & i ) { at< N >( a, i ) = ref[ i ] = drawValue< T >( r ); } );
  std::function< T( Idx< N > const & ) > const f = [&]( Idx< N > const & i ) { return ref.at( i ); };
  int const precision = int( r.range( 3, 17 ) );
  std::string const want = refPrint< T, N >( dims, f, precision, 0, Idx< N >{} );
  c.op( "print %s of '%s'", showIdx< N >( dims ).c_str(), want.substr( 0, 200 ).c_str() );
  CHECK_EQ( c, printed( a, precision ), want, "array-text", "array" );
  CHECK_EQ( c, printed( a.toView(), precision ), want, "view-text", "view" );
  CHECK_EQ( c, printed( a.toViewConst(), precision ), want, "view-text", "view" );
  auto const & ca = a;
  CHECK_EQ( c, printed( ca, precision ), want, "array-text", "array" );
  Slices< N >::template go< T, N >( c, a.toSlice(), want, f, dims, precision, 0, Idx< N >{} );
  Slices< N >::template go< T, N >( c, a.toSliceConst(), want, f, dims, precision, 0, Idx< N >{} );
  forAll< N >( dims, [&]( Idx< N > const & i ) { CHECK( c, at< N >( a, i ) == ref.at( i ), "print-changes", "printing changed the array" ); } );
  c.ops += 4; c.event( prod< N >( dims ) == 0 ? "empty" : "filled" );
  c.nontrivial = prod< N >( dims ) > 1;
}
template< typename T > std::string refList( std::vector< T > const & v ) { if( v.empty() ) return "{}"; std::ostringstream o; o << "{ " << v[ 0 ]; for( std::size_t i = 1; i < v.size(); ++i ) o << ", " << v[ i ]; o << " }"; return o.str(); }
template< typename T > void printSorted( Ctx & c )
{
  LvArray::SortedArray< T, IDX, LvArray::MallocBuffer > s;
  std::set< T > ref;
  for( long n = c.rng.range( 0, c.rng.chance( 2 ) ? 600 : 20 ); n > 0; --n ) { T const v = drawValue< T >( c.rng ); s.insert( v ); ref.insert( v ); }
  if( c.rng.chance( 40 ) && !ref.empty() ) { T const v = *ref.begin(); ref.erase( v ); s.remove( v ); }
  if( c.rng.chance( 40 ) ) s.reserve( IDX( ref.size() ) + c.rng.range( 0, 10 ) );
  std::string const want = refList( std::vector< T >( ref.begin(), ref.end() ) );
  c.op( "print sorted '%s'", want.substr( 0, 200 ).c_str() );
  CHECK_EQ( c, printed( s, 6 ), want, "sorted-text", "sorted array" );
  CHECK_EQ( c, printed( s.toViewConst(), 6 ), want, "sorted-text", "sorted array view" );
  CHECK( c, std::equal( s.begin(), s.end(), ref.begin(), ref.end() ), "print-changes", "printing changed the set" );
  c.ops += 2; c.event( "sorted array" );
  c.nontrivial = ref.size() > 1;
}
template< typename T > void printAoA( Ctx & c )
{
  LvArray::ArrayOfArrays< T, IDX, LvArray::MallocBuffer > a;
  std::vector< std::vector< T > > ref;
  int const large = c.rng.chance( 2 ) ? 1 + int( c.rng.below( 2 ) ) : 0; // many arrays, or long ones
  for( long n = c.rng.range( 0, large == 1 ? 400 : 7 ); n > 0; --n )
  {
    a.appendArray( 0 ); ref.emplace_back();
    a.setCapacityOfArray( a.size() - 1, IDX( c.rng.range( 0, 6 ) ) );
    for( long k = c.rng.range( 0, large == 2 ? 400 : 6 ); k > 0; --k ) { T const v = drawValue< T >( c.rng ); a.emplaceBack( a.size() - 1, v ); ref.back().push_back( v ); }
  }
  if( c.rng.chance( 40 ) && !ref.empty() ) { std::size_t const i = c.rng.below( ref.size() ); ref.erase( ref.begin() + long( i ) ); a.eraseArray( IDX( i ) ); }
  if( c.rng.chance( 30 ) ) a.compress();
  std::ostringstream o;
  o << "{\n";
  for( std::size_t i = 0; i < ref.size(); ++i ) { o << i << "\t{"; for( T const & x : ref[ i ] ) o << x << ", "; o << "}\n"; }
  o << "}\n";
  c.op( "print arrays '%s'", o.str().substr( 0, 200 ).c_str() );
  CHECK_EQ( c, printed( a, 6 ), o.str(), "arrays-text", "array of arrays" );
  CHECK_EQ( c, printed( a.toViewConst(), 6 ), o.str(), "arrays-text", "array of arrays view" );
  CHECK_EQ( c, long( a.size() ), long( ref.size() ), "print-changes", "printing changed the arrays" );
  c.ops += 2; c.event( "array of arrays" );
  c.nontrivial = ref.size() > 1;
}
inline std::string printfOf( std::function< void() > const & f )
{
  std::fflush( stdout );
  int const keep = dup( 1 ), fd = memfd_create( "out", 0 );
  dup2( fd, 1 );
  f();
  std::fflush( stdout );
  dup2( keep, 1 ); close( keep );
  std::string s( std::size_t( lseek( fd, 0, SEEK_END ) ), 0 );
  lseek( fd, 0, SEEK_SET );
  if( !s.empty() ) { ssize_t const n = read( fd, &s[ 0 ], s.size() ); ( void ) n; }
  close( fd );
  return s;
}
template< typename T, typename COL > void printCRS( Ctx & c )
{
  int const large = c.rng.chance( 2 ) ? 1 + int( c.rng.below( 2 ) ) : 0; // many rows, or long ones (within an 8 bit column index)
  long const rows = c.rng.range( 0, large == 1 ? 300 : 6 ), cols = c.rng.range( 1, large == 2 ? 127 : 12 );
  LvArray::CRSMatrix< T, COL, IDX, LvArray::MallocBuffer > m( rows, cols, IDX( c.rng.range( 0, 4 ) ) );
  std::vector< std::map< COL, T > > ref( static_cast< std::size_t >( rows ) );
  for( long n = rows ? c.rng.range( 0, large ? 600 : 20 ) : 0; n > 0; --n )
  {
    long const i = c.rng.range( 0, rows - 1 ); COL const j = COL( c.rng.range( 0, cols - 1 ) ); T const v = drawValue< T >( c.rng );
    if( m.insertNonZero( i, j, v ) ) ref[ std::size_t( i ) ][ j ] = v;
    if( c.rng.chance( 15 ) ) { m.removeNonZero( i, j ); ref[ std::size_t( i ) ].erase( j ); }
  }
  if( c.rng.chance( 30 ) ) m.compress();
  std::ostringstream o;
  o << "{\n";
  for( std::size_t i = 0; i < ref.size(); ++i )
  {
    std::string x, y;
    { std::ostringstream p, q; bool first = true; for( auto const & e : ref[ i ] ) { if( !first ) { p << ", "; q << ", "; } first = false; p << e.first; q << e.second; } x = p.str(); y = q.str(); }
    o << "row " << i << "\n\tcolumns: { " << x << " }\n\tvalues: { " << y << " }\n";
  }
  o << "}\n";
  c.op( "print matrix '%s'", o.str().substr( 0, 300 ).c_str() );
  CHECK_EQ( c, printed( m.toViewConst(), 6 ), o.str(), "matrix-text", "matrix view" );
  // the console form
  char b[ 160 ];
  std::string w;
  std::snprintf( b, sizeof( b ), "numRows = %4ld \n", rows ); w += b;
  std::string sizes = "ncols       = { ", offs = "row_indexes = { ";
  for( long i = 0; i < rows; ++i ) { std::snprintf( b, sizeof( b ), "%4ld, ", long( ref[ std::size_t( i ) ].size() ) ); sizes += b; }
  IDX const * const offsets = m.toViewConst().getOffsets();
  for( long i = 0; i <= rows; ++i ) { std::snprintf( b, sizeof( b ), "%4ld, ", long( offsets[ i ] ) ); offs += b; }
  w += sizes + " }\n" + offs + " }\nrow      col      value \n----  --------- --------- \n";
  for( long i = 0; i < rows; ++i )
  {
    std::snprintf( b, sizeof( b ), "%4ld\n", long( ref[ std::size_t( i ) ].size() ) ); w += b;
    for( auto const & e : ref[ std::size_t( i ) ] ) { std::snprintf( b, sizeof( b ), "%4ld %9ld %9.2g\n", i, long( e.first ), double( e.second ) ); w += b; }
  }
  auto const view = m.toViewConst();
  std::string const got = printfOf( [&]() { LvArray::print< RAJA::loop_exec >( view ); } );
  CHECK_EQ( c, got, w, "matrix-console", "matrix console text" );
  for( std::size_t i = 0; i < ref.size(); ++i ) CHECK_EQ( c, long( m.numNonZeros( IDX( i ) ) ), long( ref[ i ].size() ), "print-changes", "printing changed the matrix" );
  c.ops += 2; c.event( "matrix" );
  c.nontrivial = rows > 1;
}
template< typename T > void printCArrays( Ctx & c )
{
  T a[ 1 ], b[ 4 ], d[ 3 ][ 2 ], e[ 1 ][ 1 ];
  std::vector< T > va, vb; std::string wd = "{ ", we;
  for( T & x : a ) va.push_back( x = drawValue< T >( c.rng ) );
  for( T & x : b ) vb.push_back( x = drawValue< T >( c.rng ) );
  for( int i = 0; i < 3; ++i ) { std::vector< T > v; for( T & x : d[ i ] ) v.push_back( x = drawValue< T >( c.rng ) ); wd += ( i ? ", " : "" ) + refList( v ); }
  e[ 0 ][ 0 ] = drawValue< T >( c.rng );
  we = "{ " + refList( std::vector< T >{ e[ 0 ][ 0 ] } ) + " }";
  c.op( "print C arrays '%s'", ( refList( vb ) + wd ).c_str() );
  using namespace LvArray;
  auto const text = []( auto const & x ) { std::ostringstream o; o << x; return o.str(); };
  CHECK_EQ( c, text( a ), refList( va ), "c-array-text", "C array" );
  CHECK_EQ( c, text( b ), refList( vb ), "c-array-text", "C array" );
  CHECK_EQ( c, text( d ), wd + " }", "c-array-text", "C array" );
  CHECK_EQ( c, text( e ), we, "c-array-text", "C array" );
  c.ops += 4; c.event( "C array" );
  c.nontrivial = true;
}
#define PR( NAME, T, N, PERM ) static Register r_pr_##NAME( "print/" #NAME, printArray< T, N, PERM > )
PR( int1, int, 1, Q1 ); PR( string1, std::string, 1, Q1 ); PR( double2, double, 2, Q2 ); PR( long2T, long, 2, Q2T ); PR( string3, std::string, 3, Q3 ); PR( double3, double, 3, Q3I ); PR( int4, int, 4, Q4 );
static Register r_ps1( "print/sorted-long", printSorted< long > ); static Register r_ps2( "print/sorted-string", printSorted< std::string > );
static Register r_pa1( "print/aoa-double", printAoA< double > ); static Register r_pa2( "print/aoa-string", printAoA< std::string > );
static Register r_pc1( "print/crs-double", printCRS< double, long > ); static Register r_pc2( "print/crs-float-int", printCRS< float, int > );
static Register r_pca( "print/carray-int", printCArrays< int > ); static Register r_pcd( "print/carray-double", printCArrays< double > );
#endif
H_MAIN()
