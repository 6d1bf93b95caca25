// What debuggers are shown: the rows of TotalView, and what the GDB printers make of live containers.
#include "array_util.hpp"
#include "SortedArray.hpp"
#include "StackBuffer.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "CRSMatrix.hpp"
#include <sys/wait.h>
#include <unistd.h>
#include <fstream>
#include <map>
using namespace H;

#ifdef LVARRAY_USE_TOTALVIEW_OUTPUT
extern "C" { extern char TV_ttf_data_format_buffer[]; void TV_ttf_pre_display_callback( void ); void TV_ttf_post_display_callback( void ); }
static std::string shown() { return TV_ttf_data_format_buffer; }
static std::string text( Rng & r, bool bad )
{
  std::string s; long const n = r.chance( 3 ) ? r.range( 2000, 18000 ) : r.range( bad ? 1 : 0, 40 );
  for( long i = 0; i < n; ++i ) { char const x = char( r.range( 1, 126 ) ); s += x == '\n' || x == '\t' ? '_' : x; }
  if( bad ) s[ r.below( s.size() ) ] = r.chance( 50 ) ? '\n' : '\t';
  return s;
}
static void rowsCase( Ctx & c )
{
  Rng & r = c.rng;
  CHECK_EQ( c, TV_ttf_add_row( "a", "int", &c ), int( TV_ttf_ec_not_active ), "row", "before" );
  for( int f = TV_ttf_format_ok; f <= TV_ttf_format_never; ++f )
    CHECK_EQ( c, TV_ttf_is_format_result_ok( TV_ttf_format_result( f ) ) != 0, f == TV_ttf_format_ok || f == TV_ttf_format_ok_elide, "result", "" );
  for( int round = int( r.range( 1, 2 ) ); round > 0; --round )
  {
    TV_ttf_pre_display_callback();
    std::string all; bool started = false;
    for( int k = r.chance( 20 ) ? 1200 : int( r.range( 1, 40 ) ); k > 0; --k )
    {
      bool const badName = r.chance( 4 ), badType = r.chance( 4 );
      std::string const name = text( r, badName ), type = text( r, badType );
      int const bits = int( r.range( 0, 64 ) );
      std::uint64_t const address = bits ? ( r.next() | ( std::uint64_t( 1 ) << 63 ) ) >> ( 64 - bits ) : 0;
      char hex[ 32 ]; std::snprintf( hex, sizeof hex, "0x%llx", (unsigned long long) address );
      std::string const row = name + "\t" + type + "\t" + hex + "\n";
      int const e = TV_ttf_add_row( name.c_str(), type.c_str(), reinterpret_cast< void const * >( address ) );
      c.op( "add a row of %zu to %zu: %d", row.size(), all.size(), e );
      if( badName || badType ) { CHECK_EQ( c, e, int( TV_ttf_ec_invalid_characters ), "row", "tab or new line" ); }
      else if( e == TV_ttf_ec_buffer_exhausted ) { started = true; c.event( "exhausted" ); CHECK( c, all.size() + row.size() + 2 > 16384, "row", "no room for " << row.size() << " after " << all.size() ); }
      else { started = true; c.event( "rows" ); CHECK_EQ( c, e, int( TV_ttf_ec_ok ), "row", "" ); all += row; }
      if( started ) CHECK( c, shown() == all, "row-text", "" );
    }
    TV_ttf_post_display_callback();
    CHECK_EQ( c, TV_ttf_add_row( "a", "int", &c ), int( TV_ttf_ec_not_active ), "row", "afterwards" );
    if( started ) CHECK( c, shown() == all, "row-text", "" );
  }
  c.nontrivial = true;
}
struct Row { std::string type; std::uint64_t address; };
template< typename X > std::map< std::string, Row > rowsOf( Ctx & c, X const & x )
{
  TV_ttf_pre_display_callback();
  // The buffer is only cleared by the first row.
  TV_ttf_add_row( "first", "int", nullptr );
  CHECK_EQ( c, X::TV_ttf_display_type( &x ), 0, "display", "" );
  TV_ttf_post_display_callback();
  std::map< std::string, Row > m; std::istringstream is( shown() ); std::string line;
  while( std::getline( is, line ) )
  {
    std::size_t const a = line.find( '\t' ), b = line.find( '\t', a + 1 );
    CHECK( c, a != std::string::npos && b != std::string::npos, "display", line );
    m[ line.substr( 0, a ) ] = Row{ line.substr( a + 1, b - a - 1 ), std::stoull( line.substr( b + 1 ), nullptr, 16 ) };
    c.event( "rows" );
  }
  return m;
}
// Rows that name extents or strides are to lead to them.
template< int N, typename I, typename X > void lead( Ctx & c, std::map< std::string, Row > const & m, char const * name, X const & values )
{
  auto const it = m.find( name );
  CHECK( c, it != m.end(), "display", "no row " << name );
  CHECK( c, it->second.type == LvArray::system::demangleType< I >() + "[" + std::to_string( N ) + "]", "display-type", it->second.type );
  I const * const p = reinterpret_cast< I const * >( it->second.address );
  for( int i = 0; i < N; ++i ) CHECK_EQ( c, p[ i ], I( values[ i ] ), "display-values", name );
}
template< typename T, typename PERM, typename I > void displayCase( Ctx & c )
{
  constexpr int N = PermArray< PERM >::N;
  using A = LvArray::Array< T, N, PERM, I, LV_BUF >;
  A a; Idx< N > d{}; for( auto & x : d ) x = c.rng.chance( 10 ) ? 0 : c.rng.range( 1, 9 );
  resizeAll< N >( a, d ); c.op( "extents %s", showIdx< N >( d ).c_str() );
  auto const view = [&]( auto const & v )
  {
    auto const m = rowsOf( c, v );
    lead< N, I >( c, m, "m_dims", v.dims() ); lead< N, I >( c, m, "m_strides", v.strides() );
    auto const b = m.find( "m_dataBuffer" );
    if( b != m.end() ) CHECK( c, b->second.address >= std::uint64_t( &v ) && b->second.address < std::uint64_t( &v + 1 ), "display-buffer", "" );
  };
  view( a ); view( a.toView() ); view( a.toViewConst() );
  #ifdef LVARRAY_BOUNDS_CHECK
  {
    auto const s = a.toSlice(); auto const m = rowsOf( c, s );
    lead< N, I >( c, m, "m_dims", a.dims() ); lead< N, I >( c, m, "m_strides", a.strides() );
    std::string t = LvArray::system::demangleType< T >(); for( int i = 0; i < N; ++i ) t += "[" + std::to_string( d[ std::size_t( i ) ] ) + "]";
    auto const it = m.find( "tv(m_data)" ); CHECK( c, it != m.end(), "display", "no row for the values" );
    CHECK( c, it->second.type == t, "display-type", it->second.type << " is not " << t );
    CHECK_EQ( c, it->second.address, std::uint64_t( a.data() ), "display-values", "data" );
  }
  {
    // Extents of any size: nothing is read through the slice.
    I e[ N ], st[ N ]; Idx< N > shownE{}; for( int i = 0; i < N; ++i ) { e[ i ] = I( c.rng.next() >> c.rng.range( 1, 62 ) ) & std::numeric_limits< I >::max(); st[ i ] = I( c.rng.range( 0, 1000 ) ); shownE[ std::size_t( i ) ] = e[ i ]; }
    LvArray::ArraySlice< T, N, LvArray::typeManipulation::getStrideOneDimension( PERM() ), I > const s( a.data(), e, st );
    auto const m = rowsOf( c, s ); lead< N, I >( c, m, "m_dims", e ); lead< N, I >( c, m, "m_strides", st );
    std::string t = LvArray::system::demangleType< T >(); for( int i = 0; i < N; ++i ) t += "[" + std::to_string( e[ i ] ) + "]";
    c.op( "slice with extents %s", showIdx< N >( shownE ).c_str() );
    auto const it = m.find( "tv(m_data)" ); CHECK( c, it != m.end() && it->second.type == t && it->second.address == std::uint64_t( a.data() ), "display-type", "" );
  }
  #endif
  // Displaying nothing shows nothing.
  CHECK_EQ( c, A::TV_ttf_display_type( nullptr ), 0, "display", "" );
  c.nontrivial = prod< N >( d ) > 1;
}
static int registerAll()
{
  using namespace RAJA;
  Register( "debug/rows", rowsCase, 3 );
  Register( "debug/display/double/I", displayCase< double, PERM_I, int >, 1 );
  Register( "debug/display/int/IJ", displayCase< int, PERM_IJ, long >, 1 );
  Register( "debug/display/string/JI", displayCase< std::string, PERM_JI, int >, 1 );
  Register( "debug/display/Pod/JKI", displayCase< Pod, PERM_JKI, std::ptrdiff_t >, 1 );
  Register( "debug/display/long/IJKL", displayCase< long, PERM_IJKL, int >, 1 );
  return 0;
}
#else

// ------------------------------------------------------------------------------------------ GDB
// The driver runs itself under gdb. The process then builds random containers and stops in debugStop with each; debug.py writes what
// the printers show, the process what they ought to show.
extern "C" __attribute__((noinline, used)) void debugStop( int id ) { asm volatile( "" :: "r"( id ) : "memory" ); }
static std::ofstream * g_expected = nullptr;
static int g_id = 0;
template< typename X > __attribute__((noinline)) void show( X const & x, std::string const & expected )
{
  *g_expected << g_id << '\t' << expected << '\n' << std::flush;
  asm volatile( "" :: "r"( &x ) : "memory" );
  debugStop( g_id++ );
  asm volatile( "" :: "r"( &x ) : "memory" );
}
struct Pair { int a; double b; };
template< typename T > struct Val { static T make( Rng & r ) { return T( r.range( 0, 100 ) ); } static std::string str( T const & x ) { return std::to_string( (long long) x ); } };
template<> struct Val< double > { static double make( Rng & r ) { return double( r.range( -200, 200 ) ) / 2; } static std::string str( double const & x ) { char b[ 64 ]; std::snprintf( b, sizeof b, "%.1f", x ); return b; } };
template<> struct Val< float > { static float make( Rng & r ) { return float( r.range( -200, 200 ) ) / 2; } static std::string str( float const & x ) { return Val< double >::str( x ); } };
template<> struct Val< Pair > { static Pair make( Rng & r ) { return Pair{ int( r.range( 0, 99 ) ), Val< double >::make( r ) }; } static std::string str( Pair const & x ) { return "(" + std::to_string( x.a ) + "," + Val< double >::str( x.b ) + ")"; } };

template< typename T > std::string values( T const * p, long n ) { std::string s = "{"; for( long i = 0; i < n; ++i ) s += ( i ? "," : "" ) + Val< T >::str( p[ i ] ); return s + "}"; }
template< typename T, int N > struct Nested
{
  template< typename S > static std::string str( S const & s )
  { std::string r = "{"; for( long i = 0; i < long( s.size( 0 ) ); ++i ) r += ( i ? "," : "" ) + Nested< T, N - 1 >::str( s[ i ] ); return r + "}"; }
};
template< typename T > struct Nested< T, 0 > { static std::string str( T const & x ) { return Val< T >::str( x ); } };
template< int N, typename X > std::string extents( X const & x ) { std::string r; for( int i = 0; i < N; ++i ) r += "[" + std::to_string( (long long) x.size( i ) ) + "]"; return r; }
// Nothing is promised about the values of an array without elements.
template< typename T, int N, typename S > std::string content( S const & s ) { return s.size() ? Nested< T, N >::str( s ) : "none"; }

template< typename T, int N, typename I > struct Slices
{
  template< typename S > static void go( Rng & r, S const & s )
  {
    show( s, "array\t" + extents< N >( s ) + "\t" + content< T, N >( s ) );
    if( s.size( 0 ) > 0 ) Slices< T, N - 1, I >::go( r, s[ I( r.range( 0, long( s.size( 0 ) ) - 1 ) ) ] );
  }
};
template< typename T, typename I > struct Slices< T, 0, I > { template< typename S > static void go( Rng &, S const & ) {} };

template< typename T > using Stack = LvArray::StackBuffer< T, 300 >;
template< typename T, typename PERM, typename I, template< typename > class BUF > void arrays( Rng & r )
{
  constexpr int N = PermArray< PERM >::N;
  LvArray::Array< T, N, PERM, I, BUF > a;
  if( r.chance( 10 ) ) show( a, "array\t" + extents< N >( a ) + "\tnone" );
  for( int k = 0; k < 2; ++k )
  {
    Idx< N > d{}; for( auto & x : d ) x = r.chance( 8 ) ? 0 : r.range( 1, N > 2 ? 4 : 7 );
    resizeAll< N >( a, d );
    for( I i = 0; i < a.size(); ++i ) a.data()[ i ] = Val< T >::make( r );
    show( a, "array\t" + extents< N >( a ) + "\t" + content< T, N >( a.toSlice() ) );
    auto const v = a.toView(); show( v, "array\t" + extents< N >( a ) + "\t" + content< T, N >( a.toSlice() ) );
    auto const vc = a.toViewConst(); show( vc, "array\t" + extents< N >( a ) + "\t" + content< T, N >( a.toSlice() ) );
    auto const s = a.toSlice(); Slices< T, N, I >::go( r, s );
  }
}
template< typename T, typename PERM > void permuted( Rng & r )
{
  // The values are only promised for the default layout.
  constexpr int N = PermArray< PERM >::N;
  LvArray::Array< T, N, PERM, long, LV_BUF > a; Idx< N > d{}; for( auto & x : d ) x = r.range( 1, 5 ); resizeAll< N >( a, d );
  show( a, "array\t" + extents< N >( a ) + "\tany" ); auto const s = a.toSlice(); show( s, "array\t" + extents< N >( a ) + "\tany" );
}
template< typename T, template< typename > class BUF > void buffers( Rng & r )
{
  BUF< T > b( true );
  long const n = r.range( 1, 30 ); LvArray::bufferManipulation::resize( b, 0, n );
  for( long i = 0; i < n; ++i ) b[ i ] = Val< T >::make( r );
  if( b.capacity() == n ) { show( b, "buffer\t" + std::to_string( n ) + "\t" + values( b.data(), n ) ); BUF< T const > const bc( b ); show( bc, "buffer\t" + std::to_string( n ) + "\t" + values( b.data(), n ) ); }
  else show( b, "buffer\t" + std::to_string( (long) b.capacity() ) + "\tany" );
  LvArray::bufferManipulation::free( b, n );
}
template< typename X > std::string rows( X const & x )
{
  std::string s; for( long i = 0; i < long( x.size() ); ++i ) { s += "{"; for( long j = 0; j < long( x[ i ].size() ); ++j ) s += ( j ? "," : "" ) + Val< std::remove_const_t< std::remove_reference_t< decltype( x[ i ][ j ] ) > > >::str( x[ i ][ j ] ); s += "}"; }
  return "ragged\t" + std::to_string( (long) x.size() ) + "\t" + s;
}
template< typename T, typename I > void ragged( Rng & r )
{
  LvArray::ArrayOfArrays< T, I, LV_BUF > a;
  if( r.chance( 10 ) ) show( a, rows( a ) );
  for( long n = r.range( 1, 6 ); n > 0; --n )
  {
    std::vector< T > b; for( long k = r.range( 0, 6 ); k > 0; --k ) b.push_back( Val< T >::make( r ) );
    a.appendArray( b.begin(), b.end() );
    if( r.chance( 40 ) ) a.setCapacityOfArray( I( r.range( 0, long( a.size() ) - 1 ) ), I( r.range( 6, 9 ) ) );
    if( a.sizeOfArray( 0 ) && r.chance( 40 ) ) a.eraseFromArray( 0, 0 );
  }
  show( a, rows( a ) );
  auto const v = a.toView(), w = v; show( w, rows( a ) ); auto const vs = a.toViewConstSizes(); show( vs, rows( a ) ); auto const vc = a.toViewConst(); show( vc, rows( a ) );
}
static void sets( Rng & r )
{
  LvArray::ArrayOfSets< int, long, LV_BUF > s( r.range( 1, 4 ), 6 );
  for( int k = 0; k < 8; ++k ) s.insertIntoSet( r.range( 0, long( s.size() ) - 1 ), int( r.range( 0, 50 ) ) );
  show( s, rows( s.toViewConst() ) ); auto const v = s.toViewConst(); show( v, rows( v ) );
}
static void matrices( Rng & r )
{
  LvArray::CRSMatrix< double, int, long, LV_BUF > m( r.range( 1, 4 ), 40, 6 );
  for( int k = 0; k < 8; ++k ) m.insertNonZero( r.range( 0, long( m.numRows() ) - 1 ), int( r.range( 0, 39 ) ), Val< double >::make( r ) );
  std::string s; for( long i = 0; i < m.numRows(); ++i ) s += values( m.getColumns( i ).dataIfContiguous(), long( m.numNonZeros( i ) ) );
  show( m, "ragged\t" + std::to_string( (long) m.numRows() ) + "\t" + s ); auto const v = m.toViewConst(); show( v, "ragged\t" + std::to_string( (long) m.numRows() ) + "\t" + s );
}
static void child( std::uint64_t seed )
{
  using namespace RAJA;
  Rng r( seed );
  for( int k = 0; k < 24; ++k )
  {
    switch( r.below( 16 ) )
    {
      case 0: arrays< int, PERM_I, int, LV_BUF >( r ); break;
      case 1: arrays< double, PERM_IJ, long, LV_BUF >( r ); break;
      case 2: arrays< long, PERM_IJK, int, LV_BUF >( r ); break;
      case 3: arrays< Pair, PERM_IJ, std::ptrdiff_t, LV_BUF >( r ); break;
      case 4: arrays< float, PERM_IJKL, int, LV_BUF >( r ); break;
      case 5: arrays< long, PERM_IJ, int, Stack >( r ); break;
      case 6: arrays< short, PERM_IJK, short, Stack >( r ); break;
      case 7: permuted< int, PERM_JI >( r ); permuted< double, PERM_KJI >( r ); break;
      case 8: buffers< int, LV_BUF >( r ); break;
      case 9: buffers< Pair, LV_BUF >( r ); break;
      case 10: buffers< double, Stack >( r ); break;
      case 11: ragged< int, int >( r ); break;
      case 12: ragged< double, long >( r ); break;
      case 13: ragged< Pair, int >( r ); break;
      case 14: sets( r ); break;
      default: matrices( r ); break;
    }
  }
}
static std::vector< std::string > lines( std::string const & path ) { std::vector< std::string > v; std::ifstream f( path ); std::string l; while( std::getline( f, l ) ) v.push_back( l ); return v; }
struct Session { std::vector< std::string > want, got; int status; };
// Runs this program under gdb, in a scratch directory of its own.
static Session debugged( std::uint64_t seed, char const * limit )
{
  Session r; r.status = -1;
  char dir[] = "/tmp/lvdebugXXXXXX"; if( !mkdtemp( dir ) ) return r;
  std::string const d = dir, want = d + "/want", got = d + "/got";
  char self[ 4096 ]; ssize_t const n = readlink( "/proc/self/exe", self, sizeof self - 1 ); self[ n > 0 ? n : 0 ] = 0;
  std::string script = __FILE__; script = script.substr( 0, script.rfind( '/' ) ) + "/debug.py";
  std::fflush( nullptr );
  pid_t const pid = fork();
  if( pid == 0 )
  {
    setenv( "LV_DEBUG_CHILD", std::to_string( seed ).c_str(), 1 ); setenv( "LV_DEBUG_WANT", want.c_str(), 1 ); setenv( "LV_DEBUG_GOT", got.c_str(), 1 ); setenv( "LV_DEBUG_REPO", REPO_DIR, 1 ); setenv( "LV_DEBUG_SELF", self, 1 ); setenv( "HOME", dir, 1 );
    if( !std::freopen( "/dev/null", "w", stdout ) || !std::freopen( "/dev/null", "r", stdin ) ) _exit( 9 );
    if( !std::getenv( "LV_DEBUG_VERBOSE" ) && !std::freopen( "/dev/null", "w", stderr ) ) _exit( 9 );
    execlp( "timeout", "timeout", "-k", "5", limit, "gdb", "-nx", "-q", "-batch", "-x", script.c_str(), (char *) nullptr );
    _exit( 9 );
  }
  int status = 0; waitpid( pid, &status, 0 ); r.status = WIFEXITED( status ) ? WEXITSTATUS( status ) : -1;
  r.want = lines( want ); r.got = lines( got );
  for( auto const & p : { want, got } ) unlink( p.c_str() );
  rmdir( dir );
  return r;
}
static bool complete( Session const & s ) { return !s.got.empty() && s.got.back() == "finished" && s.want.size() + 1 == s.got.size(); }
static void gdbCase( Ctx & c )
{
  std::uint64_t const seed = c.rng.next();
  Session s = debugged( seed, "40" );
  if( !complete( s ) )
  {
    // Either gdb does not work here, then there is nothing to observe, or it fails with the same object again.
    Session const t = debugged( seed, "80" );
    bool const again = !complete( t ) && !s.want.empty() && s.want.size() == t.want.size() && s.got.size() + 1 == s.want.size() && t.got.size() == s.got.size();
    CHECK( c, !again, "shown", "gdb ends with " << s.status << " while it shows " << s.want.back() );
    if( !complete( t ) ) { c.event( "gdb not usable" ); return; }
    s = t;
  }
  std::vector< std::string > const & w = s.want, & g = s.got;
  for( std::size_t i = 0; i < w.size(); ++i )
  {
    std::string const & e = w[ i ], & o = g[ i ];
    c.event( "objects shown" );
    bool const any = e.size() > 4 && ( e.substr( e.size() - 4 ) == "\tany" );
    bool const same = any ? o.substr( 0, o.rfind( '\t' ) ) == e.substr( 0, e.size() - 4 ) : e == o;
    if( !same ) { c.op( "expected %s", e.c_str() ); c.op( "shown %s", o.c_str() ); }
    CHECK( c, same, "shown", o << " instead of " << e );
  }
  c.nontrivial = true;
}
static int registerAll()
{
  if( char const * const s = std::getenv( "LV_DEBUG_CHILD" ) )
  {
    std::ofstream f( std::getenv( "LV_DEBUG_WANT" ) ); g_expected = &f;
    child( std::strtoull( s, nullptr, 10 ) );
    f.close(); _exit( 0 );
  }
  Register( "debug/gdb", gdbCase, 1, false );
  return 0;
}
#endif
static int const registered = registerAll();
H_MAIN()
