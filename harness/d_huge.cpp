// Extents, sizes and offsets beyond 2^31: memory is reserved but only touched where values are written.
#include "array_util.hpp"
#include "sortedArrayManipulation.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "CRSMatrix.hpp"
#include "memcpy.hpp"
#include "bufferManipulation.hpp"
#include <sys/mman.h>
#include <map>
#include <set>
#include <numeric>
using namespace H;
using L = std::ptrdiff_t;
static long const G2 = 1L << 31, G4 = 1L << 32;

// An anonymous mapping: reads as zero, costs nothing until written.
struct Lazy
{
  explicit Lazy( std::size_t n ): bytes( n ), p( mmap( nullptr, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0 ) )
  {}
  ~Lazy() { if( ok() ) munmap( p, bytes ); }
  bool ok() const { return p != MAP_FAILED; }
  Lazy( Lazy const & ) = delete;
  std::size_t bytes; void * p;
};

// Cases that really touch gigabytes are left out where there is little memory.
static bool scarce( Ctx & c )
{
  long kb = 1L << 40;
  if( std::FILE * f = std::fopen( "/proc/meminfo", "r" ) )
  {
    char line[ 256 ];
    while( std::fgets( line, sizeof( line ), f ) ) if( std::sscanf( line, "MemAvailable: %ld", &kb ) == 1 ) break;
    std::fclose( f );
  }
  if( kb >= 9L << 20 ) return false;
  c.event( "left out: less than 9 GB of memory available" );
  return true;
}

// ---------------------------------------------------------------------------------------- sorted ranges
// A sorted range of distinct elements of which all but the last few are never written: those compare by where they lie, and before every other.
struct Elem
{
  signed char v;
  static Elem const * begin, * end;
  long key() const { return this >= begin && this < end ? this - begin : ( 1L << 40 ) + v; }
  bool operator<( Elem const & o ) const { return key() < o.key(); }
  bool operator>( Elem const & o ) const { return key() > o.key(); }
  bool operator==( Elem const & o ) const { return key() == o.key(); }
  bool operator!=( Elem const & o ) const { return key() != o.key(); }
};
Elem const * Elem::begin; Elem const * Elem::end;
struct Growing: LvArray::sortedArrayManipulation::CallBacks< Elem >
{ explicit Growing( Elem * q ): p( q ) {} Elem * p; Elem * incrementSize( Elem *, std::ptrdiff_t ) const { return p; } };
static void sortedCase( Ctx & c )
{
  namespace sam = LvArray::sortedArrayManipulation;
  long const base = ( c.rng.chance( 50 ) ? G2 : G4 ) + c.rng.range( -3000, 3000 );
  Lazy mem( std::size_t( base ) + 8192 );
  if( !mem.ok() ) return;
  Elem * const p = static_cast< Elem * >( mem.p );
  Elem::begin = p; Elem::end = p + base;
  std::vector< signed char > tail;
  for( int v = 1; v < 120; ++v ) if( c.rng.chance( 50 ) ) tail.push_back( ( signed char )( v ) );
  for( std::size_t i = 0; i < tail.size(); ++i ) p[ base + long( i ) ].v = tail[ i ];
  c.op( "%ld untouched elements and %zu values", base, tail.size() );
  int const steps = c.thorough ? 400 : 60;
  for( int k = 0; k < steps; ++k )
  {
    L const n = base + long( tail.size() );
    signed char const x = ( signed char )( c.rng.range( 1, 126 ) );
    Elem const e{ x };
    auto it = std::lower_bound( tail.begin(), tail.end(), x );
    bool const has = it != tail.end() && *it == x;
    long const pos = base + ( it - tail.begin() );
    switch( c.rng.below( 5 ) )
    {
      case 0: c.op( "find %d", int( x ) ); CHECK_EQ( c, long( sam::find( p, n, e ) ), pos, "huge-find", "" ); break;
      case 1: c.op( "contains %d", int( x ) ); CHECK_EQ( c, sam::contains( p, n, e ), has, "huge-contains", "" ); break;
      case 2:
      {
        c.op( "insert %d", int( x ) );
        bool const r = sam::insert( p, n, e, Growing( p ) );
        CHECK_EQ( c, r, !has, "huge-insert", "" );
        if( !has ) tail.insert( it, x );
        break;
      }
      case 3:
      {
        c.op( "remove %d", int( x ) );
        bool const r = sam::remove( p, n, e, sam::CallBacks< Elem >() );
        CHECK_EQ( c, r, has, "huge-remove", "" );
        if( has ) tail.erase( it );
        break;
      }
      case 4:
      {
        std::vector< signed char > batch; std::vector< Elem > elems;
        for( int v = 1; v < 127; ++v ) if( c.rng.chance( 8 ) ) { batch.push_back( ( signed char )( v ) ); elems.push_back( Elem{ ( signed char )( v ) } ); }
        bool const add = c.rng.chance( 50 );
        c.op( "%s a batch of %zu", add ? "insert" : "remove", batch.size() );
        long expected = 0;
        std::vector< signed char > next = tail;
        for( signed char v : batch )
        {
          auto jt = std::lower_bound( next.begin(), next.end(), v );
          bool const h = jt != next.end() && *jt == v;
          if( add && !h ) { next.insert( jt, v ); ++expected; }
          if( !add && h ) { next.erase( jt ); ++expected; }
        }
        long const r = add ? long( sam::insert( p, n, elems.begin(), elems.end(), Growing( p ) ) ) : long( sam::remove( p, n, elems.begin(), elems.end() ) );
        CHECK_EQ( c, r, expected, "huge-batch", ( add ? "insert" : "remove" ) );
        tail = next;
        break;
      }
    }
    for( std::size_t i = 0; i < tail.size(); ++i ) CHECK_EQ( c, int( p[ base + long( i ) ].v ), int( tail[ i ] ), "huge-values", "value " << i << " behind the untouched ones" );
    CHECK( c, p[ 0 ].v == 0 && p[ base / 2 ].v == 0 && p[ base - 1 ].v == 0 && p[ base / 4 ].v == 0, "huge-values", "an untouched element changed" );
    c.event( "operation behind 2^31 elements" );
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------- layout
template< typename A, std::size_t... IS > void rawResize( A & a, Idx< int( sizeof...( IS ) ) > const & d, std::index_sequence< IS... > )
{ a.resizeWithoutInitializationOrDestruction( d[ IS ]... ); }
template< typename T, typename PERM, typename IT > void layoutCase( Ctx & c )
{
  constexpr int N = PermArray< PERM >::N;
  using A = MArray< T, N, PERM, IT >;
  // Elements: beyond 2^31 where the index type allows it, otherwise bytes beyond 2^31.
  long const limit = sizeof( IT ) == 4 ? ( sizeof( T ) == 1 ? G2 - 1 : G2 / 4 ) : ( 5 * G2 ) / long( sizeof( T ) );
  Idx< N > d{};
  long left = limit;
  for( int k = 0; k < N; ++k ) d[ std::size_t( k ) ] = 1;
  for( int tries = 0; tries < 40; ++tries )
  {
    std::size_t const k = c.rng.below( N );
    long const f = tries < 6 ? c.rng.range( 2, 3000 ) : c.rng.range( 2, 5 );
    if( left / f < 1 ) continue;
    d[ k ] *= f; left /= f;
  }
  if( left > 1 ) d[ c.rng.below( N ) ] *= left;
  c.op( "extents %s", showIdx< N >( d ).c_str() );
  A a;
  rawResize( a, d, std::make_index_sequence< std::size_t( N ) >{} );
  auto const view = a.toView();
  Idx< N > const s = refStrides< PERM >( d );
  CHECK_EQ( c, long( a.size() ), prod< N >( d ), "huge-size", "" );
  CHECK_EQ( c, long( view.size() ), prod< N >( d ), "huge-size", "view" );
  for( int k = 0; k < N; ++k ) { CHECK_EQ( c, long( a.size( k ) ), d[ std::size_t( k ) ], "huge-size", "dim " << k ); CHECK_EQ( c, long( a.strides()[ k ] ), s[ std::size_t( k ) ], "huge-stride", "dim " << k ); }
  CHECK( c, view.toSlice().isContiguous(), "huge-contiguous", "" );
  CHECK( c, long( a.capacity() ) >= long( a.size() ), "huge-size", "capacity" );
  CHECK( c, view.end() - view.begin() == prod< N >( d ), "huge-size", "iterators" );
  T * const p = a.data();
  std::map< long, T > written;
  for( int k = 0; k < ( c.thorough ? 400 : 80 ); ++k )
  {
    Idx< N > i{};
    for( int q = 0; q < N; ++q )
    {
      long const e = d[ std::size_t( q ) ];
      i[ std::size_t( q ) ] = c.rng.chance( 40 ) ? e - 1 : c.rng.chance( 20 ) ? 0 : c.rng.range( 0, e - 1 );
    }
    long const off = dot< N >( i, s );
    T const v = T( 1 + c.rng.below( 100 ) );
    CHECK_EQ( c, lin< N >( view, i ), off, "huge-linear", showIdx< N >( i ) );
    CHECK( c, &at< N >( view, i ) == p + off && &chain< N >( view, i ) == p + off && &at< N >( view.toSliceConst(), i ) == p + off && &at< N >( a, i ) == p + off, "huge-address",
           showIdx< N >( i ) << " offset " << ( &at< N >( view, i ) - p ) << ", expected " << off );
    if( c.rng.chance( 50 ) ) at< N >( view, i ) = v; else chain< N >( view, i ) = v;
    written[ off ] = v;
    for( int q = 0; q < 2; ++q ) { CHECK( c, at< N >( view, i ) == v, "huge-value", "" ); }
    if( off > 0x7fffffffL || off * long( sizeof( T ) ) > 0x7fffffffL ) c.event( "element behind 2^31 elements or bytes" );
  }
  for( auto const & w : written ) CHECK( c, p[ w.first ] == w.second, "huge-value", "offset " << w.first );
  // A copy of the view, and the bounds of the range.
  auto const other = view;
  CHECK( c, other.data() == p && long( other.size() ) == prod< N >( d ), "huge-size", "copy of a view" );
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------- growth
static void vectorCase( Ctx & c )
{
  if( scarce( c ) ) return;
  LvArray::Array< signed char, 1, RAJA::PERM_I, L, LvArray::MallocBuffer > a;
  long const n = G2 + c.rng.range( -20, 5000 );
  long const room0 = c.rng.range( 4, 60 );
  a.reserve( n + room0 );
  c.op( "reserve %ld", n + room0 );
  CHECK( c, long( a.capacity() ) >= n + room0, "huge-capacity", "" );
  a.resizeWithoutInitializationOrDestruction( n );
  CHECK_EQ( c, long( a.size() ), n, "huge-size", "" );
  signed char * p = a.data();
  p[ 0 ] = 11; p[ n - 1 ] = 12; p[ n - 2 ] = 13; p[ 0x7fffff00 ] = 14;
  std::vector< signed char > tail{ 13, 12 };       // from n - 2
  long const t0 = n - 2;
  bool grown = false;
  for( int k = 0; k < ( c.thorough ? 60 : 24 ); ++k )
  {
    signed char const v = ( signed char )( c.rng.range( 20, 120 ) );
    bool const room = long( a.capacity() ) > long( a.size() ) + 3;
    if( !room && grown ) break;
    if( !room ) { grown = true; c.event( "reallocation of more than 2^31 elements" ); }
    switch( c.rng.below( 5 ) )
    {
      case 0: c.op( "emplace_back" ); a.emplace_back( v ); tail.push_back( v ); break;
      case 1: { long const at = c.rng.range( 0, long( tail.size() ) ); c.op( "emplace %ld", t0 + at ); a.emplace( t0 + at, v ); tail.insert( tail.begin() + at, v ); break; }
      case 2: { if( tail.size() < 3 ) break; long const at = c.rng.range( 0, long( tail.size() ) - 1 ); c.op( "erase %ld", t0 + at ); a.erase( t0 + at ); tail.erase( tail.begin() + at ); break; }
      case 3: { long const at = c.rng.range( 0, long( tail.size() ) ); signed char const b[ 3 ] = { v, ( signed char )( v + 1 ), ( signed char )( v + 2 ) };
                c.op( "insert 3 at %ld", t0 + at ); a.insert( t0 + at, b, b + 3 ); tail.insert( tail.begin() + at, b, b + 3 ); break; }
      case 4: if( tail.size() > 2 ) { c.op( "pop_back" ); a.pop_back(); tail.pop_back(); } break;
    }
    CHECK_EQ( c, long( a.size() ), t0 + long( tail.size() ), "huge-size", "" );
    CHECK( c, long( a.capacity() ) >= long( a.size() ), "huge-capacity", "" );
    for( std::size_t i = 0; i < tail.size(); ++i ) CHECK_EQ( c, int( a[ t0 + long( i ) ] ), int( tail[ i ] ), "huge-values", "position " << t0 + long( i ) );
    CHECK( c, a[ 0 ] == 11 && a[ 0x7fffff00 ] == 14, "huge-values", "front" );
  }
  CHECK_EQ( c, int( a.back() ), int( tail.back() ), "huge-values", "back" );
  if( c.rng.chance( 40 ) )
  {
    c.op( "copy" );
    auto const copy = a;
    CHECK( c, copy.size() == a.size() && copy.data() != a.data(), "huge-copy", "size or storage" );
    for( std::size_t i = 0; i < tail.size(); ++i ) CHECK_EQ( c, int( copy[ t0 + long( i ) ] ), int( tail[ i ] ), "huge-copy", "position " << t0 + long( i ) );
    CHECK( c, copy[ 0 ] == 11 && copy[ 0x7fffff00 ] == 14, "huge-copy", "front" );
    c.event( "copies of more than 2^31 elements" );
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------- ragged
static void raggedCase( Ctx & c )
{
  if( scarce( c ) ) return;
  using A = LvArray::ArrayOfArrays< signed char, L, LvArray::MallocBuffer >;
  A a;
  std::vector< long > caps;
  int const rows = int( c.rng.range( 2, 5 ) );
  for( int i = 0; i < rows; ++i ) caps.push_back( i == 0 ? G2 / 2 + c.rng.range( 0, 1000 ) : c.rng.chance( 50 ) ? G2 / 2 + c.rng.range( 0, 1000 ) : c.rng.range( 1, 40 ) );
  caps.push_back( c.rng.range( 4, 40 ) );
  if( c.rng.chance( 60 ) )
  { c.op( "resizeFromCapacities" ); a.resizeFromCapacities< RAJA::seq_exec >( L( caps.size() ), caps.data() ); }
  else
  {
    c.op( "setCapacityOfArray" );
    a.resize( L( caps.size() ) );
    for( std::size_t i = 0; i < caps.size(); ++i ) a.setCapacityOfArray( L( i ), caps[ i ] );
  }
  std::vector< std::vector< signed char > > m( caps.size() );
  auto check = [&]( char const * when )
  {
    CHECK_EQ( c, long( a.size() ), long( m.size() ), "huge-size", when );
    signed char const * end = nullptr;
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      CHECK_EQ( c, long( a.sizeOfArray( L( i ) ) ), long( m[ i ].size() ), "huge-size", when << " array " << i );
      CHECK( c, long( a.capacityOfArray( L( i ) ) ) >= caps[ i ], "huge-capacity", when << " array " << i << ": " << a.capacityOfArray( L( i ) ) << " < " << caps[ i ] );
      signed char const * const p = a[ L( i ) ].dataIfContiguous();
      if( end ) CHECK( c, p >= end, "huge-overlap", when << " array " << i );
      end = p + long( a.capacityOfArray( L( i ) ) );
      for( std::size_t j = 0; j < m[ i ].size(); ++j ) CHECK_EQ( c, int( a( L( i ), L( j ) ) ), int( m[ i ][ j ] ), "huge-values", when << " array " << i << " entry " << j );
    }
    CHECK( c, long( a.valueCapacity() ) >= std::accumulate( caps.begin(), caps.end(), 0L ), "huge-capacity", when << " values" );
  };
  check( "built" );
  bool moved = false;
  for( int k = 0; k < ( c.thorough ? 80 : 30 ); ++k )
  {
    std::size_t const i = c.rng.below( m.size() );
    signed char const v = ( signed char )( c.rng.range( 1, 120 ) );
    switch( c.rng.below( 6 ) )
    {
      case 5: // less capacity brings whatever lies behind forward
        if( k > 10 && c.rng.chance( 30 ) ) { long const n = long( m[ i ].size() ) + c.rng.range( 0, 9 ); if( n < caps[ i ] ) { c.op( "setCapacityOfArray %zu, less", i ); a.setCapacityOfArray( L( i ), n ); caps[ i ] = n; } }
        break;
      case 0: if( long( m[ i ].size() ) < caps[ i ] ) { c.op( "emplaceBack %zu", i ); a.emplaceBack( L( i ), v ); m[ i ].push_back( v ); } break;
      case 1: if( long( m[ i ].size() ) < caps[ i ] ) { long const at = c.rng.range( 0, long( m[ i ].size() ) ); c.op( "emplace %zu at %ld", i, at ); a.emplace( L( i ), at, v ); m[ i ].insert( m[ i ].begin() + at, v ); } break;
      case 2: if( !m[ i ].empty() ) { c.op( "eraseFromArray %zu", i ); long const at = c.rng.range( 0, long( m[ i ].size() ) - 1 ); a.eraseFromArray( L( i ), at ); m[ i ].erase( m[ i ].begin() + at ); } break;
      case 3: if( long( m[ i ].size() ) < caps[ i ] ) { c.op( "view emplaceBack %zu", i ); a.toView().emplaceBack( L( i ), v ); m[ i ].push_back( v ); } break;
      case 4: // a capacity change in front of everything else shifts whatever lies behind
        if( !moved ) { moved = true; std::size_t const q = m.size() - 1; c.op( "setCapacityOfArray %zu", q ); long const n = caps[ q ] + c.rng.range( 1, 9 ); if( c.rng.chance( 30 ) || a.valueCapacity() >= std::accumulate( caps.begin(), caps.end(), n - caps[ q ] ) ) { if( a.valueCapacity() < std::accumulate( caps.begin(), caps.end(), n - caps[ q ] ) ) c.event( "reallocation of more than 2^31 values" ); a.setCapacityOfArray( L( q ), n ); caps[ q ] = n; } }
        break;
    }
    check( "after step" );
  }
  c.event( "operations on ragged values behind 2^31" );
  // Appended arrays start behind everything else.
  {
    signed char const b[ 3 ] = { 1, 2, 3 };
    a.reserve( L( m.size() ) + 1 );
    if( long( a.valueCapacity() ) >= std::accumulate( caps.begin(), caps.end(), 3L ) ) { c.op( "appendArray" ); a.appendArray( b, b + 3 ); m.push_back( { 1, 2, 3 } ); caps.push_back( 3 ); check( "appended" ); }
  }
  // Compressing brings the values together.
  c.op( "compress" );
  a.compress();
  for( std::size_t i = 0; i < m.size(); ++i ) caps[ i ] = long( m[ i ].size() );
  check( "compressed" );
  c.nontrivial = true;
}

static void setsCase( Ctx & c )
{
  if( scarce( c ) ) return;
  using A = LvArray::ArrayOfSets< signed char, L, LvArray::MallocBuffer >;
  A a;
  std::vector< long > caps;
  int const rows = int( c.rng.range( 3, 6 ) );
  for( int i = 0; i < rows; ++i ) caps.push_back( i < 3 || c.rng.chance( 30 ) ? G2 / 2 + c.rng.range( 0, 1000 ) : c.rng.range( 20, 40 ) );
  if( c.rng.chance( 60 ) ) { c.op( "resizeFromCapacities" ); a.resizeFromCapacities< RAJA::seq_exec >( L( caps.size() ), caps.data() ); }
  else
  {
    c.op( "reserveCapacityOfSet" );
    a.resize( L( caps.size() ) );
    for( std::size_t i = 0; i < caps.size(); ++i ) a.reserveCapacityOfSet( L( i ), caps[ i ] );
  }
  std::vector< std::set< signed char > > m( caps.size() );
  auto check = [&]( char const * when )
  {
    CHECK_EQ( c, long( a.size() ), long( m.size() ), "huge-size", when );
    signed char const * end = nullptr;
    for( std::size_t i = 0; i < m.size(); ++i )
    {
      CHECK_EQ( c, long( a.sizeOfSet( L( i ) ) ), long( m[ i ].size() ), "huge-size", when << " set " << i );
      CHECK( c, long( a.capacityOfSet( L( i ) ) ) >= caps[ i ], "huge-capacity", when << " set " << i );
      signed char const * const p = a[ L( i ) ].dataIfContiguous();
      if( end ) CHECK( c, p >= end, "huge-overlap", when << " set " << i );
      end = p + long( a.capacityOfSet( L( i ) ) );
      long j = 0;
      for( signed char v : m[ i ] ) { CHECK_EQ( c, int( a( L( i ), L( j ) ) ), int( v ), "huge-values", when << " set " << i << " entry " << j ); ++j; }
    }
  };
  check( "built" );
  for( int k = 0; k < ( c.thorough ? 100 : 40 ); ++k )
  {
    std::size_t const i = c.rng.below( m.size() );
    signed char const v = ( signed char )( c.rng.range( 1, 40 ) );
    switch( c.rng.below( 4 ) )
    {
      case 0: if( long( m[ i ].size() ) < caps[ i ] ) { c.op( "insertIntoSet %zu %d", i, int( v ) ); CHECK_EQ( c, a.insertIntoSet( L( i ), v ), m[ i ].insert( v ).second, "huge-insert", "" ); } break;
      case 1: if( long( m[ i ].size() ) < caps[ i ] ) { c.op( "view insertIntoSet %zu %d", i, int( v ) ); CHECK_EQ( c, a.toView().insertIntoSet( L( i ), v ), m[ i ].insert( v ).second, "huge-insert", "view" ); } break;
      case 2: c.op( "removeFromSet %zu %d", i, int( v ) ); CHECK_EQ( c, a.removeFromSet( L( i ), v ), m[ i ].erase( v ) == 1, "huge-remove", "" ); break;
      default: c.op( "contains %zu %d", i, int( v ) ); CHECK_EQ( c, a.contains( L( i ), v ), m[ i ].count( v ) == 1, "huge-contains", "" ); break;
    }
    check( "after step" );
  }
  c.event( "operations on sets behind 2^31" );
  c.op( "compress" ); a.compress();
  for( std::size_t i = 0; i < m.size(); ++i ) caps[ i ] = long( m[ i ].size() );
  check( "compressed" );
  c.nontrivial = true;
}

static void matrixCase( Ctx & c )
{
  if( scarce( c ) ) return;
  using M = LvArray::CRSMatrix< double, int, int, LvArray::MallocBuffer >;
  // Less than 2^31 non zeros, but more than 2^31 bytes of entries.
  int const rows = int( c.rng.range( 1, 3 ) ), columns = int( ( 1L << 28 ) / rows + c.rng.range( 1, 1000 ) );
  M m( rows, columns );
  c.op( "%d rows of %d columns", rows, columns );
  m.reserveNonZeros( long( rows ) * columns + 100 > 0x7fffffff ? 0 : rows * columns + 100 );
  for( int r = 0; r < rows; ++r ) m.reserveNonZeros( r, columns );
  for( int r = 0; r < rows; ++r ) CHECK( c, long( m.nonZeroCapacity( r ) ) >= columns, "huge-capacity", "row " << r );
  std::vector< std::map< int, double > > ref; ref.resize( std::size_t( rows ) );
  auto check = [&]( char const * when )
  {
    long total = 0;
    for( int r = 0; r < rows; ++r )
    {
      auto const & q = ref[ std::size_t( r ) ];
      total += long( q.size() );
      CHECK_EQ( c, long( m.numNonZeros( r ) ), long( q.size() ), "huge-size", when << " row " << r );
      auto const cols = m.getColumns( r ); auto const ent = m.getEntries( r );
      int k = 0;
      for( auto const & e : q ) { CHECK_EQ( c, cols[ k ], e.first, "huge-values", when << " column " << k << " of row " << r ); CHECK_EQ( c, ent[ k ], e.second, "huge-values", when << " entry " << k << " of row " << r ); ++k; }
    }
    CHECK_EQ( c, long( m.numNonZeros() ), total, "huge-size", when );
  };
  for( int k = 0; k < ( c.thorough ? 100 : 40 ); ++k )
  {
    int const r = int( c.rng.below( std::uint64_t( rows ) ) ), col = int( c.rng.below( std::uint64_t( columns ) ) );
    double const v = double( c.rng.range( 1, 1000 ) );
    if( c.rng.chance( 80 ) ) { c.op( "insert %d %d", r, col ); CHECK_EQ( c, m.insertNonZero( r, col, v ), ref[ std::size_t( r ) ].emplace( col, v ).second, "huge-insert", "" ); }
    else if( !ref[ std::size_t( r ) ].empty() ) { int const w = ref[ std::size_t( r ) ].begin()->first; c.op( "remove %d %d", r, w ); CHECK( c, m.removeNonZero( r, w ), "huge-remove", "" ); ref[ std::size_t( r ) ].erase( w ); }
    check( "after step" );
  }
  c.op( "zero" );
  if( c.rng.chance( 50 ) ) m.zero(); else m.toViewConstSizes().zero();
  for( auto & q : ref ) for( auto & e : q ) e.second = 0;
  check( "zeroed" );
  c.event( "matrix with more than 2^31 bytes of entries zeroed" );
  c.op( "compress" ); m.compress(); check( "compressed" );
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------- bulk
static void bulkCase( Ctx & c )
{
  if( scarce( c ) ) return;
  using A1 = LvArray::Array< signed char, 1, RAJA::PERM_I, L, LvArray::MallocBuffer >;
  long const n = G2 + c.rng.range( 1, 5000 );
  A1 a, b;
  a.resizeWithoutInitializationOrDestruction( n ); b.resizeWithoutInitializationOrDestruction( n );
  std::vector< long > at{ 0, n - 1, n - 2, n - 5000 < 0 ? 0 : n - 5000, 0x7fffffff, 0x7ffffffe, 77 };
  for( std::size_t k = 0; k < at.size(); ++k ) { a[ at[ k ] ] = ( signed char )( 10 + k ); b[ at[ k ] ] = -1; }
  c.op( "memcpy of %ld bytes", n );
  int const kind = int( c.rng.below( 3 ) );
  if( kind == 0 ) LvArray::memcpy( b.toSlice(), a.toSliceConst() );
  else if( kind == 1 ) LvArray::memcpy< 0, 0 >( b.toView(), std::array< L, 0 >{}, a.toViewConst(), std::array< L, 0 >{} );
  else { a.zero(); for( std::size_t k = 0; k < at.size(); ++k ) CHECK_EQ( c, int( a[ at[ k ] ] ), 0, "huge-zero", "position " << at[ k ] ); }
  if( kind < 2 ) for( std::size_t k = 0; k < at.size(); ++k ) CHECK_EQ( c, int( b[ at[ k ] ] ), int( a[ at[ k ] ] ), "huge-copy", "position " << at[ k ] );
  c.event( kind < 2 ? "copies of more than 2^31 bytes" : "more than 2^31 bytes zeroed" );
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------- buffers
static void bufferCase( Ctx & c )
{
  if( scarce( c ) ) return;
  namespace bm = LvArray::bufferManipulation;
  LvArray::MallocBuffer< signed char > b( true );
  long n = G2 + c.rng.range( -100, 100000 );
  c.op( "reserve %ld", n );
  bm::reserve( b, 0, LvArray::MemorySpace::host, n );
  CHECK( c, long( b.capacity() ) >= n, "huge-capacity", "" );
  signed char * p = b.data();
  long const size = n - 10;
  p[ 0 ] = 1; p[ size - 1 ] = 2; p[ 0x7ffff000 ] = 3;
  if( c.rng.chance( 50 ) )
  {
    c.op( "setCapacity" );
    long const cap = size + c.rng.range( 5, 3000 );
    bm::setCapacity( b, size, LvArray::MemorySpace::host, cap );
    CHECK_EQ( c, long( b.capacity() ), cap, "huge-capacity", "" );
    p = b.data();
    CHECK( c, p[ 0 ] == 1 && p[ size - 1 ] == 2 && p[ 0x7ffff000 ] == 3, "huge-values", "after reallocation" );
  }
  c.op( "insert and erase at the end" );
  long const cap = long( b.capacity() );
  long s = size;
  bm::emplaceBack( b, s, 5 ); ++s;
  bm::emplace( b, s, s - 2, 6 ); ++s;
  signed char const v[ 2 ] = { 7, 8 };
  bm::insert( b, s, s - 1, v, v + 2 ); s += 2;
  p = b.data();
  // ..., 6, 2, 7, 8, 5
  CHECK( c, p[ s - 5 ] == 6 && p[ s - 4 ] == 2 && p[ s - 3 ] == 7 && p[ s - 2 ] == 8 && p[ s - 1 ] == 5, "huge-values",
         "the end is " << int( p[ s - 5 ] ) << " " << int( p[ s - 4 ] ) << " " << int( p[ s - 3 ] ) << " " << int( p[ s - 2 ] ) << " " << int( p[ s - 1 ] ) );
  bm::erase( b, s, s - 3 ); --s;
  CHECK( c, p[ s - 1 ] == 5 && p[ s - 2 ] == 8 && p[ s - 3 ] == 2 && p[ s - 4 ] == 6 && p[ 0 ] == 1 && p[ 0x7ffff000 ] == 3, "huge-values", "after erase" );
  CHECK( c, cap >= size, "huge-capacity", "" );
  bm::free( b, s );
  CHECK( c, b.capacity() == 0 && b.data() == nullptr, "huge-free", "" );
  c.event( "buffers with more than 2^31 values" );
  c.nontrivial = true;
}

static int registerAll()
{
  using namespace RAJA;
  Register( "huge/sorted", sortedCase, 1, false );
  Register( "huge/layout/I", layoutCase< signed char, PERM_I, L >, 1, false );
  Register( "huge/layout/I-double-int", layoutCase< double, PERM_I, int >, 1, false );
  Register( "huge/layout/IJ", layoutCase< double, PERM_IJ, L >, 1, false );
  Register( "huge/layout/JI-int", layoutCase< signed char, PERM_JI, int >, 1, false );
  Register( "huge/layout/JIK", layoutCase< signed char, PERM_JIK, L >, 1, false );
  Register( "huge/layout/KJI-int", layoutCase< double, PERM_KJI, int >, 1, false );
  Register( "huge/layout/JLIK", layoutCase< float, PERM_JLIK, L >, 1, false );
  Register( "huge/vector", vectorCase, 1, false );
  Register( "huge/ragged", raggedCase, 1, false );
  Register( "huge/sets", setsCase, 1, false );
  Register( "huge/matrix", matrixCase, 1, false );
  Register( "huge/bulk", bulkCase, 1, false );
  Register( "huge/buffer", bufferCase, 1, false );
  return 0;
}
static int const registered = registerAll();
H_MAIN()
