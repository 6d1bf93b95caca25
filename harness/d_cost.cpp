// What operations cost: constructions, assignments and comparisons of elements, and changes of capacity, against the documented complexities.
// The bounds have generous constants; sizes are drawn large enough to tell the orders apart.
#include "array_util.hpp"
#include "sortedArrayManipulation.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include <cmath>
#include <numeric>
#include <set>
using namespace H;
using L = std::ptrdiff_t;

// Bytes requested from the heap, in builds without sanitizers.
static long g_bytes = 0;
#if !defined( __SANITIZE_ADDRESS__ ) && !defined( __SANITIZE_THREAD__ )
#if defined( __has_feature )
#if !__has_feature( address_sanitizer ) && !__has_feature( thread_sanitizer ) && !__has_feature( memory_sanitizer )
#define COUNT_BYTES 1
#endif
#else
#define COUNT_BYTES 1
#endif
#endif
#ifdef COUNT_BYTES
extern "C" void * __libc_malloc( std::size_t );
extern "C" void * __libc_realloc( void *, std::size_t );
extern "C" void * __libc_calloc( std::size_t, std::size_t );
extern "C" void * malloc( std::size_t n ) __THROW { g_bytes += long( n ); return __libc_malloc( n ); }
extern "C" void * realloc( void * p, std::size_t n ) __THROW { g_bytes += long( n ); return __libc_realloc( p, n ); }
extern "C" void * calloc( std::size_t n, std::size_t m ) __THROW { g_bytes += long( n * m ); return __libc_calloc( n, m ); }
#endif

struct Cost { static long & touches() { static long n = 0; return n; } static long & comparisons() { static long n = 0; return n; } };
struct E
{
  long v;
  E( long x = 0 ): v( x ) { ++Cost::touches(); }
  E( E const & o ): v( o.v ) { ++Cost::touches(); }
  E( E && o ): v( o.v ) { ++Cost::touches(); }
  E & operator=( E const & o ) { v = o.v; ++Cost::touches(); return *this; }
  E & operator=( E && o ) { v = o.v; ++Cost::touches(); return *this; }
  ~E() { v = -1; }
  E & operator+=( E const & o ) { v += o.v; ++Cost::touches(); return *this; }
  bool operator<( E const & o ) const { ++Cost::comparisons(); return v < o.v; }
  bool operator>( E const & o ) const { ++Cost::comparisons(); return v > o.v; }
  bool operator==( E const & o ) const { ++Cost::comparisons(); return v == o.v; }
  bool operator!=( E const & o ) const { ++Cost::comparisons(); return v != o.v; }
  friend std::ostream & operator<<( std::ostream & os, E const & e ) { return os << e.v; }
};
struct Meter
{
  Meter(): t( Cost::touches() ), k( Cost::comparisons() ), b( g_bytes ) {}
  long touches() const { return Cost::touches() - t; }
  long comparisons() const { return Cost::comparisons() - k; }
  long bytes() const { return g_bytes - b; }
  long t, k, b;
};
struct Uncounted { long b = g_bytes; ~Uncounted() { g_bytes = b; } };   // what the monitor itself allocates
static long lg( long n ) { long r = 1; while( n > 1 ) { n /= 2; ++r; } return r; }
static long size( Rng & r ) { return r.chance( 15 ) ? r.range( 0, 8 ) : r.chance( 40 ) ? r.range( 20, 300 ) : r.range( 600, 4000 ); }
#define TOUCHES( M, BOUND, WHAT ) do { Uncounted const u_; long const got_ = ( M ).touches(), bound_ = long( BOUND ); c.event( "elements touched", got_ ); CHECK( c, got_ <= bound_, "too-many-touches", WHAT << " touched elements " << got_ << " times, bound " << bound_ ); } while( 0 )
#define COMPARES( M, BOUND, WHAT ) do { Uncounted const u_; long const got_ = ( M ).comparisons(), bound_ = long( BOUND ); c.event( "comparisons", got_ ); CHECK( c, got_ <= bound_, "too-many-comparisons", WHAT << " compared " << got_ << " times, bound " << bound_ ); } while( 0 )

#define ALLOCATES( M, BOUND, WHAT ) do { Uncounted const u_; long const got_ = ( M ).bytes(), bound_ = long( BOUND ); c.event( "bytes allocated", got_ ); CHECK( c, got_ <= bound_, "too-many-bytes", WHAT << " allocated " << got_ << " bytes, bound " << bound_ ); } while( 0 )
#ifdef WITH_CHAI
#define SMALL 4096   // pointer records
#else
#define SMALL 256
#endif
#define FREE( M, WHAT ) do { TOUCHES( M, 0, WHAT ); ALLOCATES( M, SMALL, WHAT ); } while( 0 )
// ---------------------------------------------------------------------------------------- arrays
static void vectorCase( Ctx & c )
{
  using A = LvArray::Array< E, 1, RAJA::PERM_I, L, LV_BUF >;
  Rng & r = c.rng;
  A a; std::vector< long > m; long next = 1;
  auto fits = [&]( long k ) { return long( a.capacity() ) >= long( a.size() ) + k; };
  long const n = size( r );
  if( r.chance( 30 ) ) { c.op( "reserve( %ld )", n ); a.reserve( n ); Meter q; long const cap = long( a.capacity() ); for( long i = 0; i < n; ++i ) a.emplace_back( next++ ); TOUCHES( q, 2 * n + 8, "appending within the capacity" ); CHECK_EQ( c, long( a.capacity() ), cap, "capacity", "within what was reserved" ); }
  else
  {
    c.op( "append %ld", n );
    Meter q; long grown = 0, cap = long( a.capacity() );
    for( long i = 0; i < n; ++i ) { a.emplace_back( next++ ); if( long( a.capacity() ) != cap ) { cap = long( a.capacity() ); ++grown; } }
    TOUCHES( q, 20 * n + 64, "appending" ); ALLOCATES( q, 200 * n + 1024, "appending" ); CHECK( c, grown <= 10 * lg( n + 2 ) + 20, "too-many-reallocations", grown << " for " << n << " appends" );
  }
  if( r.chance( 30 ) )
  {
    A b; std::array< E, 3 > const three{ { E( 1 ), E( 2 ), E( 3 ) } }; long const k = size( r ); c.op( "append %ld times three", k );
    Meter q; for( long i = 0; i < k; ++i ) b.insert( b.size(), three.begin(), three.end() );
    TOUCHES( q, 60 * k + 64, "appending batches" );
  }
  for( int k = 0; k < ( c.thorough ? 40 : 15 ); ++k )
  {
    long const s = long( a.size() );
    switch( r.below( 12 ) )
    {
      case 0: { if( !fits( 1 ) ) a.reserve( s + 1 ); long const p = r.range( 0, s ); c.op( "emplace at %ld of %ld", p, s ); Meter q; a.emplace( p, next++ ); TOUCHES( q, 4 * ( s - p ) + 16, "emplace" ); break; }
      case 1: { std::vector< E > b; b.reserve( 64 ); long const z = r.range( 0, 60 ); for( long i = 0; i < z; ++i ) b.emplace_back( next++ ); if( !fits( z ) ) a.reserve( s + z ); long const p = r.range( 0, s ); c.op( "insert %ld at %ld of %ld", z, p, s ); Meter q; a.insert( p, b.begin(), b.end() ); TOUCHES( q, 4 * ( s - p + z ) + 16, "insert" ); break; }
      case 2: { if( !s ) break; long const p = r.range( 0, s - 1 ); c.op( "erase %ld of %ld", p, s ); Meter q; a.erase( p ); TOUCHES( q, 4 * ( s - p ) + 16, "erase" ); break; }
      case 3: { if( !s ) break; c.op( "pop_back" ); Meter q; a.pop_back(); TOUCHES( q, 4, "pop_back" ); break; }
      case 4: { if( !fits( 1 ) ) break; c.op( "emplace_back" ); Meter q; a.emplace_back( next++ ); TOUCHES( q, 4, "emplace_back within the capacity" ); break; }
      case 5:
      {
        c.op( "views and moves" ); Meter q;
        auto const v = a.toView(); auto const vc = a.toViewConst(); auto const v2 = v; auto const sl = a.toSlice(); auto const sl2 = sl;
        A b( std::move( a ) ); a = std::move( b ); A d; d = std::move( a ); std::swap( a, d );
        FREE( q, "views and moves" ); CHECK( c, v2.size() == v.size() && vc.size() == v.size() && sl2.size() == v.size() && long( a.size() ) == s, "size", "" );
        break;
      }
      case 6: { long const z = r.range( 0, 2 * s + 20 ); c.op( "reserve( %ld )", z ); Meter q; a.reserve( z ); TOUCHES( q, 4 * s + 8, "reserve" ); break; }
      case 7: { long const z = r.range( 0, s + 200 ); c.op( "resize( %ld )", z ); Meter q; a.resize( z ); TOUCHES( q, 4 * std::max( z, s ) + 16, "resize" ); break; }
      case 8: { long const z = r.range( 0, s + 200 ); c.op( "resizeDefault( %ld )", z ); Meter q; a.resizeDefault( z, E( next++ ) ); TOUCHES( q, 4 * std::max( z, s ) + 16, "resizeDefault" ); break; }
      case 9: { c.op( "copy" ); Meter q; A const b( a ); TOUCHES( q, 4 * s + 8, "copy" ); Meter q2; A d; d.resize( r.range( 0, 100 ) ); d = b; TOUCHES( q2, 4 * ( s + 100 ) + 16, "assignment" ); break; }
      case 10: { c.op( "access" ); Meter q; long z = 0; for( long i = 0; i < s; ++i ) z += a[ i ].v + a( i ).v; for( auto const & e : a ) z -= e.v; FREE( q, "reading" ); ( void ) z; break; }
      default: if( r.chance( 20 ) ) { c.op( "clear" ); Meter q; a.clear(); TOUCHES( q, 0, "clear" ); } break;
    }
  }
  c.nontrivial = n > 20;
}

template< typename PERM > void shapeCase( Ctx & c )
{
  constexpr int N = PermArray< PERM >::N;
  using A = MArray< E, N, PERM, L >;
  Rng & r = c.rng; A a;
  Idx< N > d{}; for( auto & x : d ) x = r.range( 1, N == 2 ? 40 : 12 );
  c.op( "extents %s", showIdx< N >( d ).c_str() );
  { Meter q; resizeAll< N >( a, d ); TOUCHES( q, 2 * prod< N >( d ) + 8, "resize" ); }
  for( int k = 0; k < 10; ++k )
  {
    std::size_t const e = r.below( std::uint64_t( N ) ); long const before = prod< N >( d );
    a.setSingleParameterResizeIndex( int( e ) );
    d[ e ] = r.chance( 10 ) ? 0 : r.range( 1, N == 2 ? 60 : 16 );
    c.op( "extent %zu becomes %ld", e, d[ e ] );
    Meter q; a.resize( d[ e ] );
    TOUCHES( q, 4 * ( before + prod< N >( d ) ) + 16, "resizing one dimension" );
    if( d[ e ] == 0 ) { d[ e ] = 3; a.resize( 3 ); }
  }
  Meter q; auto const v = a.toView(); auto const s = v.toSlice(); auto const s2 = v[ 0 ]; A b( std::move( a ) ); FREE( q, "views, slices and moves" ); ( void ) s; ( void ) s2;
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------- sorted
static std::vector< E > batchOf( Rng & r, long n, long range ) { std::set< long > s; for( long i = 0; i < n; ++i ) s.insert( r.range( 0, range ) ); std::vector< E > b; b.reserve( s.size() ); for( long x : s ) b.emplace_back( x ); return b; }
static void sortedCase( Ctx & c )
{
  using A = LvArray::SortedArray< E, L, LV_BUF >;
  Rng & r = c.rng; A a; long const n = size( r ), range = 3 * n + 10;
  { auto b = batchOf( r, n, range ); c.op( "insert %zu at once", b.size() ); Meter q; a.insert( b.begin(), b.end() ); TOUCHES( q, 8 * n + 64, "a first batch" ); COMPARES( q, 8 * n * lg( n ) + 64, "a first batch" ); }
  for( int k = 0; k < ( c.thorough ? 60 : 20 ); ++k )
  {
    long const s = long( a.size() ), x = r.range( 0, range ); E const e( x );
    switch( r.below( 6 ) )
    {
      case 0: { c.op( "contains" ); Meter q; bool const h = a.contains( e ); ( void ) h; COMPARES( q, 4 * lg( s ) + 8, "contains" ); FREE( q, "contains" ); Meter q2; a.toView().contains( e ); COMPARES( q2, 4 * lg( s ) + 8, "contains of a view" ); break; }
      case 1: { c.op( "insert" ); Meter q; bool const in = a.insert( e ); COMPARES( q, 4 * lg( s ) + 12, "insert" ); TOUCHES( q, in ? 8 * s + 32 : 4, "insert" ); break; }
      case 2: { c.op( "remove" ); Meter q; bool const out = a.remove( e ); COMPARES( q, 4 * lg( s ) + 12, "remove" ); TOUCHES( q, out ? 4 * s + 16 : 4, "remove" ); break; }
      case 3: { auto b = batchOf( r, r.range( 0, s + 20 ), range ); long const z = long( b.size() ); c.op( "insert %ld into %ld", z, s ); Meter q; a.insert( b.begin(), b.end() ); TOUCHES( q, 10 * ( s + z ) + 64, "batch insertion" ); COMPARES( q, 6 * ( s + z ) + 8 * z * lg( s + z ) + 64, "batch insertion" ); break; }
      case 4: { auto b = batchOf( r, r.range( 0, s / 2 + 20 ), range ); long const z = long( b.size() ); c.op( "remove %ld from %ld", z, s ); Meter q; a.remove( b.begin(), b.end() ); TOUCHES( q, 10 * ( s + z ) + 64, "batch removal" ); COMPARES( q, 6 * ( s + z ) + 8 * z * lg( s + z ) + 64, "batch removal" ); break; }
      default: { c.op( "views, moves and copies" ); Meter q; auto const v = a.toView(); auto const v2 = v; A b( std::move( a ) ); a = std::move( b ); FREE( q, "views and moves" ); ( void ) v2; Meter q2; A const d( a ); TOUCHES( q2, 4 * s + 8, "copy" ); break; }
    }
  }
  c.nontrivial = n > 20;
}

// Input that a quicksort with pivots chosen by position finds hard, and ordinary patterns.
static std::vector< long > pattern( Rng & r, long n, bool hostile )
{
  std::vector< long > v( std::size_t( n ), 0 );
  switch( r.below( hostile ? 7 : 6 ) )
  {
    case 0: for( long i = 0; i < n; ++i ) v[ std::size_t( i ) ] = i; break;
    case 1: for( long i = 0; i < n; ++i ) v[ std::size_t( i ) ] = n - i; break;
    case 2: for( long i = 0; i < n; ++i ) v[ std::size_t( i ) ] = std::min( i, n - i ); break;
    case 3: for( auto & x : v ) x = r.range( 0, 5 ); break;
    case 6: // median of three killer
    { long const h = n / 2; for( long i = 1; i <= h; ++i ) { v[ std::size_t( i - 1 ) ] = i % 2 ? i : h + i - ( i % 2 == 0 ? 1 : 0 ); if( h + i - 1 < n ) v[ std::size_t( h + i - 1 ) ] = 2 * i; } break; }
    default: for( auto & x : v ) x = r.range( 0, 4 * n ); break;
  }
  return v;
}
static void sortCase( Ctx & c )
{
  namespace sam = LvArray::sortedArrayManipulation;
  Rng & r = c.rng; long const n = size( r ), what = r.range( 0, 3 );
  // dualSort is documented not to fall back to a heap sort where its pivots are bad.
  std::vector< long > const p = pattern( r, n, what != 1 );
  std::vector< E > v( p.begin(), p.end() );
  switch( what )
  {
    case 0: { c.op( "makeSorted %ld", n ); Meter q; sam::makeSorted( v.begin(), v.end() ); COMPARES( q, 12 * n * lg( n ) + 64, "sorting" ); TOUCHES( q, 24 * n * lg( n ) + 64, "sorting" ); break; }
    case 1: { c.op( "dualSort %ld", n ); std::vector< E > d( p.begin(), p.end() ); Meter q; sam::dualSort( v.begin(), v.end(), d.begin() ); COMPARES( q, 12 * n * lg( n ) + 64, "dual sorting" ); TOUCHES( q, 48 * n * lg( n ) + 64, "dual sorting" ); break; }
    case 2: { c.op( "makeSortedUnique %ld", n ); Meter q; sam::makeSortedUnique( v.data(), v.data() + n ); COMPARES( q, 12 * n * lg( n ) + 2 * n + 64, "sorting and removing duplicates" ); TOUCHES( q, 24 * n * lg( n ) + 64, "sorting and removing duplicates" ); break; }
    default:
    {
      std::vector< long > s = p; std::sort( s.begin(), s.end() ); std::vector< E > u( s.begin(), s.end() );
      c.op( "removeDuplicates %ld", n ); Meter q; long const z = long( sam::removeDuplicates( u.begin(), u.end() ) ); COMPARES( q, 4 * n + 16, "removing duplicates" ); TOUCHES( q, 4 * n + 16, "removing duplicates" );
      for( int k = 0; k < 20; ++k ) { E const e( r.range( -2, 4 * n + 2 ) ); Meter q2; sam::find( u.data(), z, e ); COMPARES( q2, 3 * lg( z ) + 6, "find" ); Meter q3; sam::contains( u.data(), z, e ); COMPARES( q3, 3 * lg( z ) + 8, "contains" ); }
      Meter q4; sam::isSorted( u.begin(), u.begin() + z ); sam::isSortedUnique( u.begin(), u.begin() + z ); COMPARES( q4, 6 * z + 16, "checking order" ); TOUCHES( q4, 0, "checking order" );
    }
  }
  c.nontrivial = n > 20;
}

// ---------------------------------------------------------------------------------------- ragged
static void raggedCase( Ctx & c )
{
  using A = LvArray::ArrayOfArrays< E, L, LV_BUF >;
  Rng & r = c.rng; A a; long next = 1; bool const many = r.chance( 30 ); long const rows = many ? r.range( 500, 1500 ) : r.range( 1, 60 ), per = r.range( 1, many ? 5 : 60 );
  auto total = [&]() { long z = 0; for( long i = 0; i < long( a.size() ); ++i ) z += long( a.sizeOfArray( i ) ); return z; };
  {
    // appending arrays: linear in what is appended, growth included
    c.op( "append %ld arrays", rows ); Meter q; long z = 0;
    for( long i = 0; i < rows; ++i ) { std::vector< E > b; b.reserve( std::size_t( per ) ); long const k = r.range( 0, per ); for( long j = 0; j < k; ++j ) b.emplace_back( next++ ); z += 2 * k; a.appendArray( b.begin(), b.end() ); }
    TOUCHES( q, 20 * z + 64, "appending arrays" );
  }
  {
    // Sizes and offsets grow in the same way.
    A b; long const n = size( r ); c.op( "append %ld empty arrays", n ); Meter q; std::array< E, 1 > const none{}; for( long i = 0; i < n; ++i ) { if( r.chance( 50 ) ) b.appendArray( 0 ); else b.appendArray( none.begin(), none.begin() ); }
    ALLOCATES( q, 200 * n + 2048, "appending empty arrays" );
  }
  for( int k = 0; k < ( c.thorough ? 60 : 20 ); ++k )
  {
    long const n = long( a.size() ), M = total(); if( !n ) break;
    long const i = r.range( 0, n - 1 ), s = long( a.sizeOfArray( i ) ), room = long( a.capacityOfArray( i ) ) - s;
    switch( r.below( 13 ) )
    {
      case 0: { if( room < 1 ) break; c.op( "emplaceBack %ld", i ); Meter q; if( r.chance( 50 ) ) a.emplaceBack( i, next++ ); else a.toView().emplaceBack( i, next++ ); TOUCHES( q, 4, "emplaceBack within the capacity" ); break; }
      case 1: { c.op( "emplaceBack %ld", i ); Meter q; a.emplaceBack( i, next++ ); TOUCHES( q, 8 * M + 32, "emplaceBack" ); break; }
      case 2: { if( room < 1 ) break; long const p = r.range( 0, s ); c.op( "emplace %ld %ld of %ld", i, p, s ); Meter q; a.emplace( i, p, next++ ); TOUCHES( q, 4 * ( s - p ) + 16, "emplace within the capacity" ); break; }
      case 3: { long const z = r.range( 0, room ), p = r.range( 0, s ); std::vector< E > b; b.reserve( std::size_t( z ) ); for( long j = 0; j < z; ++j ) b.emplace_back( next++ ); c.op( "insert %ld into %ld", z, i ); Meter q; if( r.chance( 50 ) ) a.insertIntoArray( i, p, b.begin(), b.end() ); else a.toView().insertIntoArray( i, p, b.begin(), b.end() ); TOUCHES( q, 4 * ( s - p + z ) + 16, "insertion within the capacity" ); break; }
      case 4: { if( !s ) break; long const p = r.range( 0, s - 1 ), z = r.range( 1, s - p ); c.op( "erase %ld from %ld", z, i ); Meter q; a.eraseFromArray( i, p, z ); TOUCHES( q, 4 * ( s - p ) + 16, "erasure" ); break; }
      case 5: { std::vector< E > b; b.reserve( 30 ); long const z = r.range( 0, 30 ), p = r.range( 0, n ); for( long j = 0; j < z; ++j ) b.emplace_back( next++ ); c.op( "insert an array at %ld", p ); Meter q; a.insertArray( p, b.begin(), b.end() ); TOUCHES( q, 8 * ( M + z ) + 64, "inserting an array" ); break; }
      case 6: { c.op( "erase array %ld", i ); Meter q; a.eraseArray( i ); TOUCHES( q, 4 * M + 16, "erasing an array" ); break; }
      case 7: { c.op( "compress" ); Meter q; a.compress(); TOUCHES( q, 4 * M + 16, "compress" ); break; }
      case 8: { long const z = r.range( 0, 80 ); c.op( "setCapacityOfArray %ld %ld", i, z ); Meter q; a.setCapacityOfArray( i, z ); TOUCHES( q, 8 * M + 16, "changing a capacity" ); break; }
      case 9: { c.op( "views and moves" ); Meter q; auto const v = a.toView(); auto const v2 = a.toViewConst(); auto const v3 = a.toViewConstSizes(); auto const sl = a[ i ]; A b( std::move( a ) ); a = std::move( b ); FREE( q, "views, slices and moves" ); ( void ) v; ( void ) v2; ( void ) v3; ( void ) sl; break; }
      case 10: { c.op( "copy" ); Meter q; A const b( a ); TOUCHES( q, 4 * M + 16, "copy" ); break; }
      case 11: { c.op( "clear %ld", i ); Meter q; a.clearArray( i ); TOUCHES( q, 0, "clearing an array" ); break; }
      default: { long const z = n + r.range( 0, 5 ); c.op( "resize( %ld )", z ); Meter q; a.resize( z ); TOUCHES( q, 0, "adding empty arrays" ); a.reserveValues( M ); break; }
    }
  }
  // Filled in parallel or not, reserved rows take what was reserved without a relocation.
  {
    A b; std::vector< L > caps( std::size_t( r.range( 1, 50 ) ) ); long z = 0; for( auto & x : caps ) { x = r.range( 0, 50 ); z += x; }
    b.resizeFromCapacities< RAJA::seq_exec >( L( caps.size() ), caps.data() );
    c.op( "fill %ld reserved values", z ); Meter q; for( int t = 0; t < 50; ++t ) for( std::size_t i = 0; i < caps.size(); ++i ) if( t < caps[ i ] ) b.emplaceBack( L( i ), long( t ) );
    TOUCHES( q, 3 * z + 8, "filling reserved arrays" );
  }
  c.nontrivial = rows > 3;
}

// One array, set or row grown value by value ( or a few at a time ): its capacity changes O( log ) often.
template< typename CAP, typename GROW > void growOne( Ctx & c, char const * what, long n, CAP capacity, GROW grow )
{
  long changes = 0, last = capacity(), added = 0;
  Meter q;
  while( added < n ) { added += grow( added ); long const now = capacity(); if( now != last ) { ++changes; last = now; } }
  CHECK( c, changes <= 3 * lg( added ) + 6, "too-many-reallocations", what << ": capacity changed " << changes << " times for " << added << " values" );
  c.event( "rows grown" );
}
static void growthCase( Ctx & c )
{
  Rng & r = c.rng; long const rows = r.range( 1, 5 ), row = r.range( 0, rows - 1 ), n = r.range( 10, r.chance( 20 ) ? 1500 : 200 ), cols = 8 * n, few = r.range( 1, 3 ), start = r.range( 0, 3 ); long const step = r.chance( 50 ) ? 1 : -1;
  auto const at = [&]( long k ) { return step > 0 ? 3 * k : 8 * n - 1 - 3 * k; };
  switch( r.below( 4 ) )
  {
    case 0:
    {
      using A = LvArray::ArrayOfArrays< long, L, LV_BUF >; A a( rows, start ); int const how = int( r.below( 4 ) ); c.op( "grow an inner array %d", how ); long const vals[ 3 ] = { 1, 2, 3 };
      growOne( c, "inner array", n, [&] { return long( a.capacityOfArray( row ) ); }, [&]( long k ) -> long
      {
        switch( how )
        {
          case 0: a.emplaceBack( row, k ); return 1;
          case 1: a.appendToArray( row, vals, vals + few ); return few;
          case 2: a.emplace( row, r.range( 0, a.sizeOfArray( row ) ), k ); return 1;
          default: a.insertIntoArray( row, r.range( 0, a.sizeOfArray( row ) ), vals, vals + few ); return few;
        }
      } );
      break;
    }
    case 1:
    {
      using A = LvArray::ArrayOfSets< long, L, LV_BUF >; A a( rows, start ); bool const batch = r.chance( 40 ); c.op( "grow a set" );
      growOne( c, "set", n, [&] { return long( a.capacityOfSet( row ) ); }, [&]( long k ) -> long
      { if( !batch ) { a.insertIntoSet( row, at( k ) ); return 1; } long const v[ 2 ] = { 2 * k, 2 * k + 1 }; a.insertIntoSet( row, v, v + 2 ); return 2; } );
      break;
    }
    case 2:
    {
      using A = LvArray::SparsityPattern< int, L, LV_BUF >; A a( rows, cols, start ); bool const batch = r.chance( 40 ); c.op( "grow a row of a pattern" );
      growOne( c, "row of a pattern", n, [&] { return long( a.nonZeroCapacity( row ) ); }, [&]( long k ) -> long
      { if( !batch ) { a.insertNonZero( row, int( at( k ) ) ); return 1; } int const v[ 2 ] = { int( 2 * k ), int( 2 * k + 1 ) }; a.insertNonZeros( row, v, v + 2 ); return 2; } );
      break;
    }
    default:
    {
      using A = LvArray::CRSMatrix< long, int, L, LV_BUF >; A a( rows, cols, start ); bool const batch = r.chance( 40 ); c.op( "grow a row of a matrix" ); long const e[ 2 ] = { 5, 6 };
      growOne( c, "row of a matrix", n, [&] { return long( a.nonZeroCapacity( row ) ); }, [&]( long k ) -> long
      { if( !batch ) { a.insertNonZero( row, int( at( k ) ), k ); return 1; } int const v[ 2 ] = { int( 2 * k ), int( 2 * k + 1 ) }; a.insertNonZeros( row, v, e, 2 ); return 2; } );
    }
  }
  c.nontrivial = true;
}

static void setsCase( Ctx & c )
{
  using A = LvArray::ArrayOfSets< E, L, LV_BUF >;
  Rng & r = c.rng; long const rows = r.range( 1, 20 ), cap = r.range( 4, 300 ), range = 2 * cap;
  A a( rows, cap );
  for( int k = 0; k < ( c.thorough ? 80 : 30 ); ++k )
  {
    long const i = r.range( 0, rows - 1 ), s = long( a.sizeOfSet( i ) ), room = long( a.capacityOfSet( i ) ) - s; E const e( r.range( 0, range ) );
    switch( r.below( 6 ) )
    {
      case 0: { c.op( "contains" ); Meter q; a.contains( i, e ); COMPARES( q, 4 * lg( s ) + 8, "contains" ); FREE( q, "contains" ); break; }
      case 1: { if( room < 1 ) break; c.op( "insert" ); Meter q; bool const in = r.chance( 50 ) ? a.insertIntoSet( i, e ) : a.toView().insertIntoSet( i, e ); COMPARES( q, 4 * lg( s ) + 12, "insertion" ); TOUCHES( q, in ? 4 * s + 16 : 4, "insertion within the capacity" ); break; }
      case 2: { c.op( "remove" ); Meter q; bool const out = r.chance( 50 ) ? a.removeFromSet( i, e ) : a.toView().removeFromSet( i, e ); COMPARES( q, 4 * lg( s ) + 12, "removal" ); TOUCHES( q, out ? 4 * s + 16 : 4, "removal" ); break; }
      case 3: { auto b = batchOf( r, r.range( 0, room ), range ); long const z = long( b.size() ); c.op( "insert %ld into %ld", z, s ); Meter q; if( r.chance( 50 ) ) a.insertIntoSet( i, b.begin(), b.end() ); else a.toView().insertIntoSet( i, b.begin(), b.end() ); TOUCHES( q, 10 * ( s + z ) + 64, "batch insertion" ); COMPARES( q, 6 * ( s + z ) + 8 * z * lg( s + z ) + 64, "batch insertion" ); break; }
      case 4: { auto b = batchOf( r, r.range( 0, s + 5 ), range ); long const z = long( b.size() ); c.op( "remove %ld from %ld", z, s ); Meter q; a.removeFromSet( i, b.begin(), b.end() ); TOUCHES( q, 10 * ( s + z ) + 64, "batch removal" ); COMPARES( q, 6 * ( s + z ) + 8 * z * lg( s + z ) + 64, "batch removal" ); break; }
      default: { c.op( "views and moves" ); Meter q; auto const v = a.toView(); auto const v2 = a.toViewConst(); auto const v3 = v2; A b( std::move( a ) ); a = std::move( b ); FREE( q, "views and moves" ); ( void ) v; ( void ) v3; break; }
    }
  }
  c.nontrivial = true;
}

static void matrixCase( Ctx & c )
{
  using A = LvArray::CRSMatrix< E, int, L, LV_BUF >;
  Rng & r = c.rng; long const rows = r.range( 1, 15 ), cap = r.range( 4, 300 ), cols = 3 * cap; long next = 1;
  A a( rows, cols, cap );
  auto batch = [&]( long n ) { std::set< int > s; for( long i = 0; i < n; ++i ) s.insert( int( r.range( 0, cols - 1 ) ) ); return std::vector< int >( s.begin(), s.end() ); };
  for( int k = 0; k < ( c.thorough ? 80 : 30 ); ++k )
  {
    long const i = r.range( 0, rows - 1 ), s = long( a.numNonZeros( i ) ), room = long( a.nonZeroCapacity( i ) ) - s; int const x = int( r.range( 0, cols - 1 ) );
    switch( r.below( 7 ) )
    {
      case 0: { if( room < 1 ) break; c.op( "insert" ); E const e( next++ ); Meter q; bool const in = r.chance( 50 ) ? a.insertNonZero( i, x, e ) : a.toView().insertNonZero( i, x, e ); TOUCHES( q, in ? 4 * s + 16 : 4, "insertion within the capacity" ); break; }
      case 1: { c.op( "remove" ); Meter q; bool const out = r.chance( 50 ) ? a.removeNonZero( i, x ) : a.toView().removeNonZero( i, x ); TOUCHES( q, out ? 4 * s + 16 : 4, "removal" ); break; }
      case 2: { auto b = batch( r.range( 0, room ) ); long const z = long( b.size() ); std::vector< E > e( b.begin(), b.end() ); c.op( "insert %ld into %ld", z, s ); Meter q; if( r.chance( 50 ) ) a.insertNonZeros( i, b.data(), e.data(), z ); else a.toView().insertNonZeros( i, b.data(), e.data(), z ); TOUCHES( q, 10 * ( s + z ) + 64, "batch insertion" ); break; }
      case 3: { auto b = batch( r.range( 0, s + 5 ) ); long const z = long( b.size() ); c.op( "remove %ld from %ld", z, s ); Meter q; a.removeNonZeros( i, b.data(), z ); TOUCHES( q, 10 * ( s + z ) + 64, "batch removal" ); break; }
      case 4:
      {
        std::vector< int > b; for( long j = 0; j < s; ++j ) if( r.chance( 40 ) ) b.push_back( a.getColumns( i )[ j ] );
        std::vector< E > e( b.begin(), b.end() ); long const z = long( b.size() ); c.op( "add %ld", z ); Meter q;
        switch( r.below( 3 ) )
        {
          case 0: a.toViewConstSizes().addToRow< RAJA::seq_atomic >( i, b.data(), e.data(), z ); break;
          case 1: a.toViewConstSizes().addToRowBinarySearch< RAJA::seq_atomic >( i, b.data(), e.data(), z ); break;
          default: a.toViewConstSizes().addToRowLinearSearch< RAJA::seq_atomic >( i, b.data(), e.data(), z ); break;
        }
        TOUCHES( q, 4 * z + 8, "adding to existing entries" );
        break;
      }
      case 5: { long total = 0; for( long j = 0; j < rows; ++j ) total += long( a.numNonZeros( j ) ); if( r.chance( 50 ) ) { c.op( "compress" ); Meter q; a.compress(); TOUCHES( q, 4 * total + 16, "compress" ); } else { long const z = r.range( 0, cap ); c.op( "reserve( %ld, %ld )", i, z ); Meter q; a.reserveNonZeros( i, z ); TOUCHES( q, 8 * total + 16, "reserving" ); } break; }
      default: { c.op( "views and moves" ); Meter q; auto const v = a.toView(); auto const v2 = a.toViewConst(); auto const v3 = a.toViewConstSizes(); auto const v4 = a.toSparsityPatternView(); A b( std::move( a ) ); a = std::move( b ); FREE( q, "views and moves" ); ( void ) v; ( void ) v2; ( void ) v3; ( void ) v4; break; }
    }
  }
  c.nontrivial = true;
}

static int registerAll()
{
  using namespace RAJA;
  Register( "cost/vector", vectorCase, 3 );
  Register( "cost/shape/JI", shapeCase< PERM_JI >, 1 );
  Register( "cost/shape/IJ", shapeCase< PERM_IJ >, 1 );
  Register( "cost/shape/JKI", shapeCase< PERM_JKI >, 1 );
  Register( "cost/shape/IKJ", shapeCase< PERM_IKJ >, 1 );
  Register( "cost/sorted", sortedCase, 3 );
  Register( "cost/sort", sortCase, 3 );
  Register( "cost/ragged", raggedCase, 3 );
  Register( "cost/sets", setsCase, 2 );
  Register( "cost/matrix", matrixCase, 2 );
  Register( "cost/growth", growthCase, 1 );
  return 0;
}
static int const registered = registerAll();
H_MAIN()
