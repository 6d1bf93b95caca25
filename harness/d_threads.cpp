// Concurrent use of views ( threads/ ): ThreadSanitizer and a reference of what the operations of each thread must add up to.
#include "array_util.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "sliceHelpers.hpp"
#include <thread>
#include <atomic>
#include <mutex>
using namespace H;
#ifndef PART
  #define PART 1
#endif

// Perturbs the schedule: called by the atomics, by the threads of the shim's parallel loops and between operations.
struct Jitter
{
  static Rng & rng() { static thread_local Rng r( 0 ); return r; }
  static int & level() { static int l = 0; return l; }
  static void now()
  {
    Rng & r = rng();
    switch( r.below( 8 ) )
    {
      case 0: case 1: if( level() > 0 ) std::this_thread::yield(); break;
      case 2: if( level() > 1 ) { for( volatile int i = 0; i < 200; ++i ) {} } break;
      case 3: if( level() > 2 && r.chance( 5 ) ) std::this_thread::sleep_for( std::chrono::microseconds( r.below( 40 ) ) ); break;
      default: break;
    }
  }
};

struct Team
{
  Ctx & c; int n; std::uint64_t seed;
  std::vector< std::string > errors; std::vector< long > checks;
  explicit Team( Ctx & ctx ): c( ctx ), n( int( ctx.rng.range( 2, 8 ) ) ), seed( ctx.rng.next() ), errors( std::size_t( n ) ), checks( std::size_t( n ), 0 )
  {
    Jitter::level() = int( c.rng.below( 4 ) );
    RAJA::shim::jitterHook() = [] { Jitter::now(); };
    c.op( "%d threads, jitter %d, seed %llx", n, Jitter::level(), ( unsigned long long ) seed );
    c.nontrivial = true;
  }
  // One thread's share, with errors and failed comparisons kept for later.
  template< typename F > void share( int t, F & f )
  {
    inWorker() = true;
    Jitter::rng() = Rng( mix( seed, std::uint64_t( t ) + 1000 ) );
    Rng rng( mix( seed, std::uint64_t( t ) ) );
    try { f( t, rng ); }
    catch( LvError const & ) { errors[ std::size_t( t ) ] = "LvArray reported an error for a legal use"; }
    catch( Fail const & e ) { errors[ std::size_t( t ) ] = e.key + ": " + e.msg; }
    catch( std::exception const & e ) { errors[ std::size_t( t ) ] = e.what(); }
    inWorker() = false;
  }
  template< int N, typename F > void viaForall( F & f )
  {
    auto const self = this; auto const fn = f; // captured by value, as kernels do
    RAJA::forall< RAJA::threads_exec< N > >( RAJA::TypedRangeSegment< int >( 0, n ), [self, fn] ( int const t ) { self->share( t, fn ); } );
  }
  template< typename F > void run( F const & f )
  {
    if( c.rng.chance( 40 ) )
    {
      c.event( "parallel loops" );
      auto const self = this; auto const fn = f;
      switch( c.rng.below( 3 ) )
      {
        case 0: RAJA::forall< RAJA::threads_exec< 2 > >( RAJA::TypedRangeSegment< int >( 0, n ), [self, fn] ( int const t ) { self->share( t, fn ); } ); break;
        case 1: RAJA::forall< RAJA::threads_exec< 4 > >( RAJA::TypedRangeSegment< int >( 0, n ), [self, fn] ( int const t ) { self->share( t, fn ); } ); break;
        default: RAJA::forall< RAJA::threads_exec< 8 > >( RAJA::TypedRangeSegment< int >( 0, n ), [self, fn] ( int const t ) { self->share( t, fn ); } );
      }
    }
    else
    {
      c.event( "thread teams" );
      std::atomic< bool > go( false );
      std::vector< std::thread > threads;
      for( int t = 0; t < n; ++t ) threads.emplace_back( [&, t] { while( !go.load( std::memory_order_acquire ) ) {} share( t, f ); } );
      go.store( true, std::memory_order_release );
      for( auto & t : threads ) t.join();
    }
    for( std::string const & e : errors ) if( !e.empty() ) c.fail( e.find( "legal use" ) != std::string::npos ? "spurious-error" : "thread", e );
    for( long k : checks ) c.checks += k;
  }
};
// Comparison inside a thread.
#define TCHECK( COND, WHAT ) do { ++team.checks[ std::size_t( t ) ]; if( !( COND ) ) throw Fail{ "thread", std::string( WHAT ) + " [" #COND "]" }; } while( 0 )

#if PART == 1 // arrays, ragged arrays, sorted arrays
template< int N, typename PERM, typename T > void array( Ctx & c )
{
  using A = MArray< T, N, PERM, std::ptrdiff_t >;
  Team team( c );
  Idx< N > const dims = randomDims< N >( c.rng, 400, 0 );
  A a; resizeAll< N >( a, dims );
  A shared( a ); for( long k = 0; k < long( shared.size() ); ++k ) shared.data()[ k ] = mk< T >( 10 + k );
  long const rows = dims[ 0 ], n = long( a.size() );
  bool const byRow = c.rng.chance( 60 );
  std::vector< int > owner( std::size_t( byRow ? rows : n ) ); for( int & o : owner ) o = int( c.rng.below( std::uint64_t( team.n ) ) );
  std::vector< long > want( std::size_t( n ), 0 );
  auto const view = a.toView(); auto const sv = shared.toViewConst();
  long * const w = want.data(); int const * const own = owner.data();
  int const rounds = int( c.rng.range( 1, 4 ) );
  team.run( [&team, view, sv, w, own, byRow, rounds, dims] ( int t, Rng & rng )
  {
    for( int round = 0; round < rounds; ++round ) forAll< N >( dims, [&] ( Idx< N > const & i )
    {
      Idx< N > const st = refStrides< PERM >( dims );
      long const where = dot< N >( i, st );
      if( own[ byRow ? i[ 0 ] : where ] != t ) { if( rng.chance( 10 ) ) TCHECK( at< N >( sv, i ) == mk< T >( 10 + where ), "shared array" ); return; }
      if( rng.chance( 5 ) ) Jitter::now();
      long const x = rng.range( 1, 100000 );
      switch( rng.below( 3 ) )
      {
        case 0: at< N >( view, i ) = mk< T >( x ); w[ where ] = x; break;
        case 1: chain< N >( view, i ) = mk< T >( x ); w[ where ] = x; break;
        default: TCHECK( bk( at< N >( view, i ) ) == w[ where ], "own element" );
      }
    } );
    // A whole row at once.
    if( byRow && N > 1 ) for( long r = 0; r < dims[ 0 ]; ++r ) if( own[ r ] == t && rng.chance( 50 ) )
    {
      long const x = rng.range( 1, 1000 );
      auto && row = view[ r ];
      LvArray::forValuesInSlice( row, [x] ( T & v ) { v = mk< T >( x ); } );
      forAll< N >( dims, [&] ( Idx< N > const & i ) { if( i[ 0 ] == r ) w[ dot< N >( i, refStrides< PERM >( dims ) ) ] = x; } );
    }
  } );
  for( long k = 0; k < n; ++k ) CHECK_EQ( c, bk( a.data()[ k ] ), want[ std::size_t( k ) ], "value", "" );
}
template< typename T, typename IT > void ragged( Ctx & c )
{
  Team team( c );
  LvArray::ArrayOfArrays< T, IT, LvArray::MallocBuffer > a, shared;
  long const n = c.rng.range( 1, 24 ), steps = c.rng.range( 5, 120 );
  std::vector< std::vector< long > > model( ( std::size_t( n ) ) ), smodel( ( std::size_t( n ) ) );
  std::vector< int > owner; // n: appended to by everybody
  for( long i = 0; i < n; ++i )
  {
    for( long j = 0, k = c.rng.range( 0, 6 ); j < k; ++j ) { model[ std::size_t( i ) ].push_back( c.rng.range( 1, 1000 ) ); smodel[ std::size_t( i ) ].push_back( c.rng.range( 1, 1000 ) ); }
    std::vector< T > v, s; for( long x : model[ std::size_t( i ) ] ) v.push_back( mk< T >( x ) ); for( long x : smodel[ std::size_t( i ) ] ) s.push_back( mk< T >( x ) );
    a.appendArray( v.begin(), v.end() ); shared.appendArray( s.begin(), s.end() );
    owner.push_back( c.rng.chance( 25 ) ? -1 : int( c.rng.below( std::uint64_t( team.n ) ) ) );
    a.setCapacityOfArray( IT( i ), owner.back() < 0 ? IT( long( v.size() ) + team.n * steps ) : IT( long( v.size() ) + c.rng.range( 0, 40 ) ) );
  }
  std::vector< std::size_t > initial; for( auto const & m : model ) initial.push_back( m.size() );
  std::vector< std::vector< std::pair< long, long > > > appended( ( std::size_t( team.n ) ) ); // per thread: row, value
  auto const v = a.toView(); auto const sv = shared.toViewConst();
  auto * const m = model.data(); auto const * const sm = smodel.data(); int const * const own = owner.data(); auto * const app = appended.data();
  team.run( [&team, v, sv, m, sm, own, app, n, steps] ( int t, Rng & rng )
  {
    for( long k = 0; k < steps; ++k )
    {
      if( rng.chance( 10 ) ) Jitter::now();
      long const i = rng.range( 0, n - 1 ); IT const I = IT( i ); auto & row = m[ i ];
      long const x = ( t + 1 ) * 100000L + k + 1;
      if( own[ i ] < 0 ) { v.template emplaceBackAtomic< RAJA::builtin_atomic >( I, mk< T >( x ) ); app[ t ].emplace_back( i, x ); continue; }
      if( own[ i ] != t )
      { // read only
        auto const & s = sm[ i ];
        TCHECK( long( sv.sizeOfArray( I ) ) == long( s.size() ), "shared size" );
        if( !s.empty() ) { long const j = rng.range( 0, long( s.size() ) - 1 ); TCHECK( bk( rng.chance( 50 ) ? sv( I, IT( j ) ) : sv[ I ][ IT( j ) ] ) == s[ std::size_t( j ) ], "shared value" ); }
        continue;
      }
      long const sz = long( row.size() ), room = long( v.capacityOfArray( I ) ) - sz;
      switch( rng.below( 7 ) )
      {
        case 0: if( room > 0 ) { v.emplaceBack( I, mk< T >( x ) ); row.push_back( x ); } break;
        case 1: if( room > 0 ) { long const p = rng.range( 0, sz ); v.emplace( I, IT( p ), mk< T >( x ) ); row.insert( row.begin() + p, x ); } break;
        case 2: { long const q = rng.range( 0, std::min( 4L, room ) ), p = rng.range( 0, sz ); std::vector< T > w( std::size_t( q ), mk< T >( x ) );
                  if( rng.chance( 50 ) ) { v.insertIntoArray( I, IT( p ), w.begin(), w.end() ); row.insert( row.begin() + p, std::size_t( q ), x ); }
                  else { v.appendToArray( I, w.begin(), w.end() ); row.insert( row.end(), std::size_t( q ), x ); } break; }
        case 3: if( sz ) { long const p = rng.range( 0, sz - 1 ), q = rng.range( 1, std::min( 3L, sz - p ) ); v.eraseFromArray( I, IT( p ), IT( q ) ); row.erase( row.begin() + p, row.begin() + p + q ); } break;
        case 4: if( sz ) { long const p = rng.range( 0, sz - 1 ); v( I, IT( p ) ) = mk< T >( x ); row[ std::size_t( p ) ] = x; } break;
        case 5: TCHECK( long( v.sizeOfArray( I ) ) == sz, "own size" ); break;
        default: for( long j = 0; j < sz; ++j ) TCHECK( bk( v[ I ][ IT( j ) ] ) == row[ std::size_t( j ) ], "own value" );
      }
    }
  } );
  CHECK_EQ( c, long( a.size() ), n, "size", "" );
  long atomics = 0, alternations = 0;
  for( long i = 0; i < n; ++i )
  {
    IT const I = IT( i ); std::vector< long > got; for( auto const & x : a[ I ] ) got.push_back( bk( x ) );
    auto const & row = model[ std::size_t( i ) ];
    if( own[ i ] >= 0 ) { CHECK( c, got == row, "value", "row " << i ); continue; }
    // everything that was there, in place, then exactly the appended values in any order, each thread's in its own order
    std::vector< long > all; std::map< long, std::vector< long > > byThread;
    for( std::size_t t = 0; t < appended.size(); ++t ) for( auto const & p : appended[ t ] ) if( p.first == i ) { all.push_back( p.second ); byThread[ long( t ) + 1 ].push_back( p.second ); }
    CHECK_EQ( c, got.size(), initial[ std::size_t( i ) ] + all.size(), "atomic-append-count", "row " << i );
    CHECK( c, std::equal( row.begin(), row.end(), got.begin() ), "value", "row " << i );
    std::vector< long > tail( got.begin() + long( row.size() ), got.end() );
    std::map< long, std::vector< long > > order; for( std::size_t k = 0; k < tail.size(); ++k ) { order[ tail[ k ] / 100000 ].push_back( tail[ k ] ); if( k && tail[ k ] / 100000 != tail[ k - 1 ] / 100000 ) ++alternations; }
    for( auto const & p : byThread ) CHECK( c, order[ p.first ] == p.second, "atomic-append-order", "row " << i );
    std::sort( tail.begin(), tail.end() ); std::sort( all.begin(), all.end() );
    CHECK( c, tail == all, "atomic-append", "row " << i );
    atomics += long( all.size() );
  }
  c.event( "atomic appends", atomics ); c.event( "neighbouring appends by different threads", alternations );
}
// Many threads append to few rows with exactly the capacity they need.
template< typename T, typename IT > void appendFull( Ctx & c )
{
  Team team( c );
  LvArray::ArrayOfArrays< T, IT, LvArray::MallocBuffer > a;
  long const n = c.rng.range( 1, 3 ), per = c.rng.range( 1, 150 );
  for( long i = 0; i < n; ++i ) { a.appendArray( IT( 0 ) ); a.setCapacityOfArray( IT( i ), IT( team.n * per ) ); }
  auto const v = a.toView();
  team.run( [v, n, per] ( int t, Rng & )
  { for( long k = 0; k < per; ++k ) for( long i = 0; i < n; ++i ) v.template emplaceBackAtomic< RAJA::auto_atomic >( IT( i ), mk< T >( 1 + t * 10000 + k ) ); } );
  long alternations = 0;
  for( long i = 0; i < n; ++i )
  {
    CHECK_EQ( c, long( a.sizeOfArray( IT( i ) ) ), team.n * per, "atomic-append-count", "" );
    std::vector< long > next( std::size_t( team.n ), 0 ); long last = -1;
    for( auto const & x : a[ IT( i ) ] )
    {
      long const q = bk( x ) - 1, t = q / 10000, k = q % 10000; ++c.checks;
      if( t < 0 || t >= team.n || next[ std::size_t( t ) ] != k ) c.fail( "atomic-append", "value " + std::to_string( q ) + " lost, duplicated or out of order" );
      ++next[ std::size_t( t ) ]; alternations += last >= 0 && last != t; last = t;
    }
  }
  c.event( "atomic appends", n * team.n * per ); c.event( "neighbouring appends by different threads", alternations );
}
static void sortedArray( Ctx & c )
{ // concurrent searches; separate containers do not share hidden state
  Team team( c );
  LvArray::SortedArray< long, std::ptrdiff_t, LvArray::MallocBuffer > s; std::set< long > m;
  for( long k = 0, n = c.rng.range( 0, 200 ); k < n; ++k ) { long const x = c.rng.range( 0, 400 ); s.insert( x ); m.insert( x ); }
  auto const v = s.toView(); auto const * const pm = &m;
  team.run( [&team, v, pm] ( int t, Rng & rng )
  {
    LvArray::SortedArray< long, int, LvArray::MallocBuffer > mine; std::set< long > model;
    LvArray::ArrayOfSets< long, int, LvArray::MallocBuffer > sets; LvArray::ArrayOfArrays< long, int, LvArray::MallocBuffer > arrays;
    for( int k = 0; k < 60; ++k )
    {
      long const x = rng.range( -5, 405 );
      switch( rng.below( 6 ) )
      {
        case 0: TCHECK( v.contains( x ) == ( pm->count( x ) > 0 ), "shared search" ); break;
        case 1: { long q = 0; auto it = pm->begin(); for( long y : v ) { TCHECK( y == *it, "shared iteration" ); ++it; ++q; } TCHECK( q == long( v.size() ), "shared size" ); break; }
        case 2: TCHECK( mine.insert( x ) == model.insert( x ).second, "own insertion" ); break;
        case 3: TCHECK( mine.remove( x ) == ( model.erase( x ) > 0 ), "own removal" ); break;
        case 4:
        {
          std::set< long > w; for( int q = 0; q < 6; ++q ) w.insert( rng.range( 0, 400 ) );
          long fresh = 0; for( long y : w ) fresh += model.insert( y ).second;
          TCHECK( long( mine.insert( w.begin(), w.end() ) ) == fresh, "own batch insertion" ); break;
        }
        default:
        {
          std::vector< long > w; for( long q = 0, e = rng.range( 0, 80 ); q < e; ++q ) w.push_back( rng.range( 0, 50 ) );
          std::set< long > const u( w.begin(), w.end() );
          arrays.resize( 0 ); arrays.appendArray( w.begin(), w.end() );
          auto copy = arrays; sets.assimilate( std::move( copy ), LvArray::sortedArrayManipulation::UNSORTED_WITH_DUPLICATES );
          TCHECK( sets.size() == 1 && long( sets.sizeOfSet( 0 ) ) == long( u.size() ) && std::equal( u.begin(), u.end(), sets[ 0 ].begin() ), "own assimilation" );
        }
      }
    }
    TCHECK( long( mine.size() ) == long( model.size() ) && std::equal( model.begin(), model.end(), mine.begin() ), "own container" );
  } );
}
#define R( NAME, W, ... ) static Register NAME( "threads/" #__VA_ARGS__, __VA_ARGS__, W, false )
R( a1, 1, array< 1, RAJA::PERM_I, long > ); R( a2, 1, array< 2, RAJA::PERM_IJ, double > ); R( a3, 1, array< 2, RAJA::PERM_JI, std::string > ); R( a4, 1, array< 3, RAJA::PERM_JKI, Pod > );
R( r1, 2, ragged< long, std::ptrdiff_t > ); R( r2, 2, ragged< std::string, int > ); R( r3, 1, ragged< Pod, int > );
R( f1, 1, appendFull< long, int > ); R( f2, 1, appendFull< double, std::ptrdiff_t > ); R( f3, 1, appendFull< std::string, int > );
R( s1, 2, sortedArray );
#endif

#if PART == 2 // sets, patterns, matrices, parallel construction
template< typename IT > void sets( Ctx & c )
{
  Team team( c );
  LvArray::ArrayOfSets< long, IT, LvArray::MallocBuffer > a;
  long const n = c.rng.range( 1, 24 ), steps = c.rng.range( 5, 150 );
  std::vector< std::set< long > > model( ( std::size_t( n ) ) ); std::vector< int > owner;
  for( long i = 0; i < n; ++i )
  {
    a.appendSet( IT( c.rng.range( 0, 40 ) ) ); owner.push_back( c.rng.chance( 30 ) ? -1 : int( c.rng.below( std::uint64_t( team.n ) ) ) ); // -1: only read
    for( long j = 0, k = c.rng.range( 0, 10 ); j < k; ++j ) { long const x = c.rng.range( 0, 40 ); a.insertIntoSet( IT( i ), x ); model[ std::size_t( i ) ].insert( x ); }
  }
  auto const v = a.toView(); auto const vc = a.toViewConst(); auto * const m = model.data(); int const * const own = owner.data();
  team.run( [&team, v, vc, m, own, n, steps] ( int t, Rng & rng )
  {
    for( long k = 0; k < steps; ++k )
    {
      if( rng.chance( 10 ) ) Jitter::now();
      long const i = rng.range( 0, n - 1 ); IT const I = IT( i ); auto & set = m[ i ]; long const x = rng.range( 0, 40 );
      if( own[ i ] >= 0 && own[ i ] != t ) continue;
      if( own[ i ] < 0 )
      {
        TCHECK( vc.contains( I, x ) == ( set.count( x ) > 0 ), "shared search" );
        TCHECK( long( vc.sizeOfSet( I ) ) == long( set.size() ) && std::equal( set.begin(), set.end(), vc[ I ].begin() ), "shared set" ); continue;
      }
      long const room = long( v.capacityOfSet( I ) ) - long( set.size() );
      std::set< long > w; for( int q = 0; q < 4; ++q ) w.insert( rng.range( 0, 40 ) );
      switch( rng.below( 5 ) )
      {
        case 0: if( room > 0 ) TCHECK( v.insertIntoSet( I, x ) == set.insert( x ).second, "own insertion" ); break;
        case 1: TCHECK( v.removeFromSet( I, x ) == ( set.erase( x ) > 0 ), "own removal" ); break;
        case 2: if( room > 4 ) { long f = 0; for( long y : w ) f += set.insert( y ).second; TCHECK( long( v.insertIntoSet( I, w.begin(), w.end() ) ) == f, "own insertion" ); } break;
        case 3: { long f = 0; for( long y : w ) f += long( set.erase( y ) ); TCHECK( long( v.removeFromSet( I, w.begin(), w.end() ) ) == f, "own removal" ); break; }
        default: TCHECK( v.contains( I, x ) == ( set.count( x ) > 0 ), "own search" );
      }
    }
  } );
  for( long i = 0; i < n; ++i ) { auto const s = a[ IT( i ) ]; auto const & m2 = model[ std::size_t( i ) ]; CHECK( c, long( s.size() ) == long( m2.size() ) && std::equal( m2.begin(), m2.end(), s.begin() ), "value", "set " << i ); }
}
template< typename CT, typename IT > void pattern( Ctx & c )
{
  Team team( c );
  long const n = c.rng.range( 1, 24 ), nc = c.rng.range( 1, 60 ), steps = c.rng.range( 5, 150 );
  LvArray::SparsityPattern< CT, IT, LvArray::MallocBuffer > a( IT( n ), IT( nc ), IT( c.rng.range( 0, 30 ) ) );
  std::vector< std::set< CT > > model( ( std::size_t( n ) ) ); std::vector< int > owner;
  for( long i = 0; i < n; ++i )
  {
    owner.push_back( c.rng.chance( 30 ) ? -1 : int( c.rng.below( std::uint64_t( team.n ) ) ) );
    for( long j = 0, k = c.rng.range( 0, 10 ); j < k; ++j ) { CT const x = CT( c.rng.range( 0, nc - 1 ) ); a.insertNonZero( IT( i ), x ); model[ std::size_t( i ) ].insert( x ); }
  }
  auto const v = a.toView(); auto const vc = a.toViewConst(); auto * const m = model.data(); int const * const own = owner.data();
  team.run( [&team, v, vc, m, own, n, nc, steps] ( int t, Rng & rng )
  {
    for( long k = 0; k < steps; ++k )
    {
      if( rng.chance( 10 ) ) Jitter::now();
      long const i = rng.range( 0, n - 1 ); IT const I = IT( i ); auto & set = m[ i ]; CT const x = CT( rng.range( 0, nc - 1 ) );
      if( own[ i ] >= 0 && own[ i ] != t ) continue;
      if( own[ i ] < 0 ) { TCHECK( vc.empty( I, x ) == ( set.count( x ) == 0 ) && long( vc.numNonZeros( I ) ) == long( set.size() ) && std::equal( set.begin(), set.end(), vc.getColumns( I ).begin() ), "shared row" ); continue; }
      long const room = long( v.nonZeroCapacity( I ) ) - long( set.size() );
      std::set< CT > w; for( int q = 0; q < 4; ++q ) w.insert( CT( rng.range( 0, nc - 1 ) ) );
      switch( rng.below( 4 ) )
      {
        case 0: if( room > 0 ) TCHECK( v.insertNonZero( I, x ) == set.insert( x ).second, "own insertion" ); break;
        case 1: TCHECK( v.removeNonZero( I, x ) == ( set.erase( x ) > 0 ), "own removal" ); break;
        case 2: if( room > 4 ) { long f = 0; for( CT y : w ) f += set.insert( y ).second; TCHECK( long( v.insertNonZeros( I, w.begin(), w.end() ) ) == f, "own insertion" ); } break;
        default: { long f = 0; for( CT y : w ) f += long( set.erase( y ) ); TCHECK( long( v.removeNonZeros( I, w.begin(), w.end() ) ) == f, "own removal" ); }
      }
    }
  } );
  for( long i = 0; i < n; ++i ) { auto const s = a.getColumns( IT( i ) ); auto const & m2 = model[ std::size_t( i ) ]; CHECK( c, long( s.size() ) == long( m2.size() ) && std::equal( m2.begin(), m2.end(), s.begin() ), "value", "row " << i ); }
}
template< typename T, typename CT, typename IT > void matrix( Ctx & c )
{ // own rows: anything; shared rows: atomic additions
  Team team( c );
  long const n = c.rng.range( 1, 12 ), nc = c.rng.chance( 20 ) ? c.rng.range( 200, 900 ) : c.rng.range( 1, 60 ), steps = c.rng.range( 5, 100 );
  LvArray::CRSMatrix< T, CT, IT, LvArray::MallocBuffer > a( IT( n ), IT( nc ), IT( c.rng.range( 0, 30 ) ) );
  std::vector< std::map< CT, long > > model( ( std::size_t( n ) ) ); std::vector< int > owner;
  for( long i = 0; i < n; ++i )
  {
    owner.push_back( c.rng.chance( 50 ) ? -1 : int( c.rng.below( std::uint64_t( team.n ) ) ) );
    long const k = c.rng.chance( 30 ) ? c.rng.range( 0, 3 * nc ) : c.rng.range( 0, 10 ); // nearly full rows too
    for( long j = 0; j < k; ++j ) { CT const x = CT( c.rng.range( 0, nc - 1 ) ); long const e = c.rng.range( 1, 1000 ); if( a.insertNonZero( IT( i ), x, T( e ) ) ) model[ std::size_t( i ) ][ x ] = e; }
  }
  std::vector< std::vector< std::map< CT, long > > > added( std::size_t( team.n ), std::vector< std::map< CT, long > >( ( std::size_t( n ) ) ) );
  auto const v = a.toView(); auto const vs = a.toViewConstSizes(); auto * const m = model.data(); int const * const own = owner.data(); auto * const ad = added.data();
  team.run( [&team, v, vs, m, own, ad, n, nc, steps] ( int t, Rng & rng )
  {
    for( long k = 0; k < steps; ++k )
    {
      if( rng.chance( 10 ) ) Jitter::now();
      long const i = rng.range( 0, n - 1 ); IT const I = IT( i ); auto & row = m[ i ]; CT const x = CT( rng.range( 0, nc - 1 ) ); long const e = rng.range( 1, 1000 );
      if( own[ i ] >= 0 && own[ i ] != t ) continue;
      if( own[ i ] < 0 || rng.chance( 30 ) )
      { // the columns of shared rows never change
        std::vector< CT > cols; std::vector< T > vals; int const keep = int( rng.range( 5, 100 ) );
        for( auto const & p : row ) if( rng.chance( keep ) ) { cols.push_back( p.first ); vals.push_back( T( rng.range( -5, 50 ) ) ); }
        IT const q = IT( cols.size() );
        int const which = int( rng.below( 4 ) );
        if( which == 3 ) for( std::size_t z = cols.size(); z > 1; --z ) { std::size_t const y = rng.below( z ); std::swap( cols[ z - 1 ], cols[ y ] ); std::swap( vals[ z - 1 ], vals[ y ] ); }
        switch( which )
        {
          case 0: vs.template addToRow< RAJA::builtin_atomic >( I, cols.data(), vals.data(), q ); break;
          case 1: vs.template addToRowBinarySearch< RAJA::builtin_atomic >( I, cols.data(), vals.data(), q ); break;
          case 2: v.template addToRowLinearSearch< RAJA::auto_atomic >( I, cols.data(), vals.data(), q ); break;
          default: v.template addToRowBinarySearchUnsorted< RAJA::omp_atomic >( I, cols.data(), vals.data(), q );
        }
        for( std::size_t z = 0; z < cols.size(); ++z ) ad[ t ][ std::size_t( i ) ][ cols[ z ] ] += long( vals[ z ] );
        continue;
      }
      long const room = long( v.nonZeroCapacity( I ) ) - long( row.size() );
      auto & mine = ad[ t ][ std::size_t( i ) ];
      switch( rng.below( 4 ) )
      {
        case 0: if( room > 0 ) { bool const fresh = row.find( x ) == row.end(); TCHECK( v.insertNonZero( I, x, T( e ) ) == fresh, "own insertion" ); if( fresh ) { row[ x ] = e; mine.erase( x ); } } break;
        case 1: TCHECK( v.removeNonZero( I, x ) == ( row.erase( x ) > 0 ), "own removal" ); mine.erase( x ); break;
        case 2: if( !row.empty() ) { long const pos = rng.range( 0, long( row.size() ) - 1 ); auto it = row.begin(); std::advance( it, pos ); TCHECK( vs.getColumns( I )[ IT( pos ) ] == it->first, "own column" ); vs.getEntries( I )[ IT( pos ) ] = T( e ); it->second = e; mine.erase( it->first ); } break;
        default: { long pos = 0; for( auto const & p : row ) { auto f = mine.find( p.first ); TCHECK( v.getEntries( I )[ IT( pos ) ] == T( p.second + ( f == mine.end() ? 0 : f->second ) ), "own entry" ); ++pos; } }
      }
    }
  } );
  long additions = 0, contended = 0;
  for( long i = 0; i < n; ++i )
  {
    auto const cols = a.getColumns( IT( i ) ); auto const vals = a.getEntries( IT( i ) ); auto const & row = model[ std::size_t( i ) ];
    CHECK_EQ( c, long( cols.size() ), long( row.size() ), "size", "row " << i );
    IT pos = 0;
    for( auto const & p : row )
    {
      long want = p.second; int by = 0;
      for( auto const & t : added ) { auto const f = t[ std::size_t( i ) ].find( p.first ); if( f != t[ std::size_t( i ) ].end() ) { want += f->second; ++by; ++additions; } }
      contended += by > 1;
      CHECK( c, cols[ pos ] == p.first, "column", "row " << i );
      CHECK( c, vals[ pos ] == T( want ), owner[ std::size_t( i ) ] < 0 ? "atomic-addition" : "value", "row " << i << " column " << p.first << ": " << vals[ pos ] << " instead of " << want );
      ++pos;
    }
  }
  c.event( "entries added to by a thread", additions ); c.event( "entries added to by several threads", contended );
}
template< typename POLICY > void construct( Ctx & c )
{ // building from capacities in parallel gives what building serially gives
  long const n = c.rng.range( 0, 60 ), nc = c.rng.range( 0, 40 );
  std::vector< int > caps; for( long i = 0; i < n; ++i ) caps.push_back( int( c.rng.range( 0, 9 ) ) );
  c.op( "%ld rows %llx", n, ( unsigned long long ) c.rng.next() ); c.nontrivial = n > 0;
  Jitter::level() = int( c.rng.below( 4 ) );
  LvArray::ArrayOfArrays< long, int, LvArray::MallocBuffer > a, as; LvArray::ArrayOfSets< long, int, LvArray::MallocBuffer > s, ss;
  LvArray::SparsityPattern< int, int, LvArray::MallocBuffer > p, ps; LvArray::CRSMatrix< double, int, int, LvArray::MallocBuffer > m, ms;
  for( long i = 0, e = c.rng.range( 0, 5 ); i < e; ++i ) { a.appendArray( 3 ); as.appendArray( 3 ); s.appendSet( 2 ); ss.appendSet( 2 ); }
  a.resizeFromCapacities< POLICY >( int( n ), caps.data() ); as.resizeFromCapacities< RAJA::loop_exec >( int( n ), caps.data() );
  s.resizeFromCapacities< POLICY >( int( n ), caps.data() ); ss.resizeFromCapacities< RAJA::loop_exec >( int( n ), caps.data() );
  p.resizeFromRowCapacities< POLICY >( int( n ), int( nc ), caps.data() ); ps.resizeFromRowCapacities< RAJA::loop_exec >( int( n ), int( nc ), caps.data() );
  m.resizeFromRowCapacities< POLICY >( int( n ), int( nc ), caps.data() ); ms.resizeFromRowCapacities< RAJA::loop_exec >( int( n ), int( nc ), caps.data() );
  long total = 0;
  CHECK( c, a.size() == n && s.size() == n && p.numRows() == n && m.numRows() == n && p.numColumns() == nc && m.numColumns() == nc, "size", "" );
  auto const av = a.toViewConst(); auto const sv = s.toViewConst(); auto const pv = p.toViewConst(); auto const mv = m.toViewConst();
  for( int i = 0; i < n; ++i )
  {
    CHECK( c, a.sizeOfArray( i ) == 0 && s.sizeOfSet( i ) == 0 && p.numNonZeros( i ) == 0 && m.numNonZeros( i ) == 0, "size", "row " << i );
    CHECK_EQ( c, a.capacityOfArray( i ), caps[ std::size_t( i ) ], "capacity", "" ); CHECK_EQ( c, s.capacityOfSet( i ), caps[ std::size_t( i ) ], "capacity", "" );
    CHECK_EQ( c, p.nonZeroCapacity( i ), ps.nonZeroCapacity( i ), "capacity", "" ); CHECK_EQ( c, m.nonZeroCapacity( i ), ms.nonZeroCapacity( i ), "capacity", "" );
    CHECK_EQ( c, av.getOffsets()[ i ], as.toViewConst().getOffsets()[ i ], "offset", "" ); CHECK_EQ( c, sv.getOffsets()[ i ], ss.toViewConst().getOffsets()[ i ], "offset", "" );
    CHECK_EQ( c, pv.getOffsets()[ i ], ps.toViewConst().getOffsets()[ i ], "offset", "" ); CHECK_EQ( c, mv.getOffsets()[ i ], ms.toViewConst().getOffsets()[ i ], "offset", "" );
    CHECK_EQ( c, av.getOffsets()[ i ], total, "offset", "" ); total += caps[ std::size_t( i ) ];
  }
  CHECK( c, a.valueCapacity() >= total && s.valueCapacity() >= total, "capacity", "" );
  // and then every row can be filled concurrently by the parallel policy
  Team team( c );
  auto const v = a.toView(); auto const svm = s.toView(); int const * const cp = caps.data();
  RAJA::forall< POLICY >( RAJA::TypedRangeSegment< int >( 0, int( n ) ), [v, svm, cp] ( int const i ) { for( int j = 0; j < cp[ i ]; ++j ) { v.emplaceBack( i, long( 10 * i + j ) ); svm.insertIntoSet( i, long( 7 * j ) ); } } );
  for( int i = 0; i < n; ++i ) for( int j = 0; j < caps[ std::size_t( i ) ]; ++j ) { CHECK_EQ( c, a( i, j ), 10 * i + j, "value", "" ); CHECK_EQ( c, s( i, j ), 7 * j, "value", "" ); }
  // assimilating unsorted arrays in parallel
  auto b = a; LvArray::ArrayOfSets< long, int, LvArray::MallocBuffer > fromA; fromA.assimilate( std::move( b ), c.rng.chance( 50 ) ? LvArray::sortedArrayManipulation::SORTED_UNIQUE : LvArray::sortedArrayManipulation::UNSORTED_WITH_DUPLICATES );
  for( int i = 0; i < n; ++i ) { CHECK_EQ( c, fromA.sizeOfSet( i ), caps[ std::size_t( i ) ], "assimilated", "" ); for( int j = 0; j < caps[ std::size_t( i ) ]; ++j ) CHECK_EQ( c, fromA( i, j ), 10 * i + j, "assimilated", "" ); }
  c.event( "parallel constructions" );
}
#define R( NAME, W, ... ) static Register NAME( "threads/" #__VA_ARGS__, __VA_ARGS__, W, false )
R( s1, 2, sets< std::ptrdiff_t > ); R( s2, 1, sets< int > );
R( p1, 1, pattern< int, std::ptrdiff_t > ); R( p2, 1, pattern< unsigned, int > );
R( m1, 2, matrix< double, int, std::ptrdiff_t > ); R( m2, 1, matrix< long, unsigned, int > ); R( m3, 1, matrix< float, short, int > );
R( k1, 1, construct< RAJA::threads_exec< 2 > > ); R( k2, 1, construct< RAJA::threads_exec< 4 > > ); R( k3, 1, construct< RAJA::threads_exec< 8 > > );
#endif
H_MAIN()
