// Managed buffers over two simulated memory spaces: histories of host modifications, kernels, explicit
// moves and bulk operations; every read in either space must see the values last written anywhere.
// CUDA support is only switched on behind the (two) headers that need the CUDA headers.
#include "common.hpp"
#include "limits.hpp"
#include "math.hpp"
#define LVARRAY_USE_CUDA
#include <RAJA/RAJA.hpp>
#include "Array.hpp"
#include "ChaiBuffer.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#include "memcpy.hpp"
#if PART == 1
  #include "array_util.hpp"
#endif
using namespace H;
using LvArray::MemorySpace;
using Dev = RAJA::cuda_exec< 32 >;
using Host = RAJA::loop_exec;
static constexpr MemorySpace HOST = MemorySpace::host, DEVICE = MemorySpace::cuda;

static umpire::ResourceManager & rm() { return umpire::ResourceManager::getInstance(); }
inline bool setupSpaces()
{
  RAJA::shim::spaceHook() = []( int s ) { chai::ArrayManager::getInstance()->setExecutionSpace( s == 2 ? chai::GPU : s == 1 ? chai::CPU : chai::NONE ); };
  RAJA::shim::sideHook() = []( int s ) { rm().setSide( s ); };
  return true;
}
static bool const isSetup = setupSpaces();

// Kernels may not throw: they count what they find wrong here.
struct Probe { long bad = 0, seen = 0; void eq( long a, long b ) { ++seen; if( a != b ) ++bad; } };

// Copies made by the resource manager while something ran.
struct Copies { std::size_t at = rm().copies; long n() const { return long( rm().copies - at ); } };

// Where the values are current. Moving to a place where they are must not copy anything.
struct Where
{
  bool host = true, dev = false;
  bool at( bool device ) const { return device ? dev : host; }
  void moved( bool device, bool touched ) { if( touched ) { host = !device; dev = device; } else ( device ? dev : host ) = true; }
};

// Runs f( i ) for i in [0, n) in a kernel that captured view; the body only sees the captured copy.
template< typename POLICY, typename V, typename F > void kernel( V const & view, long n, F f )
{ RAJA::forall< POLICY >( RAJA::TypedRangeSegment< long >( 0, n ), [view, f] ( long const i ) { f( view, i ); } ); }
// A move, which touches unless told otherwise.
template< typename V > void mv( Rng & r, V const & v, MemorySpace space, bool touch ) { if( touch && r.chance( 50 ) ) v.move( space ); else v.move( space, touch ); }
template< typename V, typename F > void launch( bool device, V const & view, long n, F f )
{ if( device ) kernel< Dev >( view, n, f ); else kernel< Host >( view, n, f ); }

struct Accounts
{
  Ctx & c; long records = chai::PointerRecord::liveRecords(); std::size_t blocks = rm().liveBlocks();
  explicit Accounts( Ctx & ctx ): c( ctx ) { rm().setSide( 1 ); chai::ArrayManager::getInstance()->setExecutionSpace( chai::NONE ); }
  void done() { CHECK_EQ( c, chai::PointerRecord::liveRecords(), records, "record-leak", "" ); CHECK_EQ( c, long( rm().liveBlocks() ), long( blocks ), "block-leak", "" ); }
};

#define NOCOPY( C, WAS, COPIES, WHAT ) do { if( WAS ) { CHECK_EQ( C, ( COPIES ).n(), 0L, "needless-copy", WHAT ); ( C ).event( "moves to where the data was current" ); } else ( C ).event( "moves of stale data" ); } while( 0 )

#if PART == 1
// ---------------------------------------------------------------------------------------------- arrays
template< typename A, typename D, std::size_t ... I > void resizeRaw( A & a, MemorySpace const s, D const & d, std::index_sequence< I ... > )
{ a.resizeWithoutInitializationOrDestruction( s, d[ I ] ... ); }
template< int N, typename PERM, typename IT > void arrayCase( Ctx & c )
{
  Accounts acc( c );
  {
    using A = LvArray::Array< long, N, PERM, IT, LvArray::ChaiBuffer >;
    using V = std::decay_t< decltype( std::declval< A const & >().toView() ) >;
    struct Slot { A a; std::vector< long > m; Idx< N > d{}; Where w; };    // m in storage order
    Slot s[ 2 ];
    long next = 1;
    Probe p;
    auto total = []( Slot const & x ) { return long( x.a.size() ); };
    auto store = [&]( Slot & x, bool device ) // through the view in a kernel
    {
      long const base = next; next += total( x ) + 1;
      Copies k; bool const was = x.w.at( device );
      launch( device, x.a.toView(), total( x ), [base] ( V const & v, long i ) { v.data()[ i ] = base + i; } );
      if( total( x ) ) { NOCOPY( c, was, k, "mutable capture" ); CHECK( c, k.n() <= 1, "needless-copy", "" ); }
      for( long i = 0; i < total( x ); ++i ) x.m[ std::size_t( i ) ] = base + i;
      if( x.a.capacity() ) x.w.moved( device, true );
    };
    auto load = [&]( Slot & x, bool device, bool mut )
    {
      Probe * q = &p; long const * m = x.m.data(); p = Probe();
      Copies k; bool const was = x.w.at( device );
      if( mut ) launch( device, x.a.toView(), total( x ), [q, m] ( V const & v, long i ) { q->eq( v.data()[ i ], m[ i ] ); } );
      else launch( device, x.a.toViewConst(), total( x ), [q, m] ( LvArray::ArrayView< long const, N, LvArray::typeManipulation::getStrideOneDimension( PERM{} ), IT, LvArray::ChaiBuffer > const & v, long i ) { q->eq( v.data()[ i ], m[ i ] ); } );
      if( p.bad ) c.fail( "stale-value", std::to_string( p.bad ) + " of " + std::to_string( p.seen ) + " values read in a kernel on the " + ( device ? "device" : "host" ) + " are not those last written" );
      c.checks += p.seen; CHECK_EQ( c, p.seen, total( x ), "kernel-iterations", "" );
      if( total( x ) ) { NOCOPY( c, was, k, "capture" ); CHECK( c, k.n() <= 1, "needless-copy", "" ); }
      if( x.a.capacity() ) x.w.moved( device, mut );
      c.event( device ? "values read on the device" : "values read on the host", p.seen );
    };
    auto move = [&]( Slot & x, bool device, bool touch )
    {
      Copies k; bool const was = x.w.at( device );
      if( c.rng.chance( 50 ) ) mv( c.rng, x.a, device ? DEVICE : HOST, touch ); else { V const v = x.a.toView(); mv( c.rng, v, device ? DEVICE : HOST, touch ); if( !device ) x.a.move( HOST, touch ); else x.a.move( DEVICE, false ); }
      if( x.a.capacity() ) { NOCOPY( c, was, k, "move" ); CHECK( c, k.n() <= 1, "needless-copy", "" ); CHECK( c, x.a.getPreviousSpace() == ( device ? DEVICE : HOST ), "previous-space", "" ); x.w.moved( device, touch ); }
    };
    auto compare = [&]( Slot & x, char const * when )
    {
      for( long i = 0; i < total( x ); ++i ) CHECK_EQ( c, x.a.data()[ i ], x.m[ std::size_t( i ) ], "stale-value", when );
      c.event( "values read on the host", total( x ) );
    };
    for( int st = 0; st < ( c.thorough ? 60 : 30 ); ++st )
    {
      Slot & x = s[ c.rng.below( 2 ) ]; Slot & y = &x == s ? s[ 1 ] : s[ 0 ];
      int const xi = int( &x - s );
      bool const device = c.rng.chance( 55 );
      switch( c.rng.below( 20 ) )
      {
        case 18: case 19:
        {
          // one dimension changes, the values stay
          move( x, false, c.rng.chance( 50 ) );
          std::size_t const k = c.rng.below( std::uint64_t( N ) );
          long const to = c.rng.chance( 10 ) ? 0 : c.rng.range( 1, x.d[ k ] + 2 );
          if( prod< N >( x.d ) / std::max( 1L, x.d[ k ] ) * to > 200 ) break;
          c.op( "%d dimension %zu resized to %ld", xi, k, to );
          std::map< Idx< N >, long > kept;
          { std::size_t q = 0; auto const v = x.a.toViewConst(); forAll< N >( x.d, [&] ( Idx< N > const & i ) { q = std::size_t( lin< N >( v, i ) ); if( i[ k ] < to ) kept[ i ] = x.m[ q ]; } ); }
          x.a.setSingleParameterResizeIndex( int( k ) ); x.a.resize( IT( to ) ); x.d[ k ] = to;
          x.m.assign( std::size_t( total( x ) ), 0 );
          { auto const v = x.a.toViewConst(); for( auto const & e : kept ) x.m[ std::size_t( lin< N >( v, e.first ) ) ] = e.second; }
          x.w = Where(); c.event( "dimensions resized in place" );
          break;
        }
        case 16:
        {
          // storage that never was on the host
          c.op( "%d allocated on the %s", xi, device ? "device" : "host" );
          x.a = A(); x.d = randomDims< N >( c.rng, 60, 8 ); resizeRaw( x.a, device ? DEVICE : HOST, x.d, std::make_index_sequence< std::size_t( N ) >() );
          x.m.assign( std::size_t( total( x ) ), 0 ); x.w = Where(); if( x.a.capacity() ) x.w.moved( device, true );
          if( x.a.capacity() ) CHECK( c, x.a.getPreviousSpace() == ( device ? DEVICE : HOST ), "previous-space", "" );
          store( x, device ); c.event( device ? "allocated on the device" : "allocated on the host" );
          break;
        }
        case 0: case 1: c.op( "%d write kernel on %s", xi, device ? "device" : "host" ); store( x, device ); break;
        case 2: case 3: c.op( "%d const kernel on %s", xi, device ? "device" : "host" ); load( x, device, false ); break;
        case 4: c.op( "%d reading kernel on %s through a mutable view", xi, device ? "device" : "host" ); load( x, device, true ); break;
        case 5:
        {
          bool const touch = c.rng.chance( 50 ); c.op( "%d move to the host, touch %d", xi, int( touch ) ); move( x, false, touch ); compare( x, "moved to the host" ); break;
        }
        case 6:
        {
          // explicit move to the device, raw pointer used in a kernel
          bool const touch = c.rng.chance( 50 ); c.op( "%d move to the device, touch %d", xi, int( touch ) );
          move( x, true, touch );
          long * const d = x.a.data(); Probe * q = &p; p = Probe(); long const * m = x.m.data(); long const n = total( x );
          CHECK( c, n == 0 || rm().spaceOf( d ) == 2, "pointer-not-in-space", "" );
          long const base = next; next += n + 1; bool const write = touch && c.rng.chance( 60 );
          RAJA::forall< Dev >( RAJA::TypedRangeSegment< long >( 0, n ), [d, q, m, base, write] ( long i ) { q->eq( d[ i ], m[ i ] ); if( write ) d[ i ] = base + i; } );
          if( p.bad ) c.fail( "stale-value", "after a move to the device" );
          c.checks += p.seen;
          if( write ) for( long i = 0; i < n; ++i ) x.m[ std::size_t( i ) ] = base + i;
          break;
        }
        case 7: case 8:
        {
          // host modification behind a move to the host; resizing declares the touch itself
          move( x, false, c.rng.chance( 60 ) );
          compare( x, "moved to the host" );
          Idx< N > d = randomDims< N >( c.rng, 60, 8 );
          c.op( "%d resize and refill", xi ); resizeAll< N >( x.a, d ); x.d = d; x.m.assign( std::size_t( total( x ) ), 0 );
          for( long i = 0; i < total( x ); ++i ) { x.m[ std::size_t( i ) ] = next; x.a.data()[ i ] = next++; }
          if( x.a.capacity() ) { x.w.host = true; x.w.dev = false; }
          break;
        }
        case 9:
        {
          move( x, false, true ); c.op( "%d host writes", xi );
          for( long i = 0; i < total( x ); ++i ) if( c.rng.chance( 50 ) ) { x.m[ std::size_t( i ) ] = next; x.a.data()[ i ] = next++; }
          break;
        }
        case 10:
        {
          // touch declared by hand
          move( x, false, false ); compare( x, "moved to the host" ); if( !total( x ) ) break;
          c.op( "%d host writes and registerTouch", xi );
          for( long i = 0; i < total( x ); ++i ) { x.m[ std::size_t( i ) ] = next; x.a.data()[ i ] = next++; }
          x.a.registerTouch( HOST ); x.w.moved( false, true );
          break;
        }
        case 11:
        {
          if( !x.a.capacity() ) break;
          c.op( "%d zero in the space of the last use", xi );
          bool const there = x.a.getPreviousSpace() == DEVICE; std::size_t const sets = rm().memsets; Copies k;
          x.a.zero(); x.m.assign( x.m.size(), 0 );
          CHECK_EQ( c, k.n(), 0L, "needless-copy", "zero" );
          if( total( x ) ) { CHECK( c, rm().memsets == sets + 1, "memset-missing", "" ); x.w.moved( there, true ); c.event( there ? "zeroed on the device" : "zeroed on the host" ); }
          break;
        }
        case 12:
        {
          long const v = next++; c.op( "%d setValues on %s", xi, device ? "device" : "host" );
          if( device ) x.a.template setValues< Dev >( v ); else x.a.template setValues< Host >( v );
          x.m.assign( x.m.size(), v ); if( x.a.capacity() ) x.w.moved( device, true ); break;
        }
        case 13:
        {
          c.op( "%d from the other %s", xi, device ? "on the device" : "on the host" );
          move( x, false, c.rng.chance( 60 ) ); move( y, false, false ); // assignment and resizing declare the touch themselves
          if( c.rng.chance( 50 ) ) { x.a = y.a; x.m = y.m; x.d = y.d; if( x.a.capacity() ) { x.w = Where(); } }
          else
          {
            std::array< IT, std::size_t( N ) > dims; for( int i = 0; i < N; ++i ) dims[ std::size_t( i ) ] = y.a.size( i );
            x.a.resize( N, dims.data() ); if( x.a.capacity() ) x.w = Where();
            if( device ) x.a.template setValues< Dev >( y.a.toViewConst() ); else x.a.template setValues< Host >( y.a.toViewConst() );
            x.m = y.m; x.d = y.d;
            if( x.a.capacity() ) x.w.moved( device, true );
            if( y.a.capacity() ) y.w.moved( device, false );
          }
          break;
        }
        case 14:
        {
          // memcpy between wherever both are
          move( x, false, true );
          if( !x.a.capacity() || !y.a.capacity() ) break;
          std::array< IT, std::size_t( N ) > dims; for( int i = 0; i < N; ++i ) dims[ std::size_t( i ) ] = y.a.size( i );
          x.a.resize( N, dims.data() ); x.d = y.d; x.w = Where(); x.m.resize( y.m.size() );
          if( !x.a.capacity() ) break;
          for( long i = 0; i < total( x ); ++i ) { x.m[ std::size_t( i ) ] = next; x.a.data()[ i ] = next++; }
          for( int k2 = int( c.rng.below( 4 ) ); k2 > 0; --k2 ) load( x, c.rng.chance( 50 ), c.rng.chance( 30 ) );
          c.op( "memcpy to %d", xi );
          bool const there = x.a.getPreviousSpace() == DEVICE, from = y.a.getPreviousSpace() == DEVICE;
          std::array< IT, 0 > const none{};
          Copies k;
          if( c.rng.chance( 50 ) ) LvArray::memcpy( x.a.toView(), none, y.a.toViewConst(), none );
          else { camp::resources::Resource r = c.rng.chance( 50 ) ? camp::resources::Resource( camp::resources::Host() ) : camp::resources::Resource( camp::resources::Cuda() ); camp::resources::Event e = LvArray::memcpy( r, x.a.toView(), none, y.a.toViewConst(), none ); e.wait(); }
          CHECK_EQ( c, k.n(), total( x ) ? 1L : 0L, "memcpy-copies", "" ); if( !total( x ) ) c.event( "memcpy of nothing" );
          x.m = y.m; x.w.moved( there, true ); y.w.moved( from, false );
          c.event( there == from ? "memcpy within a space" : "memcpy between spaces" );
          break;
        }
        default:
        {
          c.op( "ownership %d", xi );
          if( c.rng.chance( 50 ) ) { A t( std::move( x.a ) ); x.a = std::move( t ); }
          else { std::swap( x.a, y.a ); std::swap( x.m, y.m ); std::swap( x.d, y.d ); std::swap( x.w, y.w ); }
        }
      }
    }
    for( auto & x : s ) { load( x, c.rng.chance( 50 ), false ); move( x, false, false ); compare( x, "at the end" ); }
  }
  acc.done();
  c.nontrivial = c.ops > 10;
}

// One-dimensional arrays: the growing operations.
template< typename IT > void vectorCase( Ctx & c )
{
  Accounts acc( c );
  {
    using A = LvArray::Array< long, 1, RAJA::PERM_I, IT, LvArray::ChaiBuffer >;
    using V = LvArray::ArrayView< long, 1, 0, IT, LvArray::ChaiBuffer >;
    using VC = LvArray::ArrayView< long const, 1, 0, IT, LvArray::ChaiBuffer >;
    A a; std::vector< long > m; long next = 1;
    for( int st = 0; st < ( c.thorough ? 60 : 30 ); ++st )
    {
      long const n = long( m.size() );
      if( c.rng.chance( 50 ) )
      {
        bool const write = c.rng.chance( 50 ); Probe p; Probe * q = &p; long const * mm = m.data(); long const base = next; next += n + 1;
        bool const device = c.rng.chance( 70 );
        c.op( "%s kernel on the %s", write ? "writing" : "const", device ? "device" : "host" );
        if( write ) launch( device, a.toView(), n, [q, mm, base] ( V const & v, long i ) { q->eq( v[ IT( i ) ], mm[ i ] ); v[ IT( i ) ] = base + i; } );
        else launch( device, a.toViewConst(), n, [q, mm] ( VC const & v, long i ) { q->eq( v[ IT( i ) ], mm[ i ] ); } );
        c.checks += p.seen; if( p.bad ) c.fail( "stale-value", "in a kernel" );
        if( write ) for( long i = 0; i < n; ++i ) m[ std::size_t( i ) ] = base + i;
        c.event( device ? "values read on the device" : "values read on the host", p.seen );
        continue;
      }
      bool const touch = c.rng.chance( 60 );
      a.move( HOST, touch );
      // resizing declares the touch itself
      if( !touch ) { long const k2 = c.rng.range( 1, 20 ); a.resize( IT( k2 ) ); m.resize( std::size_t( k2 ), 0 ); c.op( "resize(%ld) behind a move without touch", k2 ); }
      for( int k = int( c.rng.range( 1, 4 ) ); k > 0; --k )
      {
        long const sz = long( m.size() );
        switch( c.rng.below( 10 ) )
        {
          case 0: case 1: case 2: a.emplace_back( next ); m.push_back( next++ ); c.op( "emplace_back" ); break;
          case 3: { long const pos = c.rng.range( 0, sz ); a.emplace( IT( pos ), next ); m.insert( m.begin() + pos, next++ ); c.op( "emplace" ); break; }
          case 4: { long const pos = c.rng.range( 0, sz ); std::vector< long > v( std::size_t( c.rng.range( 0, 5 ) ) ); for( auto & e : v ) e = next++; a.insert( IT( pos ), v.begin(), v.end() ); m.insert( m.begin() + pos, v.begin(), v.end() ); c.op( "insert" ); break; }
          case 5: if( sz ) { a.pop_back(); m.pop_back(); c.op( "pop_back" ); } break;
          case 6: if( sz ) { long const pos = c.rng.range( 0, sz - 1 ); a.erase( IT( pos ) ); m.erase( m.begin() + pos ); c.op( "erase" ); } break;
          case 7: { long const k2 = c.rng.range( 0, 20 ), v = next++; a.resizeDefault( IT( k2 ), v ); m.resize( std::size_t( k2 ), v ); c.op( "resizeDefault(%ld)", k2 ); break; }
          case 8: { long const k2 = c.rng.range( 0, 40 ); a.reserve( IT( k2 ) ); c.op( "reserve(%ld)", k2 ); break; }
          default: if( c.rng.chance( 20 ) ) { a.clear(); m.clear(); c.op( "clear" ); } else { long const k2 = c.rng.range( 0, 20 ); a.resize( IT( k2 ) ); m.resize( std::size_t( k2 ), 0 ); c.op( "resize(%ld)", k2 ); }
        }
      }
      CHECK_EQ( c, long( a.size() ), long( m.size() ), "size", "" );
      for( std::size_t i = 0; i < m.size(); ++i ) CHECK_EQ( c, a[ IT( i ) ], m[ i ], "stale-value", "on the host" );
      c.event( "values read on the host", long( m.size() ) );
    }
  }
  acc.done();
  c.nontrivial = c.ops > 10;
}

// ---------------------------------------------------------------------------------------------- nested containers
template< typename I > struct Nest;
// The inner container, its kernel bodies and its host modification.
template<> struct Nest< LvArray::Array< long, 2, RAJA::PERM_JI, int, LvArray::ChaiBuffer > >
{
  using I = LvArray::Array< long, 2, RAJA::PERM_JI, int, LvArray::ChaiBuffer >;
  using M = std::vector< long >;
  static constexpr bool constOuter = true, writable = true;
  static void modify( Rng & r, I & a, M & m, long & next )
  {
    if( r.chance( 60 ) ) { int const d0 = int( r.range( 0, 4 ) ), d1 = int( r.range( 0, 4 ) ); a.resize( d0, d1 ); m.assign( std::size_t( d0 * d1 ), 0 ); }
    for( std::size_t i = 0; i < m.size(); ++i ) { m[ i ] = next; a.data()[ i ] = next++; }
  }
  template< typename V > static void read( V const & v, M const & m, Probe & p ) { p.eq( long( v.size() ), long( m.size() ) ); for( std::size_t i = 0; i < m.size() && long( v.size() ) == long( m.size() ); ++i ) p.eq( v.data()[ i ], m[ i ] ); }
  template< typename V > static void write( V const & v, long base ) { for( long i = 0; i < long( v.size() ); ++i ) v.data()[ i ] = base + i; }
  static void wrote( M & m, long base ) { for( std::size_t i = 0; i < m.size(); ++i ) m[ i ] = base + long( i ); }
};
template<> struct Nest< LvArray::SortedArray< long, int, LvArray::ChaiBuffer > >
{
  using I = LvArray::SortedArray< long, int, LvArray::ChaiBuffer >;
  using M = std::set< long >;
  static constexpr bool constOuter = false, writable = false;
  static void modify( Rng & r, I & a, M & m, long & )
  { for( int k = int( r.range( 1, 5 ) ); k > 0; --k ) { long const v = r.range( 0, 25 ); if( r.chance( 65 ) ) { a.insert( v ); m.insert( v ); } else { a.remove( v ); m.erase( v ); } } }
  template< typename V > static void read( V const & v, M const & m, Probe & p ) { p.eq( long( v.size() ), long( m.size() ) ); if( long( v.size() ) != long( m.size() ) ) return; long i = 0; for( long x : m ) { p.eq( v[ int( i++ ) ], x ); p.eq( v.contains( x ), true ); } }
  template< typename V > static void write( V const &, long ) {}
  static void wrote( M &, long ) {}
};
template<> struct Nest< LvArray::ArrayOfArrays< long, int, LvArray::ChaiBuffer > >
{
  using I = LvArray::ArrayOfArrays< long, int, LvArray::ChaiBuffer >;
  using M = std::vector< std::vector< long > >;
  static constexpr bool constOuter = false, writable = true;
  static void modify( Rng & r, I & a, M & m, long & next )
  {
    for( int k = int( r.range( 1, 4 ) ); k > 0; --k )
    {
      if( m.empty() || r.chance( 25 ) ) { long const n = r.range( 0, 4 ); std::vector< long > v; for( long i = 0; i < n; ++i ) v.push_back( next++ ); a.appendArray( v.begin(), v.end() ); m.push_back( v ); }
      else if( r.chance( 15 ) ) { long const i = r.range( 0, long( m.size() ) - 1 ); a.eraseArray( int( i ) ); m.erase( m.begin() + i ); }
      else { long const i = r.range( 0, long( m.size() ) - 1 ); a.emplaceBack( int( i ), next ); m[ std::size_t( i ) ].push_back( next++ ); }
    }
  }
  template< typename V > static void read( V const & v, M const & m, Probe & p )
  {
    p.eq( long( v.size() ), long( m.size() ) ); if( long( v.size() ) != long( m.size() ) ) return;
    for( std::size_t i = 0; i < m.size(); ++i ) { p.eq( long( v.sizeOfArray( int( i ) ) ), long( m[ i ].size() ) ); if( long( v.sizeOfArray( int( i ) ) ) == long( m[ i ].size() ) ) for( std::size_t j = 0; j < m[ i ].size(); ++j ) p.eq( v( int( i ), int( j ) ), m[ i ][ j ] ); }
  }
  template< typename V > static void write( V const & v, long base ) { for( int i = 0; i < v.size(); ++i ) for( int j = 0; j < v.sizeOfArray( i ); ++j ) v( i, j ) = base + 10 * i + j; }
  static void wrote( M & m, long base ) { for( std::size_t i = 0; i < m.size(); ++i ) for( std::size_t j = 0; j < m[ i ].size(); ++j ) m[ i ][ j ] = base + 10 * long( i ) + long( j ); }
};

template< typename I, bool WRITE > struct NestWrite { template< typename A > static void run( bool, A const &, long, long ) {} };
template< typename I > struct NestWrite< I, true >
{
  template< typename A > static void run( bool device, A const & a, long n, long base )
  { launch( device, a.toNestedView(), n, [base] ( std::decay_t< decltype( a.toNestedView() ) > const & v, long i ) { Nest< I >::write( v[ int( i ) ], base + 1000 * i ); } ); }
};
template< typename I > void nestedCase( Ctx & c )
{
  Accounts acc( c );
  {
    using N = Nest< I >; using M = typename N::M;
    using A = LvArray::Array< I, 1, RAJA::PERM_I, int, LvArray::ChaiBuffer >;
    A a; std::vector< M > m; long next = 1; Where w; bool known = false;
    auto onHost = [&]( char const * when )
    {
      Probe p; for( std::size_t i = 0; i < m.size(); ++i ) N::read( a[ int( i ) ], m[ i ], p );
      c.checks += p.seen; if( p.bad ) c.fail( "stale-value", std::string( when ) + ": values on the host are not those last written" );
      c.event( "values read on the host", p.seen );
    };
    for( int st = 0; st < ( c.thorough ? 50 : 26 ); ++st )
    {
      bool const device = c.rng.chance( 70 ); long const n = long( m.size() );
      switch( c.rng.below( 8 ) )
      {
        case 0: case 1: case 2:
        {
          c.op( "const kernel on the %s", device ? "device" : "host" );
          Probe p; Probe * q = &p; M const * mm = m.data(); Copies k; bool const was = known && w.at( device );
          using NV = std::decay_t< decltype( a.toNestedViewConst() ) >;
          launch( device, a.toNestedViewConst(), n, [q, mm] ( NV const & v, long i ) { N::read( v[ int( i ) ], mm[ i ], *q ); } );
          c.checks += p.seen; if( p.bad ) c.fail( "stale-value", std::string( "in a kernel on the " ) + ( device ? "device" : "host" ) );
          c.event( device ? "values read on the device" : "values read on the host", p.seen );
          if( was && N::constOuter ) CHECK_EQ( c, k.n(), 0L, "needless-copy", "" );
          if( n ) w.moved( device, false );
          break;
        }
        case 3: case 4:
        {
          if( !N::writable ) break;
          c.op( "writing kernel on the %s", device ? "device" : "host" );
          long const base = next; next += 1000 * ( n + 1 );
          NestWrite< I, N::writable >::run( device, a, n, base );
          for( long i = 0; i < n; ++i ) N::wrote( m[ std::size_t( i ) ], base + 1000 * i );
          known = false;
          break;
        }
        case 5:
        {
          bool const touch = c.rng.chance( 50 ); c.op( "move to the host, touch %d", int( touch ) );
          Copies k; bool const was = known && w.host;
          mv( c.rng, a, HOST, touch ); onHost( "moved" );
          if( was && N::constOuter ) CHECK_EQ( c, k.n(), 0L, "needless-copy", "" );
          // Nothing was modified: the copy on the device is still as good if it was not touched.
          if( !touch ) { w.host = true; if( !known ) { w.dev = false; known = true; } } else { w.host = true; w.dev = false; known = true; }
          if( touch && !n ) known = false;
          break;
        }
        case 6: { c.op( "move to the device and back" ); a.move( DEVICE, c.rng.chance( 50 ) ); a.move( HOST, true ); onHost( "moved back" ); known = false; break; }
        default:
        {
          mv( c.rng, a, HOST, true ); onHost( "moved to the host" );
          for( int k = int( c.rng.range( 1, 3 ) ); k > 0; --k )
          {
            long const sz = long( m.size() );
            switch( c.rng.below( 6 ) )
            {
              case 0: a.emplace_back( I() ); m.push_back( M() ); c.op( "emplace_back" ); break;
              case 1: { long const z = c.rng.range( 0, 6 ); a.resize( int( z ) ); m.resize( std::size_t( z ) ); c.op( "resize(%ld)", z ); break; }
              case 2: if( sz ) { long const i = c.rng.range( 0, sz - 1 ); a.erase( int( i ) ); m.erase( m.begin() + i ); c.op( "erase" ); } break;
              default: if( sz ) { long const i = c.rng.range( 0, sz - 1 ); N::modify( c.rng, a[ int( i ) ], m[ std::size_t( i ) ], next ); c.op( "modify %ld", i ); }
            }
          }
          onHost( "modified" ); known = false;
        }
      }
    }
    if( c.rng.chance( 50 ) ) { a.move( HOST, false ); onHost( "at the end" ); }
  }
  acc.done();
  c.nontrivial = c.ops > 10;
}

// A two-dimensional array of arrays.
inline void nested2Case( Ctx & c )
{
  Accounts acc( c );
  {
    using I = LvArray::Array< long, 1, RAJA::PERM_I, int, LvArray::ChaiBuffer >;
    using A = LvArray::Array< I, 2, RAJA::PERM_JI, int, LvArray::ChaiBuffer >;
    A a; std::vector< std::vector< long > > m; long next = 1;
    auto onHost = [&]( char const * when )
    {
      for( std::size_t i = 0; i < m.size(); ++i )
      {
        I const & e = a.data()[ i ]; CHECK_EQ( c, long( e.size() ), long( m[ i ].size() ), "size", when );
        for( std::size_t j = 0; j < m[ i ].size(); ++j ) CHECK_EQ( c, e[ int( j ) ], m[ i ][ j ], "stale-value", when );
        c.event( "values read on the host", long( m[ i ].size() ) );
      }
    };
    auto fill = [&]( long i ) { long const k = c.rng.range( 0, 5 ); m[ std::size_t( i ) ].resize( std::size_t( k ) ); a.data()[ i ].resize( int( k ) ); for( long j = 0; j < k; ++j ) a.data()[ i ][ int( j ) ] = m[ std::size_t( i ) ][ std::size_t( j ) ] = next++; };
    for( int st = 0; st < ( c.thorough ? 40 : 20 ); ++st )
    {
      bool const device = c.rng.chance( 70 ); long const n = long( m.size() ); auto const * const mm = m.data(); Probe p; Probe * const q = &p;
      switch( c.rng.below( 6 ) )
      {
        case 0: case 1:
        {
          c.op( "const kernel on the %s", device ? "device" : "host" );
          launch( device, a.toNestedViewConst(), n, [mm, q] ( auto const & v, long i ) { auto const & e = v.data()[ i ]; q->eq( long( e.size() ), long( mm[ i ].size() ) ); for( std::size_t j = 0; j < mm[ i ].size() && long( e.size() ) == long( mm[ i ].size() ); ++j ) q->eq( e[ int( j ) ], mm[ i ][ j ] ); } );
          c.checks += p.seen; if( p.bad ) c.fail( "stale-value", std::string( "in a kernel on the " ) + ( device ? "device" : "host" ) );
          c.event( device ? "values read on the device" : "values read on the host", p.seen ); break;
        }
        case 2: case 3:
        {
          c.op( "writing kernel on the %s", device ? "device" : "host" ); long const base = next; next += 10 * ( n + 1 );
          launch( device, a.toNestedView(), n, [base] ( auto const & v, long i ) { auto const & e = v.data()[ i ]; for( int j = 0; j < e.size(); ++j ) e[ j ] = base + 10 * i + j; } );
          for( long i = 0; i < n; ++i ) for( std::size_t j = 0; j < m[ std::size_t( i ) ].size(); ++j ) m[ std::size_t( i ) ][ j ] = base + 10 * i + long( j );
          break;
        }
        case 4: c.op( "move to the host" ); a.move( HOST, c.rng.chance( 50 ) ); onHost( "moved" ); break;
        default:
        {
          mv( c.rng, a, HOST, true ); onHost( "moved to the host" );
          if( n == 0 || c.rng.chance( 30 ) )
          {
            int const d0 = int( c.rng.range( 0, 4 ) ), d1 = int( c.rng.range( 0, 4 ) ); c.op( "resize(%d,%d) and fill", d0, d1 );
            a.resize( d0, d1 ); m.assign( std::size_t( d0 * d1 ), {} ); for( long i = 0; i < d0 * d1; ++i ) fill( i );
          }
          else { c.op( "refill some" ); for( long i = 0; i < n; ++i ) if( c.rng.chance( 40 ) ) fill( i ); }
        }
      }
    }
    if( c.rng.chance( 50 ) ) { a.move( HOST, false ); onHost( "at the end" ); }
  }
  acc.done();
  c.nontrivial = c.ops > 10;
}

static Register const r1( "spaces/array/I", arrayCase< 1, RAJA::PERM_I, long > );
static Register const r2( "spaces/array/JI", arrayCase< 2, RAJA::PERM_JI, int > );
static Register const r3( "spaces/array/IKJ", arrayCase< 3, RAJA::PERM_IKJ, long > );
static Register const r4( "spaces/vector/long", vectorCase< long > );
static Register const r5( "spaces/vector/int", vectorCase< int > );
static Register const r6( "spaces/nested/array", nestedCase< LvArray::Array< long, 2, RAJA::PERM_JI, int, LvArray::ChaiBuffer > >, 2 );
static Register const r7( "spaces/nested/set", nestedCase< LvArray::SortedArray< long, int, LvArray::ChaiBuffer > >, 2 );
static Register const r9( "spaces/nested/plane", nested2Case );
static Register const r8( "spaces/nested/ragged", nestedCase< LvArray::ArrayOfArrays< long, int, LvArray::ChaiBuffer > >, 2 );
#endif

#if PART == 2
// ---------------------------------------------------------------------------------------------- sorted arrays
template< typename IT > void sortedCase( Ctx & c )
{
  Accounts acc( c );
  {
    using A = LvArray::SortedArray< long, IT, LvArray::ChaiBuffer >;
    A a; std::set< long > m; Where w; bool any = false; Rng & r = c.rng;
    auto compare = [&]( char const * when )
    {
      CHECK_EQ( c, long( a.size() ), long( m.size() ), "size", when );
      IT i = 0; for( long v : m ) { CHECK_EQ( c, a[ i ], v, "stale-value", when ); ++i; }
      c.event( "values read on the host", long( m.size() ) );
    };
    for( int st = 0; st < ( c.thorough ? 60 : 30 ); ++st )
    {
      bool const device = r.chance( 65 );
      switch( r.below( 8 ) )
      {
        case 0: case 1: case 2:
        {
          c.op( "kernel on the %s", device ? "device" : "host" );
          std::vector< long > const e( m.begin(), m.end() ); long const * q = e.data(); long const n = long( e.size() );
          Probe p; Probe * pp = &p; Copies k; bool const was = w.at( device );
          auto body = [q, n, pp] ( auto const & v, long i )
          {
            pp->eq( long( v.size() ), n ); if( long( v.size() ) != n ) return;
            pp->eq( v[ IT( i ) ], q[ i ] ); pp->eq( v.contains( q[ i ] ), true ); pp->eq( v.contains( q[ i ] + 1 ), i + 1 < n && q[ i + 1 ] == q[ i ] + 1 );
          };
          if( r.chance( 50 ) ) launch( device, a.toView(), n, body ); else launch( device, a.toViewConst(), n, body );
          c.checks += p.seen; if( p.bad ) c.fail( "stale-value", std::string( "in a kernel on the " ) + ( device ? "device" : "host" ) );
          CHECK_EQ( c, p.seen, 4 * n, "kernel-iterations", "" );
          c.event( device ? "values read on the device" : "values read on the host", n );
          if( any ) { NOCOPY( c, was, k, "capture" ); w.moved( device, false ); CHECK( c, k.n() <= 1, "needless-copy", "" ); }
          break;
        }
        case 3: case 4:
        {
          bool const touch = r.chance( 50 ); c.op( "move to the %s, touch %d", device ? "device" : "host", int( touch ) );
          Copies k; bool const was = w.at( device );
          if( r.chance( 50 ) ) mv( r, a, device ? DEVICE : HOST, touch ); else { mv( r, a.toView(), device ? DEVICE : HOST, touch ); a.move( device ? DEVICE : HOST, false ); }
          // Nothing can be modified on the device, so nothing is touched there.
          if( any ) { NOCOPY( c, was, k, "move" ); w.moved( device, touch && !device ); }
          if( !device ) compare( "moved to the host" );
          break;
        }
        case 5: if( r.chance( 40 ) ) { c.op( "ownership" ); A t( std::move( a ) ); a = std::move( t ); } break;
        default:
        {
          mv( r, a, HOST, true ); compare( "moved to the host" );
          for( int k = int( r.range( 1, 5 ) ); k > 0; --k )
          {
            long const v = r.range( 0, 40 );
            switch( r.below( 8 ) )
            {
              case 0: case 1: case 2: c.op( "insert(%ld)", v ); CHECK_EQ( c, a.insert( v ), m.insert( v ).second, "result", "" ); break;
              case 3: c.op( "remove(%ld)", v ); CHECK_EQ( c, a.remove( v ), m.erase( v ) > 0, "result", "" ); break;
              case 4: case 5:
              {
                std::set< long > s; for( int q = int( r.range( 0, 6 ) ); q > 0; --q ) s.insert( r.range( 0, 40 ) );
                if( r.chance( 60 ) ) { c.op( "insert %zu", s.size() ); a.insert( s.begin(), s.end() ); m.insert( s.begin(), s.end() ); }
                else { c.op( "remove %zu", s.size() ); a.remove( s.begin(), s.end() ); for( long x : s ) m.erase( x ); }
                break;
              }
              case 6: { long const n = r.range( 0, 60 ); c.op( "reserve(%ld)", n ); a.reserve( IT( n ) ); break; }
              default: if( r.chance( 25 ) ) { c.op( "clear" ); a.clear(); m.clear(); } else { c.op( "copy" ); A t( a ); a = t; }
            }
          }
          compare( "modified" );
          w = Where(); w.dev = false; any = !m.empty() || any;
        }
      }
    }
    if( r.chance( 50 ) ) { a.move( HOST, false ); compare( "at the end" ); }
  }
  acc.done();
  c.nontrivial = c.ops > 10;
}

// ---------------------------------------------------------------------------------------------- containers of rows
// An element that knows whether it is alive.
struct Alive
{
  static long & live() { static long n = 0; return n; }
  static constexpr long MAGIC = 0x5ca1ab1e;
  long v, magic;
  Alive( long x = 0 ): v( x ), magic( MAGIC ) { ++live(); }
  Alive( Alive const & o ): v( o.v ), magic( o.magic == MAGIC ? MAGIC : 0 ) { ++live(); }
  Alive & operator=( Alive const & o ) { v = magic == MAGIC && o.magic == MAGIC ? o.v : -999; return *this; }
  ~Alive() { if( magic != MAGIC ) ++corpses(); magic = 0xdead; --live(); }
  static long & corpses() { static long n = 0; return n; }
};
inline long num( long x ) { return x; }
inline long num( Alive const & x ) { return x.magic == Alive::MAGIC ? x.v : -777; }

struct Op { int what; long a, b; };
// What the copies of each buffer of a container of rows can see.
struct RowsWhere
{
  Where v, s, o, e; bool entries = false;
  long stale( bool d ) const { return !v.at( d ) + !s.at( d ) + !o.at( d ) + ( entries && !e.at( d ) ); }
  void moved( bool d, bool tv, bool ts, bool to, bool te ) { v.moved( d, tv ); s.moved( d, ts ); o.moved( d, to ); e.moved( d, te ); }
  void hostOnly() { moved( false, true, true, true, true ); }
};

template< typename T, typename IT > struct Ragged
{
  using C = LvArray::ArrayOfArrays< T, IT, LvArray::ChaiBuffer >; using M = std::vector< long >;
  static constexpr bool entries = false, constSizes = true, alive = std::is_same< T, Alive >::value;
  static long values( M const & m ) { return long( m.size() ); }
  static long cap( C & a, long i ) { return long( a.capacityOfArray( IT( i ) ) ); }
  template< typename V > static void read( V const & v, long i, M const & m, Probe & p )
  {
    p.eq( long( v.sizeOfArray( IT( i ) ) ), long( m.size() ) ); if( long( v.sizeOfArray( IT( i ) ) ) != long( m.size() ) ) return;
    for( std::size_t j = 0; j < m.size(); ++j ) { p.eq( num( v( IT( i ), IT( j ) ) ), m[ j ] ); p.eq( num( v[ IT( i ) ][ IT( j ) ] ), m[ j ] ); }
  }
  static Op plan( Rng & r, M & m, long cap, long & next, bool full )
  {
    long const n = long( m.size() ); Op o{ 0, 0, next }; next += 8;
    for( int t = 0; t < 4; ++t )
    {
      int const k = full ? int( r.below( 6 ) ) : 0;
      if( k == 0 && n ) { o.what = 1; o.a = r.range( 0, n - 1 ); m[ std::size_t( o.a ) ] = o.b; return o; }
      if( k == 1 && n < cap ) { o.what = 2; m.push_back( o.b ); return o; }
      if( k == 2 && n < cap ) { o.what = 3; m.push_back( o.b ); return o; }
      if( k == 3 && n < cap ) { o.what = 4; o.a = r.range( 0, n ); m.insert( m.begin() + o.a, o.b ); return o; }
      if( k == 4 && n ) { o.what = 5; o.a = r.range( 0, n - 1 ); o.b = r.range( 1, n - o.a ); m.erase( m.begin() + o.a, m.begin() + o.a + o.b ); return o; }
      if( k == 5 && n + 3 <= cap ) { o.what = 6; o.a = r.range( 0, n ); for( int q = 0; q < 3; ++q ) m.insert( m.begin() + o.a + q, o.b + q ); return o; }
    }
    return o;
  }
  template< typename V > static void apply( V const & v, long i, Op const & o )
  {
    switch( o.what )
    {
      case 1: v( IT( i ), IT( o.a ) ) = T( o.b ); break;
      case 2: v.emplaceBack( IT( i ), o.b ); break;
      case 3: v.template emplaceBackAtomic< RAJA::seq_atomic >( IT( i ), o.b ); break;
      case 4: v.emplace( IT( i ), IT( o.a ), o.b ); break;
      case 5: v.eraseFromArray( IT( i ), IT( o.a ), IT( o.b ) ); break;
      case 6: { T const x[ 3 ] = { T( o.b ), T( o.b + 1 ), T( o.b + 2 ) }; v.insertIntoArray( IT( i ), IT( o.a ), x, x + 3 ); break; }
    }
  }
  template< typename V > static void assign( V const & v, long i, Op const & o ) { if( o.what == 1 ) v( IT( i ), IT( o.a ) ) = T( o.b ); }
  template< typename A > static auto constSizesView( A & a ) { return a.toViewConstSizes(); }
  static bool bulk( Ctx &, C &, std::vector< M > &, bool, long & ) { return false; }
  static bool zero( Ctx &, C &, std::vector< M > &, RowsWhere &, bool ) { return false; }
  static void modify( Ctx & c, C & a, std::vector< M > & m, long & next )
  {
    Rng & r = c.rng; long const n = long( m.size() ), i = n ? r.range( 0, n - 1 ) : -1;
    switch( r.below( 16 ) )
    {
      case 0: { long const k = r.range( 0, 7 ), q = r.range( 0, 5 ); c.op( "resize(%ld,%ld)", k, q ); a.resize( IT( k ), IT( q ) ); m.resize( std::size_t( k ) ); return; }
      case 1: case 2: { if( n > 9 ) return; std::vector< long > v( std::size_t( r.range( 0, 5 ) ) ); for( auto & x : v ) x = next++; c.op( "appendArray" ); a.appendArray( v.begin(), v.end() ); m.push_back( v ); return; }
      case 3: { if( n > 9 ) return; std::vector< long > v( std::size_t( r.range( 0, 5 ) ) ); for( auto & x : v ) x = next++; long const p = r.range( 0, n ); c.op( "insertArray(%ld)", p ); a.insertArray( IT( p ), v.begin(), v.end() ); m.insert( m.begin() + p, v ); return; }
      case 4: if( i < 0 ) return; c.op( "eraseArray(%ld)", i ); a.eraseArray( IT( i ) ); m.erase( m.begin() + i ); return;
      case 5: c.op( "compress" ); a.compress(); return;
      case 6: { long const k = r.range( 0, 14 ); c.op( "reserve(%ld)", k ); a.reserve( IT( k ) ); return; }
      case 7: { long const k = r.range( 0, 60 ); c.op( "reserveValues(%ld)", k ); a.reserveValues( IT( k ) ); return; }
      case 8: if( i < 0 ) return; { long const k = r.range( 0, 10 ); c.op( "setCapacityOfArray(%ld,%ld)", i, k ); a.setCapacityOfArray( IT( i ), IT( k ) ); if( long( m[ std::size_t( i ) ].size() ) > k ) m[ std::size_t( i ) ].resize( std::size_t( k ) ); return; }
      case 9: if( i < 0 ) return; { long const k = r.range( 0, 7 ), v = next++; c.op( "resizeArray(%ld,%ld)", i, k ); a.resizeArray( IT( i ), IT( k ), v ); m[ std::size_t( i ) ].resize( std::size_t( k ), v ); return; }
      case 10: if( i < 0 ) return; c.op( "clearArray(%ld)", i ); a.clearArray( IT( i ) ); m[ std::size_t( i ) ].clear(); return;
      case 11:
      {
        std::vector< IT > caps( std::size_t( r.range( 0, 6 ) ) ); for( auto & q : caps ) q = IT( r.range( 0, 6 ) );
        c.op( "resizeFromCapacities(%zu)", caps.size() ); a.template resizeFromCapacities< Host >( IT( caps.size() ), caps.data() ); m.assign( caps.size(), M() ); return;
      }
      case 12: { c.op( "copy" ); C t( a ); if( r.chance( 50 ) ) a = t; else a = std::move( t ); return; }
      default: if( i < 0 ) return; { long const p = r.range( 0, values( m[ std::size_t( i ) ] ) ); c.op( "emplace(%ld,%ld)", i, p ); a.emplace( IT( i ), IT( p ), next ); m[ std::size_t( i ) ].insert( m[ std::size_t( i ) ].begin() + p, next++ ); return; }
    }
  }
};

template< typename IT > struct Sets
{
  using C = LvArray::ArrayOfSets< long, IT, LvArray::ChaiBuffer >; using M = std::set< long >;
  static constexpr bool entries = false, constSizes = false, alive = false;
  static long values( M const & m ) { return long( m.size() ); }
  static long cap( C & a, long i ) { return long( a.capacityOfSet( IT( i ) ) ); }
  template< typename V > static void read( V const & v, long i, M const & m, Probe & p )
  {
    p.eq( long( v.sizeOfSet( IT( i ) ) ), long( m.size() ) ); if( long( v.sizeOfSet( IT( i ) ) ) != long( m.size() ) ) return;
    long j = 0; for( long x : m ) { p.eq( v( IT( i ), IT( j++ ) ), x ); p.eq( v.contains( IT( i ), x ), true ); }
  }
  static Op plan( Rng & r, M & m, long cap, long &, bool )
  {
    long const x = r.range( 0, 30 );
    switch( r.below( 4 ) )
    {
      case 0: case 1: if( m.count( x ) || long( m.size() ) < cap ) { bool const f = m.insert( x ).second; return Op{ 1, x, f }; } break;
      case 2: { bool const f = m.erase( x ) > 0; return Op{ 2, x, f }; }
      default: if( long( m.size() ) + 3 <= cap ) { long k = 0; for( long q = 0; q < 3; ++q ) k += m.insert( x + q ).second; return Op{ 3, x, k }; } { long k = 0; for( long q = 0; q < 3; ++q ) k += long( m.erase( x + q ) ); return Op{ 4, x, k }; }
    }
    return Op{ 0, 0, 0 };
  }
  template< typename V > static void apply( V const & v, long i, Op const & o, Probe & p )
  {
    long const x[ 3 ] = { o.a, o.a + 1, o.a + 2 };
    switch( o.what )
    {
      case 1: p.eq( v.insertIntoSet( IT( i ), o.a ), o.b ); break;
      case 2: p.eq( v.removeFromSet( IT( i ), o.a ), o.b ); break;
      case 3: p.eq( long( v.insertIntoSet( IT( i ), x, x + 3 ) ), o.b ); break;
      case 4: p.eq( long( v.removeFromSet( IT( i ), x, x + 3 ) ), o.b ); break;
    }
  }
  static void modify( Ctx & c, C & a, std::vector< M > & m, long & )
  {
    Rng & r = c.rng; long const n = long( m.size() ), i = n ? r.range( 0, n - 1 ) : -1, x = r.range( 0, 30 );
    switch( r.below( 14 ) )
    {
      case 0: { long const k = r.range( 0, 7 ), q = r.range( 0, 5 ); c.op( "resize(%ld,%ld)", k, q ); a.resize( IT( k ), IT( q ) ); m.resize( std::size_t( k ) ); return; }
      case 1: case 2: if( n > 9 ) return; { long const q = r.range( 0, 6 ); c.op( "appendSet(%ld)", q ); a.appendSet( IT( q ) ); m.emplace_back(); return; }
      case 3: if( n > 9 ) return; { long const p = r.range( 0, n ), q = r.range( 0, 6 ); c.op( "insertSet(%ld,%ld)", p, q ); a.insertSet( IT( p ), IT( q ) ); m.insert( m.begin() + p, M() ); return; }
      case 4: if( i < 0 ) return; c.op( "eraseSet(%ld)", i ); a.eraseSet( IT( i ) ); m.erase( m.begin() + i ); return;
      case 5: c.op( "compress" ); a.compress(); return;
      case 6: { long const k = r.range( 0, 60 ); c.op( "reserveValues(%ld)", k ); a.reserveValues( IT( k ) ); return; }
      case 7: if( i < 0 ) return; { long const k = r.range( values( m[ std::size_t( i ) ] ), 12 ); c.op( "reserveCapacityOfSet(%ld,%ld)", i, k ); a.reserveCapacityOfSet( IT( i ), IT( k ) ); return; }
      case 8: if( i < 0 ) return; c.op( "clearSet(%ld)", i ); a.clearSet( IT( i ) ); m[ std::size_t( i ) ].clear(); return;
      case 9:
      {
        c.op( "assimilate" );
        LvArray::ArrayOfArrays< long, IT, LvArray::ChaiBuffer > t; t.assimilate( std::move( a ) );
        for( long j = 0; j < long( m.size() ); ++j ) { long const y = r.range( 0, 30 ); t.emplaceBack( IT( j ), y ); m[ std::size_t( j ) ].insert( y ); }
        if( r.chance( 50 ) ) { t.move( DEVICE, false ); t.move( HOST, true ); }
        a.assimilate( std::move( t ), LvArray::sortedArrayManipulation::UNSORTED_WITH_DUPLICATES ); return;
      }
      case 10: { c.op( "copy" ); C t( a ); if( r.chance( 50 ) ) a = t; else a = std::move( t ); return; }
      default: if( i < 0 ) return; c.op( "insertIntoSet(%ld,%ld)", i, x ); CHECK_EQ( c, a.insertIntoSet( IT( i ), x ), m[ std::size_t( i ) ].insert( x ).second, "result", "" ); return;
    }
  }
};

static constexpr long NCOLS = 40;
template< typename IT > struct Pattern
{
  using C = LvArray::SparsityPattern< int, IT, LvArray::ChaiBuffer >; using M = std::set< long >;
  static constexpr bool entries = false, constSizes = false, alive = false;
  static long values( M const & m ) { return long( m.size() ); }
  static long cap( C & a, long i ) { return long( a.nonZeroCapacity( IT( i ) ) ); }
  template< typename V > static void read( V const & v, long i, M const & m, Probe & p )
  {
    p.eq( long( v.numColumns() ), NCOLS ); p.eq( long( v.numNonZeros( IT( i ) ) ), long( m.size() ) ); if( long( v.numNonZeros( IT( i ) ) ) != long( m.size() ) ) return;
    long j = 0; for( long x : m ) { p.eq( v.getColumns( IT( i ) )[ IT( j++ ) ], x ); p.eq( v.empty( IT( i ), int( x ) ), false ); }
  }
  static Op plan( Rng & r, M & m, long cap, long & next, bool f ) { Op o = Sets< IT >::plan( r, m, cap, next, f ); return o; }
  template< typename V > static void apply( V const & v, long i, Op const & o, Probe & p )
  {
    int const x[ 3 ] = { int( o.a ), int( o.a + 1 ), int( o.a + 2 ) };
    switch( o.what )
    {
      case 1: p.eq( v.insertNonZero( IT( i ), x[ 0 ] ), o.b ); break;
      case 2: p.eq( v.removeNonZero( IT( i ), x[ 0 ] ), o.b ); break;
      case 3: p.eq( long( v.insertNonZeros( IT( i ), x, x + 3 ) ), o.b ); break;
      case 4: p.eq( long( v.removeNonZeros( IT( i ), x, x + 3 ) ), o.b ); break;
    }
  }
  static void modify( Ctx & c, C & a, std::vector< M > & m, long & )
  {
    Rng & r = c.rng; long const n = long( m.size() ), i = n ? r.range( 0, n - 1 ) : -1, x = r.range( 0, 30 );
    switch( r.below( 11 ) )
    {
      case 0: { long const k = r.range( 0, 7 ), q = r.range( 0, 5 ); c.op( "resize(%ld,%ld)", k, q ); a.resize( IT( k ), IT( NCOLS ), IT( q ) ); m.resize( std::size_t( k ) ); return; }
      case 1: case 2: if( n > 9 ) return; { long const q = r.range( 0, 6 ); c.op( "appendRow(%ld)", q ); a.appendRow( IT( q ) ); m.emplace_back(); return; }
      case 3: c.op( "compress" ); a.compress(); return;
      case 4: { long const k = r.range( 0, 60 ); c.op( "reserveNonZeros(%ld)", k ); a.reserveNonZeros( IT( k ) ); return; }
      case 5: if( i < 0 ) return; { long const k = r.range( 0, 12 ); c.op( "reserveNonZeros(%ld,%ld)", i, k ); a.reserveNonZeros( IT( i ), IT( k ) ); return; }
      case 6:
      {
        std::vector< IT > caps( std::size_t( r.range( 0, 6 ) ) ); for( auto & q : caps ) q = IT( r.range( 0, 6 ) );
        c.op( "resizeFromRowCapacities(%zu)", caps.size() ); a.template resizeFromRowCapacities< Host >( IT( caps.size() ), IT( NCOLS ), caps.data() ); m.assign( caps.size(), M() ); return;
      }
      case 7: { c.op( "copy" ); C t( a ); if( r.chance( 50 ) ) a = t; else a = std::move( t ); return; }
      default: if( i < 0 ) return; c.op( "insertNonZero(%ld,%ld)", i, x ); CHECK_EQ( c, a.insertNonZero( IT( i ), int( x ) ), m[ std::size_t( i ) ].insert( x ).second, "result", "" ); return;
    }
  }
};

template< typename T, typename IT > struct Matrix
{
  using C = LvArray::CRSMatrix< T, int, IT, LvArray::ChaiBuffer >; using M = std::map< long, long >;
  static constexpr bool entries = true, constSizes = true, alive = std::is_same< T, Alive >::value;
  static long values( M const & m ) { return long( m.size() ); }
  static long cap( C & a, long i ) { return long( a.nonZeroCapacity( IT( i ) ) ); }
  template< typename V > static void columns( V const & v, long i, M const & m, Probe & p )
  {
    p.eq( long( v.numColumns() ), NCOLS ); p.eq( long( v.numNonZeros( IT( i ) ) ), long( m.size() ) ); if( long( v.numNonZeros( IT( i ) ) ) != long( m.size() ) ) return;
    long j = 0; for( auto const & x : m ) p.eq( v.getColumns( IT( i ) )[ IT( j++ ) ], x.first );
  }
  template< typename V > static void read( V const & v, long i, M const & m, Probe & p )
  {
    columns( v, i, m, p ); if( long( v.numNonZeros( IT( i ) ) ) != long( m.size() ) ) return;
    long j = 0; for( auto const & x : m ) p.eq( num( v.getEntries( IT( i ) )[ IT( j++ ) ] ), x.second );
  }
  static void add( long & e, long v ) { e += v; }
  static Op plan( Rng & r, M & m, long cap, long & next, bool full )
  {
    long const n = long( m.size() ), x = r.range( 0, 30 ); Op o{ 0, 0, next }; next += 8;
    for( int t = 0; t < 4; ++t )
      switch( full ? r.below( 4 ) : 3 )
      {
        case 0: if( m.count( x ) || n < cap ) { m.emplace( x, o.b ); o.what = 1; o.a = x; return o; } break;
        case 1: m.erase( x ); o.what = 2; o.a = x; return o;
        case 2: if( n + 3 <= cap ) { for( int q = 0; q < 3; ++q ) m.emplace( x + q, o.b + q ); o.what = 3; } else { for( int q = 0; q < 3; ++q ) m.erase( x + q ); o.what = 4; } o.a = x; return o;
        default: if( n ) { long const j = r.range( 0, n - 1 ); auto it = m.begin(); std::advance( it, j ); o.a = j; o.what = !std::is_same< T, Alive >::value && r.chance( 50 ) ? 6 : 5; if( o.what == 5 ) it->second = o.b; else it->second += o.b; return o; }
      }
    return o;
  }
  template< typename V > static void addTo( V const & v, long i, Op const & o, std::true_type )
  { int const col = v.getColumns( IT( i ) )[ IT( o.a ) ]; T const e = T( o.b ); v.template addToRow< RAJA::seq_atomic >( IT( i ), &col, &e, 1 ); }
  template< typename V > static void addTo( V const &, long, Op const &, std::false_type ) {}
  template< typename V > static void assign( V const & v, long i, Op const & o )
  {
    if( o.what == 5 ) v.getEntries( IT( i ) )[ IT( o.a ) ] = T( o.b );
    if( o.what == 6 ) addTo( v, i, o, std::is_arithmetic< T >() );
  }
  template< typename V > static void apply( V const & v, long i, Op const & o )
  {
    int const x[ 3 ] = { int( o.a ), int( o.a + 1 ), int( o.a + 2 ) }; T const y[ 3 ] = { T( o.b ), T( o.b + 1 ), T( o.b + 2 ) };
    switch( o.what )
    {
      case 1: v.insertNonZero( IT( i ), x[ 0 ], y[ 0 ] ); break;
      case 2: v.removeNonZero( IT( i ), x[ 0 ] ); break;
      case 3: v.insertNonZeros( IT( i ), x, y, 3 ); break;
      case 4: v.removeNonZeros( IT( i ), x, 3 ); break;
      default: assign( v, i, o );
    }
  }
  template< typename A > static auto constSizesView( A & a ) { return a.toViewConstSizes(); }
  template< typename A > static std::enable_if_t< std::is_arithmetic< typename A::EntryType >::value > zeroIf( A & a ) { a.zero(); }
  template< typename A > static std::enable_if_t< !std::is_arithmetic< typename A::EntryType >::value > zeroIf( A & ) {}
  static bool zero( Ctx & c, C & a, std::vector< M > & m, RowsWhere & w, bool last )
  {
    if( !std::is_arithmetic< T >::value ) return false;
    c.op( "zero in the space of the last use" ); zeroIf( a );
    for( auto & row : m ) for( auto & e : row ) e.second = 0;
    w.moved( last, false, false, false, true ); c.event( last ? "zeroed on the device" : "zeroed on the host" ); return true;
  }
  static bool bulk( Ctx & c, C & a, std::vector< M > & m, bool device, long & next )
  {
    long const x = next++; c.op( "setValues on %s", device ? "device" : "host" );
    if( device ) a.template setValues< Dev >( T( x ) ); else a.template setValues< Host >( T( x ) );
    for( auto & row : m ) for( auto & e : row ) e.second = x;
    return true;
  }
  static void modify( Ctx & c, C & a, std::vector< M > & m, long & next )
  {
    Rng & r = c.rng; long const n = long( m.size() ), i = n ? r.range( 0, n - 1 ) : -1, x = r.range( 0, 30 );
    switch( r.below( 12 ) )
    {
      case 0: { long const k = r.range( 0, 7 ), q = r.range( 0, 5 ); c.op( "resize(%ld,%ld)", k, q ); a.resize( IT( k ), IT( NCOLS ), IT( q ) ); m.resize( std::size_t( k ) ); return; }
      case 1: c.op( "compress" ); a.compress(); return;
      case 2: { long const k = r.range( 0, 60 ); c.op( "reserveNonZeros(%ld)", k ); a.reserveNonZeros( IT( k ) ); return; }
      case 3: if( i < 0 ) return; { long const k = r.range( 0, 12 ); c.op( "reserveNonZeros(%ld,%ld)", i, k ); a.reserveNonZeros( IT( i ), IT( k ) ); return; }
      case 4:
      {
        std::vector< IT > caps( std::size_t( r.range( 0, 6 ) ) ); for( auto & q : caps ) q = IT( r.range( 0, 6 ) );
        c.op( "resizeFromRowCapacities(%zu)", caps.size() ); a.template resizeFromRowCapacities< Host >( IT( caps.size() ), IT( NCOLS ), caps.data() ); m.assign( caps.size(), M() ); return;
      }
      case 5: { c.op( "copy" ); C t( a ); if( r.chance( 50 ) ) a = t; else a = std::move( t ); return; }
      case 6:
      {
        if( r.chance( 60 ) ) return;
        c.op( "assimilate" );
        LvArray::SparsityPattern< int, IT, LvArray::ChaiBuffer > s( IT( 4 ), IT( NCOLS ), IT( 3 ) ); m.assign( 4, M() );
        for( int q = 0; q < 6; ++q ) { long const row = r.range( 0, 3 ), col = r.range( 0, 30 ); s.insertNonZero( IT( row ), int( col ) ); m[ std::size_t( row ) ][ col ] = 0; }
        if( r.chance( 50 ) ) { auto const v = s.toView(); kernel< Dev >( v, 4, [] ( auto const & w, long row ) { if( w.nonZeroCapacity( IT( row ) ) > w.numNonZeros( IT( row ) ) ) w.insertNonZero( IT( row ), 35 ); } ); for( long q = 0; q < 4; ++q ) { if( long( m[ std::size_t( q ) ].size() ) < long( s.nonZeroCapacity( IT( q ) ) ) ) m[ std::size_t( q ) ][ 35 ] = 0; } s.move( HOST, true ); }
        a.template assimilate< Host >( std::move( s ) ); return;
      }
      default: if( i < 0 ) return; c.op( "insertNonZero(%ld,%ld)", i, x ); CHECK_EQ( c, a.insertNonZero( IT( i ), int( x ), T( next ) ), m[ std::size_t( i ) ].emplace( x, next ).second, "result", "" ); next++; return;
    }
  }
};

// The plans of containers whose operations report a result.
template< typename K, typename V > auto applyOp( V const & v, long i, Op const & o, Probe & p, int ) -> decltype( K::apply( v, i, o, p ) ) { K::apply( v, i, o, p ); }
template< typename K, typename V > auto applyOp( V const & v, long i, Op const & o, Probe &, long ) -> decltype( K::apply( v, i, o ) ) { K::apply( v, i, o ); }
template< typename K, bool > struct ConstSizes
{
  template< typename A, typename P > static void run( A & a, bool device, long n, P const * plans, Probe * )
  { launch( device, K::constSizesView( a ), n, [plans] ( auto const & v, long i ) { for( Op const & o : plans[ i ] ) K::assign( v, i, o ); } ); }
  template< typename A, typename M > static bool bulk( Ctx & c, A & a, M & m, bool device, long & next ) { return K::bulk( c, a, m, device, next ); }
  template< typename A, typename M > static bool zero( Ctx & c, A & a, M & m, RowsWhere & w, bool last ) { return K::zero( c, a, m, w, last ); }
};
template< typename K > struct ConstSizes< K, false >
{
  template< typename A, typename P > static void run( A &, bool, long, P const *, Probe * ) {}
  template< typename A, typename M > static bool bulk( Ctx &, A &, M &, bool, long & ) { return false; }
  template< typename A, typename M > static bool zero( Ctx &, A &, M &, RowsWhere &, bool ) { return false; }
};
template< typename K, bool > struct PatternView
{ template< typename A, typename M > static void run( A & a, bool device, long n, M const * m, Probe * p ) { launch( device, a.toSparsityPatternView(), n, [m, p] ( auto const & v, long i ) { K::columns( v, i, m[ i ], *p ); } ); } };
template< typename K > struct PatternView< K, false > { template< typename A, typename M > static void run( A &, bool, long, M const *, Probe * ) {} };

template< typename T, typename IT > void startRows( LvArray::ArrayOfArrays< T, IT, LvArray::ChaiBuffer > & a, long n ) { a.resize( IT( n ), 4 ); }
template< typename IT > void startRows( LvArray::ArrayOfSets< long, IT, LvArray::ChaiBuffer > & a, long n ) { a.resize( IT( n ), 4 ); }
template< typename IT > void startRows( LvArray::SparsityPattern< int, IT, LvArray::ChaiBuffer > & a, long n ) { a.resize( IT( n ), IT( NCOLS ), 4 ); }
template< typename T, typename IT > void startRows( LvArray::CRSMatrix< T, int, IT, LvArray::ChaiBuffer > & a, long n ) { a.resize( IT( n ), IT( NCOLS ), 4 ); }

template< typename K > void start( typename K::C & a, std::vector< typename K::M > & m, long n ) { m.resize( std::size_t( n ) ); startRows( a, n ); }

template< typename K > void rowsCase( Ctx & c )
{
  Accounts acc( c );
  long const live0 = Alive::live(); Alive::corpses() = 0;
  {
    using C = typename K::C; using M = typename K::M;
    Rng & r = c.rng; C a; std::vector< M > m; std::vector< long > caps; long next = 1; RowsWhere w; bool last = false; /* where the entries were used last */ w.entries = K::entries;
    start< K >( a, m, r.range( 0, 6 ) ); w.hostOnly();
    auto capacities = [&]() { caps.clear(); for( long i = 0; i < long( m.size() ); ++i ) caps.push_back( K::cap( a, i ) ); };
    auto compare = [&]( char const * when )
    {
      Probe p; for( long i = 0; i < long( m.size() ); ++i ) K::read( a, i, m[ std::size_t( i ) ], p );
      c.checks += p.seen; c.event( "values read on the host", p.seen );
      if( p.bad ) c.fail( "stale-value", std::string( when ) + ": values on the host are not those last written" );
      long total = 0; for( auto const & row : m ) total += K::values( row );
      if( K::alive ) CHECK_EQ( c, Alive::live() - live0, total, "live-values", when );
      CHECK_EQ( c, Alive::corpses(), 0L, "destroyed-twice", when );
    };
    capacities();
    for( int st = 0; st < ( c.thorough ? 60 : 32 ); ++st )
    {
      long const n = long( m.size() ); bool const device = r.chance( 65 ); char const * const where = device ? "device" : "host";
      Copies k; long const stale = w.stale( device ); long copies = -1; Probe p; Probe * const pp = &p; M const * const mm = m.data();
      std::vector< std::vector< Op > > plans( m.size() ); std::vector< Op > const * const pl = plans.data();
      switch( r.below( 12 ) )
      {
        case 0: case 1: case 2:
        {
          if( K::entries && r.chance( 30 ) )
          {
            c.op( "structure kernel on the %s", where ); long const some = !w.v.at( device ) + !w.s.at( device ) + !w.o.at( device );
            PatternView< K, K::entries >::run( a, device, n, mm, pp ); w.v.moved( device, false ); w.s.moved( device, false ); w.o.moved( device, false );
            CHECK( c, k.n() <= some, "needless-copy", "structure view" ); break;
          }
          c.op( "const kernel on the %s", where ); launch( device, a.toViewConst(), n, [mm, pp] ( auto const & v, long i ) { K::read( v, i, mm[ i ], *pp ); } );
          w.moved( device, false, false, false, false ); copies = stale; break;
        }
        case 3: case 4:
        {
          if( !K::constSizes ) break;
          c.op( "kernel assigning values on the %s", where );
          for( std::size_t i = 0; i < m.size(); ++i ) for( int q = int( r.below( 3 ) ); q > 0; --q ) plans[ i ].push_back( K::plan( r, m[ i ], caps[ i ], next, false ) );
          ConstSizes< K, K::constSizes >::run( a, device, n, pl, pp );
          w.moved( device, !K::entries, false, false, true ); copies = stale; break;
        }
        case 5: case 6: case 7:
        {
          c.op( "modifying kernel on the %s", where );
          for( std::size_t i = 0; i < m.size(); ++i ) for( int q = int( r.below( 4 ) ); q > 0; --q ) plans[ i ].push_back( K::plan( r, m[ i ], caps[ i ], next, true ) );
          launch( device, a.toView(), n, [pl, pp] ( auto const & v, long i ) { for( Op const & o : pl[ i ] ) applyOp< K >( v, i, o, *pp, 0 ); } );
          w.moved( device, true, true, false, true ); copies = stale; if( device ) c.event( "kernels modifying rows on the device" ); break;
        }
        case 8:
        {
          bool const touch = r.chance( 50 ); bool use = false; c.op( "move to the %s, touch %d", where, int( touch ) );
          if( r.chance( 60 ) ) { mv( r, a, device ? DEVICE : HOST, touch ); w.moved( device, touch, touch, touch && !device, touch ); }
          else if( r.chance( 50 ) ) { mv( r, a.toView(), device ? DEVICE : HOST, touch ); a.move( device ? DEVICE : HOST, false ); w.moved( device, touch, touch, false, touch ); if( touch && !device ) { use = true; compare( "moved by a view" ); } }
          else { a.toViewConst().move( device ? DEVICE : HOST, touch ); a.move( device ? DEVICE : HOST, false ); w.moved( device, false, false, false, false ); }
          copies = stale; if( !device ) compare( "moved to the host" );
          if( use ) // the view was moved to be modified there
          {
            for( std::size_t i = 0; i < m.size(); ++i ) for( int q = int( r.below( 4 ) ); q > 0; --q ) plans[ i ].push_back( K::plan( r, m[ i ], caps[ i ], next, true ) );
            auto const & v = a.toView(); for( long i = 0; i < n; ++i ) for( Op const & o : pl[ i ] ) applyOp< K >( v, i, o, p, 0 );
            c.event( "views modified where they were moved" ); compare( "modified through a view" );
          }
          break;
        }
        case 9:
        {
          if( K::entries && r.chance( 50 ) ) { if( ConstSizes< K, K::constSizes >::zero( c, a, m, w, last ) ) CHECK( c, k.n() <= 3, "needless-copy", "zero" ); break; }
          if( !ConstSizes< K, K::constSizes >::bulk( c, a, m, device, next ) ) break;
          w.moved( device, !K::entries, false, false, true ); copies = stale; break;
        }
        case 10:
        {
          c.op( "ownership" ); C t( std::move( a ) ); a = std::move( t );
          CHECK_EQ( c, k.n(), 0L, "needless-copy", "ownership" ); break;
        }
        default:
        {
          mv( r, a, HOST, true ); compare( "moved to the host" );
          for( int q = int( r.range( 1, 5 ) ); q > 0; --q ) K::modify( c, a, m, next );
          compare( "modified" ); capacities(); w.hostOnly(); last = false;
        }
      }
      if( copies >= 0 ) last = device;
      c.checks += p.seen; if( p.bad ) c.fail( "stale-value", std::to_string( p.bad ) + " of " + std::to_string( p.seen ) + " values seen in a kernel on the " + where + " are not those last written" );
      if( p.seen ) c.event( device ? "values read on the device" : "values read on the host", p.seen );
      if( copies >= 0 )
      {
        CHECK( c, k.n() <= copies, "needless-copy", k.n() << " copies of " << copies << " stale buffers" );
        c.event( copies ? "moves of stale data" : "moves to where the data was current" );
      }
    }
    if( r.chance( 50 ) ) { a.move( HOST, false ); compare( "at the end" ); }
  }
  if( K::alive ) CHECK_EQ( c, Alive::live(), live0, "live-values", "after destruction" );
  CHECK_EQ( c, Alive::corpses(), 0L, "destroyed-twice", "" );
  acc.done();
  c.nontrivial = c.ops > 10;
}

static Register const r1( "spaces/sorted/long", sortedCase< long > );
static Register const r2( "spaces/sorted/int", sortedCase< int > );
static Register const r3( "spaces/ragged/long", rowsCase< Ragged< long, long > > );
static Register const r4( "spaces/ragged/int", rowsCase< Ragged< long, int > > );
static Register const r5( "spaces/ragged/alive", rowsCase< Ragged< Alive, long > >, 2 );
static Register const r6( "spaces/sets", rowsCase< Sets< long > >, 2 );
static Register const r7( "spaces/pattern", rowsCase< Pattern< int > >, 2 );
static Register const r8( "spaces/matrix/long", rowsCase< Matrix< long, long > >, 2 );
static Register const r9( "spaces/matrix/alive", rowsCase< Matrix< Alive, int > >, 2 );
#endif

#if PART == 3
// --------------------------------------------------------------------------------------- names of moves
// Every copy between spaces is announced: what is printed is compared with the copies the resource manager makes.
#include <cxxabi.h>
#include <typeinfo>
#include <cmath>
template< typename X > std::string typeName() { int e; char * const p = abi::__cxa_demangle( typeid( X ).name(), nullptr, nullptr, &e ); std::string const s = p; std::free( p ); return s; }
struct Copied { void const * host; std::size_t bytes; bool toDevice; };
struct Listener
{
  std::ostringstream text; std::streambuf * was; std::vector< Copied > copies;
  Listener(): was( std::cout.rdbuf( text.rdbuf() ) ) { rm().onCopy = [this] ( void const * d, void const * s, std::size_t n ) { copies.push_back( Copied{ nullptr, n, false } ); dst.push_back( d ); src.push_back( s ); }; }
  ~Listener() { std::cout.rdbuf( was ); rm().onCopy = nullptr; }
  std::vector< void const * > dst, src;
};
static std::string sized( std::size_t bytes )
{
  char b[ 64 ]; double const x = double( bytes );
  if( bytes >= ( std::size_t( 1 ) << 30 ) ) std::snprintf( b, sizeof b, "%.1f GB", x / 1073741824 ); else if( bytes >= ( 1u << 20 ) ) std::snprintf( b, sizeof b, "%.1f MB", x / 1048576 ); else std::snprintf( b, sizeof b, "%.1f KB", x / 1024 );
  return b;
}
// A buffer, container or inner container: where it lives on the host, what owns it, its name and which member it is.
struct Owner { std::string type, name; int member; bool any; };
using Owners = std::map< void const *, Owner >;
// What follows the name is up to the members, but always the same for one member and different for two.
static std::map< std::string, std::map< int, std::string > > & suffixes() { static std::map< std::string, std::map< int, std::string > > s; return s; }
static void compare( Ctx & c, Listener const & l, Owners const & owners )
{
  std::istringstream is( l.text.str() ); std::string line; std::size_t k = 0;
  while( std::getline( is, line ) )
  {
    CHECK( c, k < l.src.size(), "moved-nothing", "'" << line << "' without a copy" );
    bool const toDevice = owners.count( l.src[ k ] ) != 0; CHECK( c, toDevice || owners.count( l.dst[ k ] ), "harness", "unknown pointers" );
    Owner const & o = owners.at( toDevice ? l.src[ k ] : l.dst[ k ] );
    std::string const size = sized( l.copies[ k ].bytes );
    std::istringstream w( line ); std::string moved, number, unit, to, the, where; w >> moved >> number >> unit >> to >> the >> where;
    c.op( "%s", line.c_str() );
    CHECK( c, moved == "Moved" && to == "to" && the == "the", "moved-text", line );
    CHECK( c, number + " " + unit == size, "moved-size", line << " for " << l.copies[ k ].bytes << " bytes" );
    CHECK( c, where.substr( 0, 4 ) == ( toDevice ? "DEVI" : "HOST" ), "moved-where", line );
    std::size_t const at = line.find( ": " ); CHECK( c, at != std::string::npos, "moved-text", line );
    std::string const rest = line.substr( at + 2 );
    c.event( "moves announced" );
    if( !o.any )
    {
      std::string const start = o.type + " " + o.name; CHECK( c, rest.compare( 0, start.size(), start ) == 0, "moved-name", line << " instead of " << start );
      std::string const suffix = rest.substr( start.size() ); auto & s = suffixes()[ o.type ];
      if( o.member < 0 ) CHECK_EQ( c, suffix, std::string(), "moved-name", "whole" );
      else
      {
        if( !s.count( o.member ) ) { for( auto const & q : s ) CHECK( c, q.second != suffix, "moved-member", line ); s[ o.member ] = suffix; }
        CHECK_EQ( c, suffix, s.at( o.member ), "moved-member", "suffix" );
      }
    }
    ++k;
  }
  CHECK( c, k == l.src.size(), "moved-silently", k << " lines for " << l.src.size() << " copies" );
}
static std::string someName( Rng & r ) { std::string s; for( long n = r.range( 0, 12 ); n > 0; --n ) s += "abcXYZ019_ /<>,"[ r.below( 15 ) ]; return s; }

// Per kind: growing ( on the host ), launching and what it consists of.
template< typename X > struct Kind;
template< typename T, int N, typename P, typename I > struct Kind< LvArray::Array< T, N, P, I, LvArray::ChaiBuffer > >
{
  using A = LvArray::Array< T, N, P, I, LvArray::ChaiBuffer >;
  static void change( A & a, Rng & r ) { I d[ N ]; for( auto & x : d ) x = I( r.range( 0, 40 ) ); a.resize( N, d ); if( r.chance( 20 ) ) a.reserve( I( r.range( 0, 3000 ) ) ); }
  static void owners( Owners & o, A const & a, Owner const & w ) { if( a.capacity() ) o[ a.data() ] = w; }
  static constexpr bool parts = false;
};
template< typename P, typename I > struct Kind< LvArray::Array< LvArray::Array< int, 1, RAJA::PERM_I, int, LvArray::ChaiBuffer >, 1, P, I, LvArray::ChaiBuffer > >
{
  using B = LvArray::Array< int, 1, RAJA::PERM_I, int, LvArray::ChaiBuffer >; using A = LvArray::Array< B, 1, P, I, LvArray::ChaiBuffer >;
  static void change( A & a, Rng & r ) { a.resize( I( r.range( 0, 6 ) ) ); for( I i = 0; i < a.size(); ++i ) a[ i ].resize( int( r.range( 0, 9 ) ) ); }
  static void owners( Owners & o, A const & a, Owner const & w )
  {
    if( a.capacity() ) o[ a.data() ] = w;
    // Inner arrays are named on their own; those relocated keep what they had.
    for( I i = 0; i < a.size(); ++i ) if( a[ i ].capacity() ) o[ a[ i ].data() ] = Owner{ typeName< B >(), "", -1, false };
  }
  static constexpr bool parts = false;
};
template< typename T, typename I > struct Kind< LvArray::SortedArray< T, I, LvArray::ChaiBuffer > >
{
  using A = LvArray::SortedArray< T, I, LvArray::ChaiBuffer >;
  static void change( A & a, Rng & r ) { for( long n = r.range( 1, 20 ); n > 0; --n ) a.insert( T( r.range( 0, 1000 ) ) ); if( r.chance( 10 ) ) a.clear(); }
  static void owners( Owners & o, A const & a, Owner const & w ) { if( a.data() ) o[ a.data() ] = w; }
  static constexpr bool parts = false;
};
template< typename V > void raggedOwners( Owners & o, V const & v, Owner w )
{
  if( v.getOffsets() ) { w.member = 0; o[ v.getOffsets() ] = w; }
  if( v.getSizes() ) { w.member = 1; o[ v.getSizes() ] = w; }
  if( v.getValues() ) { w.member = 2; o[ v.getValues() ] = w; }
}
template< typename T, typename I > struct Kind< LvArray::ArrayOfArrays< T, I, LvArray::ChaiBuffer > >
{
  using A = LvArray::ArrayOfArrays< T, I, LvArray::ChaiBuffer >;
  static void change( A & a, Rng & r ) { if( r.chance( 15 ) ) a.resize( I( r.range( 0, 3 ) ) ); a.appendArray( I( r.range( 0, 5 ) ) ); a.emplaceBack( I( r.range( 0, long( a.size() ) - 1 ) ), T( 1 ) ); if( r.chance( 10 ) ) a.compress(); }
  static void owners( Owners & o, A const & a, Owner const & w ) { raggedOwners( o, a.toViewConst(), w ); }
  static constexpr bool parts = true;
};
template< typename T, typename I > struct Kind< LvArray::ArrayOfSets< T, I, LvArray::ChaiBuffer > >
{
  using A = LvArray::ArrayOfSets< T, I, LvArray::ChaiBuffer >;
  static void change( A & a, Rng & r ) { if( r.chance( 15 ) ) a.resize( I( r.range( 0, 3 ) ) ); a.appendSet( I( r.range( 0, 5 ) ) ); a.insertIntoSet( I( r.range( 0, long( a.size() ) - 1 ) ), T( r.range( 0, 90 ) ) ); if( r.chance( 10 ) ) a.compress(); }
  static void owners( Owners & o, A const & a, Owner const & w ) { raggedOwners( o, a.toViewConst(), w ); }
  static constexpr bool parts = true;
};
template< typename V > void rowOwners( Owners & o, V const & v, Owner w )
{
  if( v.getOffsets() ) { w.member = 0; o[ v.getOffsets() ] = w; }
  if( v.getSizes() ) { w.member = 1; o[ v.getSizes() ] = w; }
  if( v.getColumns() ) { w.member = 2; o[ v.getColumns() ] = w; }
}
template< typename T, typename I > struct Kind< LvArray::SparsityPattern< T, I, LvArray::ChaiBuffer > >
{
  using A = LvArray::SparsityPattern< T, I, LvArray::ChaiBuffer >;
  static void change( A & a, Rng & r ) { if( a.numRows() == 0 || r.chance( 20 ) ) a.resize( I( r.range( 1, 4 ) ), 50, I( r.range( 0, 4 ) ) ); a.insertNonZero( I( r.range( 0, long( a.numRows() ) - 1 ) ), T( r.range( 0, 49 ) ) ); if( r.chance( 10 ) ) a.compress(); }
  static void owners( Owners & o, A const & a, Owner const & w ) { rowOwners( o, a.toViewConst(), w ); }
  static constexpr bool parts = true;
};
template< typename T, typename C, typename I > struct Kind< LvArray::CRSMatrix< T, C, I, LvArray::ChaiBuffer > >
{
  using A = LvArray::CRSMatrix< T, C, I, LvArray::ChaiBuffer >;
  static void change( A & a, Rng & r ) { if( a.numRows() == 0 || r.chance( 20 ) ) a.resize( I( r.range( 1, 4 ) ), 50, I( r.range( 0, 4 ) ) ); a.insertNonZero( I( r.range( 0, long( a.numRows() ) - 1 ) ), C( r.range( 0, 49 ) ), T( 1 ) ); if( r.chance( 10 ) ) a.compress(); }
  static void owners( Owners & o, A const & a, Owner const & w ) { auto const v = a.toViewConst(); rowOwners( o, v, w ); if( v.getEntries() ) { Owner e = w; e.member = 3; o[ v.getEntries() ] = e; } }
  static constexpr bool parts = true;
};
// What a container steals from one of another kind is its own from then on, nameless until it is named again.
template< typename T, typename I, typename F > void stolen( LvArray::ArrayOfArrays< T, I, LvArray::ChaiBuffer > & a, Rng & r, F f )
{
  LvArray::ArrayOfSets< T, I, LvArray::ChaiBuffer > s; s.setName( "sets" ); for( int i = 0; i < 3; ++i ) Kind< decltype( s ) >::change( s, r );
  f( s, [&] { a.assimilate( std::move( s ) ); } );
}
template< typename T, typename I, typename F > void stolen( LvArray::ArrayOfSets< T, I, LvArray::ChaiBuffer > & a, Rng & r, F f )
{
  LvArray::ArrayOfArrays< T, I, LvArray::ChaiBuffer > s; s.setName( "arrays" ); for( int i = 0; i < 3; ++i ) Kind< decltype( s ) >::change( s, r );
  f( s, [&] { a.assimilate( std::move( s ), LvArray::sortedArrayManipulation::UNSORTED_WITH_DUPLICATES ); } );
}
template< typename T, typename C, typename I, typename F > void stolen( LvArray::CRSMatrix< T, C, I, LvArray::ChaiBuffer > & a, Rng & r, F f )
{
  LvArray::SparsityPattern< C, I, LvArray::ChaiBuffer > s; s.setName( "pattern" ); for( int i = 0; i < 3; ++i ) Kind< decltype( s ) >::change( s, r );
  f( s, [&] { a.template assimilate< RAJA::loop_exec >( std::move( s ) ); } );
}
template< typename A, typename F > void stolen( A &, Rng &, F ) {}
template< typename A > void namesCase( Ctx & c )
{
  Accounts acc( c );
  {
    Rng & r = c.rng; using K = Kind< A >;
    struct Slot { std::unique_ptr< A > a; Owner w; Owners o; bool used; };
    Slot s[ 2 ]; long copies = 0;
    auto const fresh = [&]( Slot & x ) { x.w = Owner{ typeName< A >(), "", K::parts ? 0 : -1, false }; };
    auto const listen = [&]( Slot & x, auto f ) { Listener l; f(); Owners all = s[ 0 ].o; all.insert( s[ 1 ].o.begin(), s[ 1 ].o.end() ); compare( c, l, all ); copies += long( l.src.size() ); (void) x; };
    auto const toHost = [&]( Slot & x ) { listen( x, [&] { x.a->move( HOST ); } ); };
    auto const renew = [&]( Slot & x ) { x.o.clear(); K::owners( x.o, *x.a, x.w ); };
    for( auto & x : s ) { listen( x, [&] { x.a.reset( new A ); } ); fresh( x ); renew( x ); }
    for( int st = 0; st < ( c.thorough ? 60 : 30 ); ++st )
    {
      Slot & x = s[ r.below( 2 ) ], & y = &x == s ? s[ 1 ] : s[ 0 ]; int const xi = int( &x - s );
      switch( r.below( 15 ) )
      {
        case 14: { c.op( "%d steals", xi ); toHost( x ); stolen( *x.a, r, [&] ( auto & source, auto take ) { (void) source; take(); fresh( x ); renew( x ); } ); break; }
        case 0: case 1: { std::string const n = someName( r ); c.op( "%d is called '%s'", xi, n.c_str() ); toHost( x ); listen( x, [&] { x.a->setName( n ); } ); x.w.type = typeName< A >(); x.w.name = n; x.w.any = false; renew( x ); break; }
        case 2: case 3: case 4: { c.op( "%d changes", xi ); toHost( x ); listen( x, [&] { K::change( *x.a, r ); } ); renew( x ); break; }
        case 5: { c.op( "%d copied from %d", xi, 1 - xi ); toHost( y ); toHost( x ); listen( x, [&] { x.a.reset( new A( *y.a ) ); } ); fresh( x ); renew( x ); break; }
        case 6: { c.op( "%d assigned %d", xi, 1 - xi ); toHost( y ); toHost( x ); listen( x, [&] { *x.a = *y.a; } ); renew( x ); break; }
        case 7: { c.op( "%d moved from %d", xi, 1 - xi ); toHost( y ); toHost( x ); listen( x, [&] { x.a.reset( new A( std::move( *y.a ) ) ); } ); x.w = y.w; y.w.any = true; renew( x ); renew( y ); break; }
        case 8: { c.op( "%d move assigned %d", xi, 1 - xi ); toHost( y ); toHost( x ); listen( x, [&] { *x.a = std::move( *y.a ); } ); x.w = y.w; y.w.any = true; renew( x ); renew( y ); break; }
        case 9: { bool const touch = r.chance( 50 ); c.op( "%d moved to the host", xi ); listen( x, [&] { x.a->move( HOST, touch ); } ); break; }
        case 10: case 11: { bool const touch = r.chance( 50 ); c.op( "%d moved to the device", xi ); listen( x, [&] { x.a->move( DEVICE, touch ); } ); break; }
        case 12: { bool const dev = r.chance( 60 ); c.op( "%d captured on the %s", xi, dev ? "device" : "host" ); listen( x, [&] { launch( dev, x.a->toView(), 1, [] ( auto const &, long ) {} ); } ); break; }
        default: { bool const dev = r.chance( 60 ); c.op( "%d captured const on the %s", xi, dev ? "device" : "host" ); listen( x, [&] { launch( dev, x.a->toViewConst(), 1, [] ( auto const &, long ) {} ); } ); break; }
      }
    }
    for( auto & x : s ) toHost( x );
    listen( s[ 0 ], [&] { s[ 0 ].a.reset(); s[ 1 ].a.reset(); } );
    c.nontrivial = copies > 2;
  }
  acc.done();
}
// Every allocation of an array made from a buffer that was given allocators comes from the one of its space.
template< typename A > void sizeOnDevice( A & a, int const ( &d )[ 2 ], std::integral_constant< int, 1 > ) { a.resizeWithoutInitializationOrDestruction( DEVICE, d[ 0 ] ); }
template< typename A > void sizeOnDevice( A & a, int const ( &d )[ 2 ], std::integral_constant< int, 2 > ) { a.resizeWithoutInitializationOrDestruction( DEVICE, d[ 0 ], d[ 1 ] ); }
template< int N, typename PERM > void allocatorsCase( Ctx & c )
{
  Accounts acc( c );
  {
    Rng & r = c.rng; using B = LvArray::ChaiBuffer< long >; using A = LvArray::Array< long, N, PERM, int, LvArray::ChaiBuffer >;
    static umpire::Allocator const hosts[ 3 ] = { rm().getAllocator( "HOST" ), rm().makeAllocator< umpire::strategy::DynamicPool >( "HOST_POOL_1", rm().getAllocator( "HOST" ) ), rm().makeAllocator< umpire::strategy::QuickPool >( "HOST_POOL_2", rm().getAllocator( "HOST" ) ) };
    static umpire::Allocator const devices[ 3 ] = { rm().getAllocator( "DEVICE" ), rm().makeAllocator< umpire::strategy::DynamicPool >( "DEVICE_POOL_1", rm().getAllocator( "DEVICE" ) ), rm().makeAllocator< umpire::strategy::QuickPool >( "DEVICE_POOL_2", rm().getAllocator( "DEVICE" ) ) };
    umpire::Allocator const h = hosts[ r.below( 3 ) ], d = devices[ r.below( 3 ) ]; int wantHost = hosts[ 0 ].getId(), wantDevice = devices[ 0 ].getId();
    B b;
    switch( r.below( 4 ) )
    {
      case 0: b = B( { HOST, DEVICE }, { h, d } ); wantHost = h.getId(); wantDevice = d.getId(); break;
      case 1: b = B( { DEVICE, HOST }, { d, h } ); wantHost = h.getId(); wantDevice = d.getId(); break;
      case 2: b = B( { HOST }, { h } ); wantHost = h.getId(); break;
      default: b = B( { DEVICE }, { d } ); wantDevice = d.getId(); break;
    }
    A a( std::move( b ) ); bool device = false; long next = 1, seen = 0; std::vector< long > model;
    auto const idOf = [&] { return long( rm().getAllocator( const_cast< void * >( static_cast< void const * >( a.data() ) ) ).getId() ); };
    for( int st = 0; st < 25; ++st )
    {
      if( device ) { a.move( HOST ); device = false; }
      switch( r.below( 6 ) )
      {
        case 0: case 1: { int const k = int( r.range( 0, 40 ) ); c.op( "resize %d", k ); a.resize( k ); break; }
        case 2: { int const k = int( r.range( 0, 80 ) ); c.op( "reserve %d", k ); a.reserve( k ); break; }
        case 3: { c.op( "ownership moves" ); A x( std::move( a ) ); if( r.chance( 50 ) ) a = std::move( x ); else { A y( std::move( x ) ); a = std::move( y ); } break; }
        case 4:
        {
          c.op( "dimensions set for the device" ); int dims[ 2 ] = { int( r.range( 1, 30 ) ), int( r.range( 1, 5 ) ) };
          a.clear(); sizeOnDevice( a, dims, std::integral_constant< int, N >() ); device = true;
          long const v = next++; kernel< Dev >( a.toView(), a.size(), [v] ( auto const & w, long i ) { const_cast< long * >( w.data() )[ i ] = v; } );
          model.assign( std::size_t( a.size() ), v ); a.move( HOST ); device = false;
          for( long i = 0; i < long( a.size() ); ++i ) CHECK_EQ( c, a.data()[ i ], model[ std::size_t( i ) ], "allocators-value", "" );
          break;
        }
        default: { c.op( "fill" ); a.template setValues< Host >( next++ ); }
      }
      if( a.capacity() == 0 || a.size() == 0 ) continue;
      CHECK_EQ( c, idOf(), long( wantHost ), "allocators", "on the host" ); ++seen;
      if( r.chance( 60 ) )
      {
        if( r.chance( 50 ) ) a.move( DEVICE, r.chance( 50 ) ); else { kernel< Dev >( a.toView(), 1, [] ( auto const &, long ) {} ); a.move( DEVICE, true ); }
        device = true; CHECK_EQ( c, idOf(), long( wantDevice ), "allocators", "on the device" ); ++seen;
      }
    }
    if( device ) a.move( HOST );
    c.event( "allocations of the allocator asked for", seen );
    c.nontrivial = seen > 4;
  }
  acc.done();
}
// A buffer alone may be given any type.
static void bufferNames( Ctx & c )
{
  Accounts acc( c );
  {
    Rng & r = c.rng; using B = LvArray::ChaiBuffer< int >; B b( true ); Owner w{ typeName< B >(), "", -1, false }; Owners o; long copies = 0;
    auto const listen = [&]( auto f ) { Listener l; f(); compare( c, l, o ); copies += long( l.src.size() ); };
    for( int st = 0; st < 30; ++st )
    {
      listen( [&] { b.move( HOST, true ); } );
      switch( r.below( 5 ) )
      {
        case 0: { std::ptrdiff_t const n = r.chance( 10 ) ? r.range( 200000, 400000 ) : r.range( 1, 3000 ); c.op( "capacity %ld", long( n ) ); listen( [&] { b.reallocate( std::min( b.capacity(), std::ptrdiff_t( r.range( 0, n ) ) ), HOST, n ); } ); break; }
        case 1: w.name = someName( r ); w.type = typeName< B >(); c.op( "name '%s'", w.name.c_str() ); b.setName( w.name ); break;
        case 2: w.name = someName( r ); w.type = "double"; c.op( "name '%s' of a double", w.name.c_str() ); b.setName< double >( w.name ); break;
        case 3: { B other( std::move( b ) ); b = std::move( other ); break; }
        default: break;
      }
      o.clear(); if( b.capacity() ) o[ b.data() ] = w;
      bool const touch = r.chance( 60 ); listen( [&] { b.move( DEVICE, touch ); } );
      if( r.chance( 50 ) ) listen( [&] { b.move( HOST, r.chance( 50 ) ); } );
    }
    listen( [&] { b.move( HOST, true ); } ); b.free();
    c.nontrivial = copies > 2;
  }
  acc.done();
}
using namespace LvArray;
static Register const m1( "allocators/I", allocatorsCase< 1, RAJA::PERM_I > ), m2( "allocators/JI", allocatorsCase< 2, RAJA::PERM_JI > );
static Register n1( "names/Array1", namesCase< Array< double, 1, RAJA::PERM_I, int, ChaiBuffer > >, 2 ), n2( "names/Array2", namesCase< Array< long, 2, RAJA::PERM_JI, std::ptrdiff_t, ChaiBuffer > >, 2 ),
  n3( "names/nested", namesCase< Array< Array< int, 1, RAJA::PERM_I, int, ChaiBuffer >, 1, RAJA::PERM_I, int, ChaiBuffer > >, 2 ), n4( "names/SortedArray", namesCase< SortedArray< int, int, ChaiBuffer > >, 2 ),
  n5( "names/ArrayOfArrays", namesCase< ArrayOfArrays< long, std::ptrdiff_t, ChaiBuffer > >, 2 ), n6( "names/ArrayOfSets", namesCase< ArrayOfSets< int, int, ChaiBuffer > >, 2 ),
  n7( "names/SparsityPattern", namesCase< SparsityPattern< int, int, ChaiBuffer > >, 2 ), n8( "names/CRSMatrix", namesCase< CRSMatrix< double, int, std::ptrdiff_t, ChaiBuffer > >, 2 ), n9( "names/buffer", bufferNames, 2 );
#endif
H_MAIN()
