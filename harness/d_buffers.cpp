// The buffer contract: histories over one or two buffers of each kind against a vector model.
#include "common.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
#include "ChaiBuffer.hpp"
#include "bufferManipulation.hpp"
#include "typeManipulation.hpp"
#if defined( H_ASAN )
  #include <sanitizer/asan_interface.h>
#endif
#ifndef ELEM
  #define ELEM long
#endif
#ifndef ELEM_NAME
  #define ELEM_NAME "long"
#endif
using namespace H;
namespace bm = LvArray::bufferManipulation;
using LvArray::MemorySpace;

// ---------------------------------------------------------------------------------------------- kinds
template< typename B > struct Kind;
template< typename T > struct Kind< LvArray::MallocBuffer< T > >
{
  static constexpr bool shallow = true, chai = false; static constexpr long length = -1;
  using Const = LvArray::MallocBuffer< T const >;
  static LvArray::MallocBuffer< T > make( Ctx & c ) { return c.rng.chance( 50 ) ? LvArray::MallocBuffer< T >( true ) : LvArray::MallocBuffer< T >(); }
};
template< typename T, int L > struct Kind< LvArray::StackBuffer< T, L > >
{
  static constexpr bool shallow = false, chai = false; static constexpr long length = L;
  using Const = LvArray::StackBuffer< T const, L >;
  static LvArray::StackBuffer< T, L > make( Ctx & ) { return LvArray::StackBuffer< T, L >( true ); }
};
inline umpire::Allocator customAllocator()
{
  static umpire::Allocator a = umpire::ResourceManager::getInstance().makeAllocator< umpire::strategy::DynamicPool >( "CUSTOM", umpire::ResourceManager::getInstance().getAllocator( "HOST" ) );
  return a;
}
template< typename T > struct Kind< LvArray::ChaiBuffer< T > >
{
  static constexpr bool shallow = true, chai = true; static constexpr long length = -1;
  using Const = LvArray::ChaiBuffer< T const >;
  static LvArray::ChaiBuffer< T > make( Ctx & ) { return LvArray::ChaiBuffer< T >( true ); }
};

template< typename T > void setAt( T * p, long i, long v ) { p[ i ] = mk< T >( v ); }

// A buffer between guard bytes, with its model.
template< typename B > struct Owner
{
  using T = typename B::value_type;
  using K = Kind< B >;
  unsigned char pre[ 64 ];
  B b;
  unsigned char post[ 64 ];
  std::vector< long > m;          // the first values: size is m.size()
  long allocator = -1;            // id of the allocator asked for
  bool record = K::chai;          // holds a record
  Owner( Ctx & c ): b( K::make( c ) ) { std::memset( pre, 0x5A, 64 ); std::memset( post, 0x5A, 64 ); }
  long size() const { return long( m.size() ); }
  void guards( Ctx & c ) const { bool ok = true; for( int i = 0; i < 64; ++i ) ok = ok && pre[ i ] == 0x5A && post[ i ] == 0x5A; CHECK( c, ok, "overrun", "guard bytes next to the buffer" ); }
  void compare( Ctx & c, char const * when ) const
  {
    guards( c );
    long const cap = long( b.capacity() );
    CHECK( c, cap >= size(), "capacity", when );
    if( K::length >= 0 ) CHECK_EQ( c, cap, K::length, "capacity", when );
    for( long i = 0; i < size(); ++i )
    {
      ++c.checks;
      long const got = bk( b[ i ] );
      if( got != m[ std::size_t( i ) ] ) c.fail( "value", std::string( when ) + ": element " + std::to_string( i ) + " is " + std::to_string( got ) + ", expected " + std::to_string( m[ std::size_t( i ) ] ) );
      CHECK( c, &b[ i ] == b.data() + i, "index-address", when );
    }
  #if defined( H_ASAN )
    if( K::shallow && cap > 0 ) CHECK( c, b.data() != nullptr && __asan_region_is_poisoned( const_cast< void * >( static_cast< void const * >( b.data() ) ), std::size_t( cap ) * sizeof( T ) ) == nullptr, "capacity-not-allocated", when );
  #endif
  }
};

template< typename B > void chaiCheck( Ctx &, Owner< B > const & ) {}
template< typename T > void chaiCheck( Ctx & c, Owner< LvArray::ChaiBuffer< T > > const & o )
{
  if( !o.record || o.b.capacity() == 0 ) return;
  CHECK( c, o.b.pointerRecord().m_pointers[ chai::CPU ] == static_cast< void const * >( o.b.data() ), "record-pointer", "" );
  CHECK( c, o.b.pointerRecord().m_size == std::size_t( o.b.capacity() ) * sizeof( T ), "record-size", "" );
  CHECK( c, o.b.getPreviousSpace() == MemorySpace::host, "previous-space", "" );
  if( o.allocator >= 0 && o.b.capacity() > 0 ) CHECK_EQ( c, umpire::ResourceManager::getInstance().getAllocator( const_cast< void * >( static_cast< void const * >( o.b.data() ) ) ).getId(), int( o.allocator ), "allocator", "" );
}
template< typename B > void makeOwned( Ctx &, Owner< B > & ) {}
template< typename T > void makeOwned( Ctx & c, Owner< LvArray::ChaiBuffer< T > > & o )
{
  if( !c.rng.chance( 40 ) ) return;
  c.op( "construct with an allocator for the host" );
  o.b.free();
  o.b = LvArray::ChaiBuffer< T >( { MemorySpace::host }, { customAllocator() } );
  o.allocator = customAllocator().getId();
}

// What a copy, a move or a conversion must look like.
template< typename B > std::enable_if_t< Kind< B >::shallow > copies( Ctx & c, Owner< B > & o, long & next )
{
  using T = typename B::value_type;
  B const alias( o.b );
  B const sized( o.b, o.size() );
  B assigned; assigned = o.b;
  typename Kind< B >::Const const constant( o.b );
  CHECK( c, alias.data() == o.b.data() && sized.data() == o.b.data() && assigned.data() == o.b.data() && constant.data() == o.b.data(), "copy-not-shallow", "" );
  CHECK( c, alias.capacity() == o.b.capacity() && sized.capacity() == o.b.capacity() && assigned.capacity() == o.b.capacity() && constant.capacity() == o.b.capacity(), "copy-capacity", "" );
  if( o.size() )
  {
    long const i = c.rng.range( 0, o.size() - 1 ); long const v = next++;
    alias[ i ] = mk< T >( v ); o.m[ std::size_t( i ) ] = v;
    CHECK_EQ( c, bk( o.b[ i ] ), v, "copy-not-shallow", "" ); CHECK_EQ( c, bk( assigned[ int( i ) ] ), v, "copy-not-shallow", "" ); CHECK_EQ( c, bk( constant[ i ] ), v, "conversion", "" );
  }
}
template< typename B > std::enable_if_t< !Kind< B >::shallow > copies( Ctx & c, Owner< B > & o, long & next )
{
  using T = typename B::value_type;
  Owner< B > a( c ), d( c );
  new ( &a.b ) B( o.b ); a.m = o.m;
  if( c.rng.chance( 50 ) ) { new ( &d.b ) B( o.b, o.size() ); } else d.b = o.b;
  d.m = o.m;
  typename Kind< B >::Const const constant( o.b );
  CHECK_EQ( c, long( constant.capacity() ), long( o.b.capacity() ), "copy-capacity", "" );
  for( long i = 0; i < o.size(); ++i ) CHECK_EQ( c, bk( T( constant[ i ] ) ), o.m[ std::size_t( i ) ], "conversion", "" );
  a.compare( c, "copy constructed" ); d.compare( c, "copy assigned" );
  CHECK( c, a.b.data() != o.b.data() && d.b.data() != o.b.data(), "copy-not-deep", "" );
  for( long i = 0; i < a.size(); ++i ) { long const v = next++; a.b[ i ] = mk< T >( v ); a.m[ std::size_t( i ) ] = v; }
  a.compare( c, "written copy" ); d.compare( c, "copy of a written copy" ); o.compare( c, "source of a written copy" );
}
template< typename B > std::enable_if_t< Kind< B >::shallow > moves( Ctx & c, Owner< B > & o )
{
  auto * const p = o.b.data(); long const cap = long( o.b.capacity() );
  B x( std::move( o.b ) );
  CHECK( c, o.b.data() == nullptr && o.b.capacity() == 0, "moved-from-not-empty", "" );
  CHECK( c, x.data() == p && x.capacity() == cap, "move-target", "" );
  if( c.rng.chance( 50 ) )
  {
    B y; y = std::move( x );
    CHECK( c, x.data() == nullptr && x.capacity() == 0, "moved-from-not-empty", "" );
    CHECK( c, y.data() == p && y.capacity() == cap, "move-target", "" );
    o.b = std::move( y );
    CHECK( c, y.data() == nullptr && y.capacity() == 0, "moved-from-not-empty", "" );
  }
  else { o.b = std::move( x ); CHECK( c, x.data() == nullptr && x.capacity() == 0, "moved-from-not-empty", "" ); }
  CHECK( c, o.b.data() == p && o.b.capacity() == cap, "move-target", "" );
}
template< typename B > std::enable_if_t< !Kind< B >::shallow > moves( Ctx & c, Owner< B > & o )
{
  Owner< B > a( c );
  new ( &a.b ) B( std::move( o.b ) ); a.m = o.m;
  a.compare( c, "moved to" );
  o.b = std::move( a.b );
}

template< typename B > long records( B const & ) { return 0; }
template< typename T > long records( LvArray::ChaiBuffer< T > const & ) { return chai::PointerRecord::liveRecords(); }

template< typename B, typename D > void bufferCase( Ctx & c )
{
  using T = typename B::value_type;
  using K = Kind< B >;
  constexpr bool fixed = K::length >= 0;
  long const records0 = chai::PointerRecord::liveRecords();
  std::size_t const blocks0 = umpire::ResourceManager::getInstance().liveBlocks();
  long next = 1;
  {
    Owner< B > o( c );
    Owner< D > d( c );
    makeOwned( c, o ); makeOwned( c, d );
    o.compare( c, "constructed" );
    if( !fixed ) CHECK_EQ( c, long( o.b.capacity() ), 0L, "capacity", "constructed" );
    int const steps = c.thorough ? 90 : 45;
    long const scale = !fixed && c.rng.below( 1000 ) < 30 ? c.rng.range( 10, 40 ) : 1;
    if( scale > 1 ) c.event( "large cases" );
    for( int s = 0; s < steps; ++s )
    {
      long const n = o.size(), cap = long( o.b.capacity() );
      T * const p = o.b.data();
      bool sameStorage = true;     // the storage may not move
      long const room = fixed ? K::length - n : 100000;
      switch( c.rng.below( 19 ) )
      {
        case 0: case 1:
        {
          // Within a fixed length, shrinking included: the storage stays as it is.
          long const k = fixed ? c.rng.range( 0, K::length ) : c.rng.chance( 40 ) ? std::max( 0L, n + scale * c.rng.range( -4, 4 ) ) : scale * c.rng.range( 0, 40 );
          bool const direct = c.rng.chance( 50 );
          if( fixed && k < n ) break;
          c.op( "%s(%ld -> %ld, size %ld)", direct ? "reallocate" : "setCapacity", cap, k, n );
          if( direct ) o.b.reallocate( n, MemorySpace::host, k ); else bm::setCapacity( o.b, n, MemorySpace::host, k );
          if( !fixed ) { CHECK_EQ( c, long( o.b.capacity() ), k, "capacity", "" ); if( k < n ) { o.m.resize( std::size_t( k ) ); c.event( "shrunk below the size" ); } sameStorage = false; }
          break;
        }
        case 2:
        {
          long const k = fixed ? c.rng.range( 0, K::length ) : scale * c.rng.range( 0, 50 );
          c.op( "reserve(%ld) capacity %ld", k, cap ); bm::reserve( o.b, n, MemorySpace::host, k );
          CHECK( c, long( o.b.capacity() ) >= k, "capacity", "reserve" ); sameStorage = k <= cap;
          if( k <= cap ) CHECK_EQ( c, long( o.b.capacity() ), cap, "capacity", "reserve within the capacity" );
          break;
        }
        case 3:
        {
          long const k = fixed ? c.rng.range( 0, K::length ) : scale * c.rng.range( 0, 50 );
          c.op( "dynamicReserve(%ld) capacity %ld", k, cap ); bm::dynamicReserve( o.b, n, k );
          CHECK( c, long( o.b.capacity() ) >= k, "capacity", "dynamicReserve" ); sameStorage = k <= cap;
          if( k <= cap ) CHECK_EQ( c, long( o.b.capacity() ), cap, "capacity", "reserve within the capacity" );
          break;
        }
        case 4: case 5:
        {
          long const k = fixed ? c.rng.range( 0, K::length ) : c.rng.chance( 60 ) ? std::max( 0L, n + scale * c.rng.range( -6, 6 ) ) : scale * c.rng.range( 0, 40 );
          sameStorage = k <= cap;
          if( c.rng.chance( 50 ) ) { c.op( "resize(%ld -> %ld)", n, k ); bm::resize( o.b, n, k ); o.m.resize( std::size_t( k ), 0 ); if( !std::is_class< T >::value ) for( long i = n; i < k; ++i ) CHECK( c, o.b[ i ] == T(), "resize-value", "" ); }
          else { long const v = next++; c.op( "resize(%ld -> %ld, value)", n, k ); T const t = mk< T >( v ); bm::resize( o.b, n, k, t ); o.m.resize( std::size_t( k ), v ); }
          break;
        }
        case 6: case 7: case 8:
        {
          if( room < 1 ) break;
          long const v = next++; c.op( "emplaceBack at %ld of %ld", n, cap );
          if( c.rng.chance( 50 ) ) { T const t = mk< T >( v ); bm::emplaceBack( o.b, n, t ); } else bm::emplaceBack( o.b, n, mk< T >( v ) );
          o.m.push_back( v ); sameStorage = n + 1 <= cap; break;
        }
        case 9:
        {
          if( room < 1 ) break;
          long const pos = c.rng.range( 0, n ), v = next++; c.op( "emplace(%ld of %ld), capacity %ld", pos, n, cap );
          if( c.rng.chance( 50 ) ) { T const t = mk< T >( v ); bm::emplace( o.b, n, pos, t ); } else bm::emplace( o.b, n, pos, mk< T >( v ) );
          o.m.insert( o.m.begin() + pos, v ); sameStorage = n + 1 <= cap; break;
        }
        case 10: case 11:
        {
          long const pos = c.rng.range( 0, n ), k = std::min( room, scale * c.rng.range( 0, 9 ) );
          std::vector< long > nv; for( long i = 0; i < k; ++i ) nv.push_back( next++ );
          std::vector< T > vals; for( long v : nv ) vals.push_back( mk< T >( v ) );
          c.op( "insert(%ld of %ld, %ld values), capacity %ld", pos, n, k, cap );
          std::ptrdiff_t r;
          switch( c.rng.below( 3 ) )
          {
            case 0: r = bm::insert( o.b, n, pos, vals.begin(), vals.end() ); break;
            case 1: { std::list< T > const l( vals.begin(), vals.end() ); r = bm::insert( o.b, n, pos, l.begin(), l.end() ); break; }
            default: r = bm::insert( o.b, n, pos, vals.data(), vals.data() + k );
          }
          CHECK_EQ( c, long( r ), k, "insert-count", "" );
          o.m.insert( o.m.begin() + pos, nv.begin(), nv.end() ); sameStorage = n + k <= cap; break;
        }
        case 12: if( n ) { c.op( "popBack" ); bm::popBack( o.b, n ); o.m.pop_back(); } break;
        case 13: if( n ) { long const pos = c.rng.range( 0, n - 1 ); c.op( "erase(%ld of %ld)", pos, n ); bm::erase( o.b, n, pos ); o.m.erase( o.m.begin() + pos ); } break;
        case 14: c.op( "copies" ); copies( c, o, next ); break;
        case 15: c.op( "moves" ); moves( c, o ); break;
        case 16:
        {
          // into the other buffer and back
          long const len = Kind< D >::length;
          if( len >= 0 && n > len ) break;
          c.op( "copyInto %ld values over %ld", n, d.size() );
          bm::copyInto( d.b, d.size(), o.b, n ); d.m = o.m;
          d.compare( c, "copied into" );
          if( n ) { long const i = c.rng.range( 0, n - 1 ), v = next++; d.b[ i ] = mk< T >( v ); d.m[ std::size_t( i ) ] = v; o.compare( c, "source of copyInto" ); }
          break;
        }
        case 17:
        {
          c.op( "free, capacity %ld", cap );
          bm::free( o.b, n ); o.m.clear();
          if( !fixed )
          {
            sameStorage = false;
            CHECK( c, o.b.capacity() == 0 && o.b.data() == nullptr, "free", "" );
            if( K::chai && o.allocator >= 0 ) { o.allocator = -1; }
          }
          break;
        }
        default:
        {
          c.op( "host moves and touches" );
          if( K::chai && o.b.capacity() == 0 ) break; // may have no record
          o.b.move( MemorySpace::host, c.rng.chance( 50 ) ); o.b.moveNested( MemorySpace::host, n, c.rng.chance( 50 ) ); o.b.registerTouch( MemorySpace::host );
          CHECK( c, o.b.getPreviousSpace() == MemorySpace::host, "previous-space", "" );
          o.b.setName( "a name" );
        }
      }
      o.compare( c, "after step" );
      if( sameStorage || fixed ) { CHECK( c, o.b.data() == p && long( o.b.capacity() ) == cap, "storage-moved", "" ); c.event( "in-place steps" ); } else c.event( "reallocating steps" );
      chaiCheck( c, o );
      d.compare( c, "other buffer" );
    }
    // Still no more records than buffers.
    if( K::chai || Kind< D >::chai ) CHECK( c, chai::PointerRecord::liveRecords() - records0 <= long( K::chai ) + long( Kind< D >::chai ), "record-leak", "" );
    bm::free( o.b, o.size() ); bm::free( d.b, d.size() );
    if( K::shallow ) CHECK( c, o.b.capacity() == 0 && o.b.data() == nullptr, "free", "" );
  }
  CHECK_EQ( c, chai::PointerRecord::liveRecords(), records0, "record-leak", "" );
  CHECK_EQ( c, long( umpire::ResourceManager::getInstance().liveBlocks() ), long( blocks0 ), "block-leak", "" );
  c.nontrivial = c.ops > 10;
}

// ---------------------------------------------------------------------------------------------- errors
template< typename B > void errorCase( Ctx & c )
{
  using T = typename B::value_type;
  using K = Kind< B >;
  constexpr bool fixed = K::length >= 0;
  long next = 1;
  Owner< B > o( c );
  long const n = fixed ? ( c.rng.chance( 40 ) ? K::length : c.rng.range( 0, K::length ) ) : c.rng.range( 0, 12 );
  c.op( "%ld values", n );
  o.b.reallocate( 0, MemorySpace::host, n );
  for( long i = 0; i < n; ++i ) { bm::emplaceBack( o.b, i, mk< T >( next ) ); o.m.push_back( next++ ); }
  auto expect = [&]( bool error, char const * what, auto && f )
  {
    long const cap = long( o.b.capacity() ); T * const p = o.b.data();
    c.op( "%s", what );
    bool const got = throwsError( f );
    ++c.checks;
    if( got != error ) c.fail( error ? "error-missing" : "spurious-error", what );
    c.event( error ? "errors expected" : "no error expected" );
    o.compare( c, what );
    if( error ) CHECK( c, long( o.b.capacity() ) == cap && o.b.data() == p, "changed-by-error", "" );
  };
  // Outside of its length a fixed buffer cannot grow, by whatever path.
  for( int r = 0; r < 6; ++r ) if( fixed )
  {
    long const over = K::length + ( c.rng.chance( 60 ) ? c.rng.range( 1, 3 ) : c.rng.range( 1, 1000 ) );
    switch( c.rng.below( 9 ) )
    {
      case 0: expect( true, "reallocate beyond", [&]() { o.b.reallocate( n, MemorySpace::host, over ); } ); break;
      case 1: expect( true, "setCapacity beyond", [&]() { bm::setCapacity( o.b, n, MemorySpace::host, over ); } ); break;
      case 2: expect( true, "reserve beyond", [&]() { bm::reserve( o.b, n, MemorySpace::host, over ); } ); break;
      case 3: expect( true, "dynamicReserve beyond", [&]() { bm::dynamicReserve( o.b, n, over ); } ); break;
      case 4: expect( true, "resize beyond", [&]() { bm::resize( o.b, n, over ); } ); break;
      case 5: if( n == K::length ) expect( true, "emplaceBack beyond", [&]() { bm::emplaceBack( o.b, n, mk< T >( 1 ) ); } ); break;
      case 6: if( n == K::length ) { long const pos = c.rng.range( 0, n ); expect( true, "emplace beyond", [&]() { bm::emplace( o.b, n, pos, mk< T >( 1 ) ); } ); } break;
      case 7: { std::vector< T > const v( std::size_t( over - n ), mk< T >( 7 ) ); long const pos = c.rng.range( 0, n ); expect( true, "insert beyond", [&]() { bm::insert( o.b, n, pos, v.begin(), v.end() ); } ); break; }
      default:
        expect( false, "reallocate to the length", [&]() { o.b.reallocate( n, MemorySpace::host, K::length ); } );
        expect( false, "reserve the length", [&]() { bm::reserve( o.b, n, MemorySpace::host, K::length ); } );
        expect( false, "dynamicReserve the length", [&]() { bm::dynamicReserve( o.b, n, K::length ); } );
    }
  }
  // No space but the host's.
  if( !K::chai )
  {
    MemorySpace const s = c.rng.chance( 60 ) ? MemorySpace::cuda : MemorySpace::undefined;
    expect( true, "move off the host", [&]() { o.b.move( s, c.rng.chance( 50 ) ); } );
    expect( true, "nested move off the host", [&]() { o.b.moveNested( s, n, c.rng.chance( 50 ) ); } );
    expect( true, "touch off the host", [&]() { o.b.registerTouch( s ); } );
    if( !fixed ) { long const k = c.rng.range( 0, 20 ); expect( true, "reallocate off the host", [&]() { o.b.reallocate( n, s, k ); } ); }
  }
  else if( n )
  {
    expect( true, "move off the host", [&]() { o.b.move( MemorySpace::cuda, c.rng.chance( 50 ) ); } );
    expect( true, "nested move off the host", [&]() { o.b.moveNested( MemorySpace::cuda, n, c.rng.chance( 50 ) ); } );
    expect( true, "touch off the host", [&]() { o.b.registerTouch( MemorySpace::cuda ); } );
  }
#if defined( LVARRAY_BOUNDS_CHECK )
  {
    long const cap = long( o.b.capacity() ), bad = c.rng.chance( 50 ) ? cap + c.rng.range( 1, 5 ) : -c.rng.range( 1, 5 );
    expect( true, "size beyond the capacity", [&]() { bm::check( o.b, bad ); } );
    expect( true, "resize with a bad size", [&]() { bm::resize( o.b, bad, 1 ); } );
    expect( true, "free with a bad size", [&]() { bm::free( o.b, bad ); } );
    expect( true, "emplaceBack with a bad size", [&]() { bm::emplaceBack( o.b, bad, mk< T >( 1 ) ); } );
    expect( true, "popBack with a bad size", [&]() { bm::popBack( o.b, bad ); } );
    long const pos = c.rng.chance( 50 ) ? n + c.rng.range( 1, 4 ) : -c.rng.range( 1, 4 );
    expect( true, "emplace at a bad position", [&]() { bm::emplace( o.b, n, pos, mk< T >( 1 ) ); } );
    T const one[ 1 ] = { mk< T >( 1 ) };
    expect( true, "insert at a bad position", [&]() { bm::insert( o.b, n, pos, one, one + 1 ); } );
    expect( true, "erase at a bad position", [&]() { bm::erase( o.b, n, n + c.rng.range( 0, 4 ) ); } );
    expect( false, "size equal to the capacity", [&]() { bm::check( o.b, cap ); } );
  }
#endif
  bm::free( o.b, o.size() );
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------- type conversion
struct Two { std::int32_t a, b; };
struct Four { std::int32_t a, b, c, d; };
template< template< typename > class BUF > void convertCase( Ctx & c )
{
  BUF< std::int32_t > b( true );
  long const n = c.rng.range( 1, 33 );
  c.op( "convert a buffer of %ld", n );
  b.reallocate( 0, MemorySpace::host, n );
  for( long i = 0; i < n; ++i ) b[ i ] = std::int32_t( i + 1 );
  auto as = [&]( auto t, long per )
  {
    using U = decltype( t );
    if( n % per == 0 )
    {
      BUF< U > const x( b );
      CHECK_EQ( c, long( x.capacity() ), n / per, "conversion-capacity", "" );
      CHECK( c, static_cast< void const * >( x.data() ) == b.data(), "conversion-data", "" );
      for( long i = 0; i < n / per; ++i ) CHECK_EQ( c, x[ i ].a, std::int32_t( i * per + 1 ), "conversion", "" );
      BUF< std::int32_t > const back( x );
      CHECK_EQ( c, long( back.capacity() ), n, "conversion-capacity", "" );
      CHECK( c, back.data() == b.data(), "conversion-data", "" );
      c.event( "conversions" );
    }
    else
    {
      bool const e = throwsError( [&]() { BUF< U > const x( b ); } );
      CHECK( c, e, "error-missing", "a capacity that does not divide" );
      c.event( "conversions refused" );
    }
  };
  as( Two{}, 2 ); as( Four{}, 4 );
  b.free();
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------------- arrays on the stack
template< typename PERM, int LENGTH > void stackArrayCase( Ctx & c )
{
  using A = LvArray::StackArray< long, 2, PERM, int, LENGTH >;
  struct Guarded { unsigned char pre[ 64 ]; A a; unsigned char post[ 64 ]; };
  auto g = std::make_unique< Guarded >();
  std::memset( g->pre, 0x5A, 64 ); std::memset( g->post, 0x5A, 64 );
  A & a = g->a;
  CHECK_EQ( c, long( a.size() ), 0L, "size", "" ); CHECK_EQ( c, long( a.capacity() ), long( LENGTH ), "capacity", "" );
  std::map< std::pair< int, int >, long > m; int n0 = 0, n1 = 0; long next = 1;
  auto check = [&]( A const & x, char const * when )
  {
    CHECK_EQ( c, long( x.size() ), long( n0 ) * n1, "size", when );
    CHECK( c, x.size( 0 ) == n0 && x.size( 1 ) == n1, "extent", when );
    for( int i = 0; i < n0; ++i ) for( int j = 0; j < n1; ++j ) { auto it = m.find( { i, j } ); if( it != m.end() ) CHECK_EQ( c, x( i, j ), it->second, "value", when ); }
    for( int i = 0; i < 64; ++i ) CHECK( c, g->pre[ i ] == 0x5A && g->post[ i ] == 0x5A, "overrun", when );
    CHECK( c, reinterpret_cast< char const * >( x.data() ) >= reinterpret_cast< char const * >( &x ) && reinterpret_cast< char const * >( x.data() + LENGTH ) <= reinterpret_cast< char const * >( &x + 1 ), "storage-outside-the-object", when );
  };
  auto fill = [&]() { m.clear(); for( int i = 0; i < n0; ++i ) for( int j = 0; j < n1; ++j ) { a( i, j ) = next; m[ { i, j } ] = next++; } };
  for( int s = 0; s < 14; ++s )
  {
    switch( c.rng.below( 5 ) )
    {
      case 0:
      {
        int const x = int( c.rng.range( 0, 6 ) ), y = int( c.rng.range( 0, x ? LENGTH / x : 9 ) );
        c.op( "resize(%d,%d)", x, y ); a.resize( x, y ); n0 = x; n1 = y; fill(); break;
      }
      case 1:
      {
        int const x = n1 ? int( c.rng.range( 0, LENGTH / n1 ) ) : int( c.rng.range( 0, 9 ) );
        c.op( "resize(%d)", x ); a.resize( x ); n0 = x;
        for( auto it = m.begin(); it != m.end(); ) if( it->first.first >= n0 ) it = m.erase( it ); else ++it;
        check( a, "resized first dimension" ); fill(); break;
      }
      case 2:
      {
        A b( a ); check( b, "copy" );
        for( int i = 0; i < n0; ++i ) for( int j = 0; j < n1; ++j ) b( i, j ) = -1;
        check( a, "source of a written copy" ); c.op( "copy" ); break;
      }
      case 3:
      {
        long const over = LENGTH + c.rng.range( 1, 50 );
        c.op( "resize beyond the length" );
        // The extents after a refused resize are unspecified: only the memory around is watched.
        A b( a );
        struct Side { unsigned char pre[ 64 ]; A a; unsigned char post[ 64 ]; };
        // Never destroyed: with its extents its destructor would rightly complain.
        std::unique_ptr< Side, void ( * )( Side * ) > h( new ( std::malloc( sizeof( Side ) ) ) Side, []( Side * p ) { std::free( p ); } ); std::memset( h->pre, 0x5A, 64 ); std::memset( h->post, 0x5A, 64 );
        h->a = a;
        bool const e = c.rng.chance( 50 ) ? throwsError( [&]() { h->a.resize( int( over ), 1 ); } ) : throwsError( [&]() { h->a.resizeDefault( int( over ) * 2, 0L ); h->a.resize( 1, int( over ) ); } );
        CHECK( c, e, "error-missing", "" ); c.event( "errors expected" );
        for( int i = 0; i < 64; ++i ) CHECK( c, h->pre[ i ] == 0x5A && h->post[ i ] == 0x5A, "overrun", "" );
        break;
      }
      default:
      {
        A b; b = a; check( b, "assigned" );
        A d( std::move( b ) ); check( d, "moved" );
        c.op( "assign" );
      }
    }
    check( a, "after step" );
  }
  c.nontrivial = c.ops > 4;
}

#define KIND( NAME, ... ) static Register const NAME( "buffer/" #NAME "/" ELEM_NAME, bufferCase< __VA_ARGS__ > )
#define ERR( NAME, ... ) static Register const NAME##_errors( "buffer/errors/" #NAME "/" ELEM_NAME, errorCase< __VA_ARGS__ >, 1, false )
using T = ELEM;
KIND( malloc_malloc, LvArray::MallocBuffer< T >, LvArray::MallocBuffer< T > );
KIND( chai_malloc, LvArray::ChaiBuffer< T >, LvArray::MallocBuffer< T > );
KIND( malloc_chai, LvArray::MallocBuffer< T >, LvArray::ChaiBuffer< T > );
ERR( malloc, LvArray::MallocBuffer< T > );
ERR( chai, LvArray::ChaiBuffer< T > );
#if defined( WITH_STACK )
using S10 = LvArray::StackBuffer< T, 10 >;
using S37 = LvArray::StackBuffer< T, 37 >;
using S1 = LvArray::StackBuffer< T, 1 >;
KIND( stack10_malloc, S10, LvArray::MallocBuffer< T > );
KIND( stack37_stack10, S37, S10 );
KIND( malloc_stack, LvArray::MallocBuffer< T >, S37 );
KIND( stack1_chai, S1, LvArray::ChaiBuffer< T > );
ERR( stack10, S10 );
ERR( stack37, S37 );
ERR( stack1, S1 );
static Register const convM( "buffer/convert/malloc", convertCase< LvArray::MallocBuffer >, 1, false );
static Register const convC( "buffer/convert/chai", convertCase< LvArray::ChaiBuffer >, 1, false );
static Register const sa1( "buffer/stackarray/ij", stackArrayCase< RAJA::PERM_IJ, 12 >, 1, false );
static Register const sa2( "buffer/stackarray/ji", stackArrayCase< RAJA::PERM_JI, 20 >, 1, false );
#endif
H_MAIN()
