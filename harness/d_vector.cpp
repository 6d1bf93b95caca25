// One-dimensional arrays against a vector model (vec/), raw range primitives (prim/).
#include "array_util.hpp"
#include "arrayManipulation.hpp"
#ifndef ELEM
  #define ELEM long
#endif
#ifndef ELEM_NAME
  #define ELEM_NAME "long"
#endif
using namespace H;
namespace am = LvArray::arrayManipulation;

template< typename A > void compare( Ctx & c, A const & a, std::vector< long > const & m, char const * when )
{
  long const n = long( m.size() );
  CHECK_EQ( c, long( a.size() ), n, "size", when );
  CHECK_EQ( c, long( a.size( 0 ) ), n, "size", when );
  CHECK_EQ( c, a.empty(), n == 0, "empty", when );
  CHECK( c, long( a.capacity() ) >= n, "capacity", when );
  CHECK_EQ( c, long( a.strides()[ 0 ] ), 1L, "stride", when );
  CHECK( c, a.end() - a.begin() == n, "begin-end", when );
  for( long i = 0; i < n; ++i )
  {
    ++c.checks;
    long const got = bk( a[ typename A::IndexType( i ) ] );
    if( got != m[ std::size_t( i ) ] ) c.fail( "value", std::string( when ) + ": element " + std::to_string( i ) + " is " + std::to_string( got ) + ", expected " + std::to_string( m[ std::size_t( i ) ] ) );
  }
  if( n )
  {
    CHECK( c, &a.front() == a.data() && &a.back() == a.data() + n - 1, "front-back", when );
    CHECK( c, &a( typename A::IndexType( n - 1 ) ) == a.data() + n - 1, "paren", when );
    CHECK( c, a.begin() == a.data(), "begin-end", when );
  }
}
template< typename A > struct MaxLen { static constexpr long value = 90; };

template< typename A, typename T > void vectorCase( Ctx & c )
{
  A a;
  std::vector< long > m;
  using IT = typename A::IndexType;
  long next = 1;
  bool const large = MaxLen< A >::value > 80 && c.rng.chance( 3 ); if( large ) c.event( "large cases" );
  long const scale = large ? 30 : 1, maxLen = MaxLen< A >::value * scale;
  compare( c, a, m, "default constructed" );
  if( c.rng.chance( 50 ) )
  {
    long const n = c.rng.small( std::min( 40L * scale, maxLen ) );
    c.op( "resize(%ld)", n ); a.resize( IT( n ) ); m.assign( std::size_t( n ), 0 );
    for( long i = 0; i < n; ++i ) { m[ std::size_t( i ) ] = next; a[ IT( i ) ] = mk< T >( next++ ); }
  }
  int const steps = large ? 16 : c.thorough ? 120 : 50;
  bool dense = c.rng.chance( 50 );
  for( int s = 0; s < steps; ++s )
  {
    long const n = long( m.size() );
    long const cap = long( a.capacity() );
    T const * const p = a.data();
    bool mayMove = false;
    switch( c.rng.below( 20 ) )
    {
      case 0: case 1: case 2: case 3: case 4:
      {
        if( n >= maxLen ) break;
        long const v = next++; c.op( "emplace_back(%ld)", v );
        T const t = mk< T >( v ); a.emplace_back( t ); m.push_back( v ); break;
      }
      case 5:
      {
        if( n >= maxLen ) break;
        long const v = next++; c.op( "emplace_back(T&&)" ); a.emplace_back( mk< T >( v ) ); m.push_back( v ); break;
      }
      case 6: if( n >= maxLen ) break; c.op( "emplace_back()" ); a.emplace_back( T() ); m.push_back( 0 ); break;
      case 7: case 8: case 9:
      {
        if( n >= maxLen ) break;
        long const pos = c.rng.chance( 15 ) ? 0 : c.rng.chance( 15 ) ? n : c.rng.range( 0, n );
        long const v = next++; c.op( "emplace(%ld of %ld)", pos, n );
        if( c.rng.chance( 50 ) ) a.emplace( IT( pos ), mk< T >( v ) ); else { T const t = mk< T >( v ); a.emplace( IT( pos ), t ); }
        m.insert( m.begin() + pos, v ); break;
      }
      case 10: case 11: case 12:
      {
        long const pos = c.rng.chance( 15 ) ? 0 : c.rng.chance( 15 ) ? n : c.rng.range( 0, n );
        long const k = std::min( maxLen - n, c.rng.chance( 10 ) ? 0 : c.rng.chance( 30 ) ? c.rng.range( 1, 3 ) : c.rng.range( 1, scale * ( dense ? 30 : 8 ) ) );
        std::vector< long > nv; for( long i = 0; i < k; ++i ) nv.push_back( next++ );
        std::vector< T > vals; for( long v : nv ) vals.push_back( mk< T >( v ) );
        c.op( "insert(%ld of %ld, %ld values)", pos, n, k );
        switch( c.rng.below( 4 ) )
        {
          case 0: a.insert( IT( pos ), vals.begin(), vals.end() ); break;
          case 1: { std::list< T > const l( vals.begin(), vals.end() ); a.insert( IT( pos ), l.begin(), l.end() ); break; }
          case 2: a.insert( IT( pos ), vals.data(), vals.data() + k ); break;
          default: { A other; other.resize( IT( k ) ); for( long i = 0; i < k; ++i ) other[ IT( i ) ] = vals[ std::size_t( i ) ]; a.insert( IT( pos ), other.begin(), other.end() ); break; }
        }
        for( std::size_t i = 0; i < vals.size(); ++i ) CHECK_EQ( c, bk( vals[ i ] ), nv[ i ], "insert-changed-source", "" );
        m.insert( m.begin() + pos, nv.begin(), nv.end() ); break;
      }
      case 13: if( n ) { c.op( "pop_back" ); a.pop_back(); m.pop_back(); } break;
      case 14: case 15:
        if( n ) { long const pos = c.rng.chance( 20 ) ? 0 : c.rng.chance( 20 ) ? n - 1 : c.rng.range( 0, n - 1 ); c.op( "erase(%ld of %ld)", pos, n ); a.erase( IT( pos ) ); m.erase( m.begin() + pos ); } break;
      case 16:
      {
        long const k = std::min( maxLen, c.rng.chance( 30 ) ? c.rng.range( 0, 70 * scale ) : std::max( 0L, n + scale * c.rng.range( -5, 8 ) ) );
        c.op( "resize(%ld) from %ld", k, n ); a.resize( IT( k ) ); m.resize( std::size_t( k ), 0 ); break;
      }
      case 17:
      {
        long const k = std::min( maxLen, std::max( 0L, n + scale * c.rng.range( -5, 10 ) ) ); long const v = next++;
        c.op( "resizeDefault(%ld) from %ld", k, n ); T const t = mk< T >( v ); a.resizeDefault( IT( k ), t ); m.resize( std::size_t( k ), v ); break;
      }
      case 18:
      {
        long const k = std::min( maxLen, c.rng.range( 0, 100 * scale ) ); c.op( "reserve(%ld)", k ); a.reserve( IT( k ) );
        CHECK( c, long( a.capacity() ) >= k && long( a.capacity() ) >= cap, "reserve-capacity", "" );
        if( k > cap ) mayMove = true;
        break;
      }
      default:
        if( c.rng.chance( 15 ) ) { c.op( "clear" ); a.clear(); m.clear(); CHECK_EQ( c, long( a.capacity() ), cap, "clear-capacity", "" ); }
        else if( n ) { long const i = c.rng.range( 0, n - 1 ), v = next++; c.op( "write [%ld]", i ); if( c.rng.chance( 50 ) ) a[ IT( i ) ] = mk< T >( v ); else a.toSlice()( IT( i ) ) = mk< T >( v ); m[ std::size_t( i ) ] = v; }
    }
    compare( c, a, m, "after step" );
    if( long( m.size() ) <= cap && !mayMove ) { CHECK( c, a.data() == p, "reallocated-within-capacity", "" ); CHECK_EQ( c, long( a.capacity() ), cap, "capacity-changed", "" ); c.event( "in-capacity steps" ); }
    else c.event( "growth steps" );
    compare( c, a.toViewConst(), m, "const view" );
  }
  c.nontrivial = c.ops > 10;
}

// ------------------------------------------------------------------------------------------ primitives
// A stretch of raw memory whose slots are tracked: which hold a constructed object, with which value.
template< typename T > struct Range
{
  long const CAP, LEAD;
  Ctx & c;
  unsigned char * raw;
  std::vector< long > v;       // model of the constructed slots
  Range( Ctx & ctx, long scale ): CAP( 80 * scale ), LEAD( 12 * scale ), c( ctx ), raw( static_cast< unsigned char * >( std::malloc( sizeof( T ) * ( CAP + LEAD ) ) ) ) { std::memset( raw, 0xA5, sizeof( T ) * ( CAP + LEAD ) ); }
  ~Range() { std::free( raw ); }
  T * ptr() { return reinterpret_cast< T * >( raw ) + LEAD; }
  void fill( std::vector< long > const & x ) { v = x; for( std::size_t i = 0; i < x.size(); ++i ) new ( ptr() + i ) T( mk< T >( x[ i ] ) ); }
  // slots [ lo, hi ) hold objects, values expected from `want` starting at lo; everything else must be raw.
  static bool tracked() { return std::is_same< T, Tracked >::value || std::is_same< T, TrackedCopy >::value; }
  void expect( std::map< long, long > const & slots, std::set< long > const & unspecified, char const * what )
  {
    for( long i = -LEAD; i < CAP; ++i )
    {
      bool const live = slots.count( i ) || unspecified.count( i );
      if( tracked() ) { ++c.checks; if( Life::isLive( ptr() + i ) != live ) c.fail( "slot-liveness", std::string( what ) + ": slot " + std::to_string( i ) + ( live ? " is not constructed" : " is still constructed" ) ); }
      if( slots.count( i ) ) { ++c.checks; long const got = bk( ptr()[ i ] ); if( got != slots.at( i ) ) c.fail( "slot-value", std::string( what ) + ": slot " + std::to_string( i ) + " is " + std::to_string( got ) + ", expected " + std::to_string( slots.at( i ) ) ); }
    }
  }
  // Bytes outside [ lo, hi ) were never written.
  void guard( long lo, long hi, char const * what )
  {
    unsigned char const * const b = reinterpret_cast< unsigned char const * >( ptr() );
    for( unsigned char const * q = raw; q < b + lo * long( sizeof( T ) ); ++q ) { ++c.checks; if( *q != 0xA5 ) c.fail( "guard", std::string( what ) + " wrote before its range" ); }
    for( unsigned char const * q = b + hi * long( sizeof( T ) ); q < raw + sizeof( T ) * ( CAP + LEAD ); ++q ) { ++c.checks; if( *q != 0xA5 ) c.fail( "guard", std::string( what ) + " wrote behind its range" ); }
  }
  void destroySlots( std::map< long, long > const & slots, std::set< long > const & other ) { for( auto const & s : slots ) ptr()[ s.first ].~T(); for( long s : other ) ptr()[ s ].~T(); }
};
static std::map< long, long > slotsOf( std::vector< long > const & v, long at = 0 ) { std::map< long, long > m; for( std::size_t i = 0; i < v.size(); ++i ) m[ at + long( i ) ] = v[ i ]; return m; }

template< typename T > void primCase( Ctx & c )
{
  bool const large = c.rng.chance( 3 ); if( large ) c.event( "large cases" );
  long const scale = large ? c.rng.range( 10, 100 ) : 1;
  Range< T > r( c, scale ), o( c, scale );
  long const n = c.rng.chance( 10 ) ? 0 : c.rng.range( 1, 24 * scale );
  std::vector< long > v; for( long i = 0; i < n; ++i ) v.push_back( 10000 + i );
  T * const p = r.ptr();
  std::map< long, long > slots; std::set< long > unspecified;
  auto kind = c.rng.below( 13 );
  switch( kind )
  {
    case 0: c.op( "destroy %ld", n ); r.fill( v ); am::destroy( p, n ); break;
    case 1:
    {
      c.op( "uninitializedCopy %ld", n ); std::vector< T > src; for( long x : v ) src.push_back( mk< T >( x ) );
      if( c.rng.chance( 50 ) ) am::uninitializedCopy( src.begin(), src.end(), p ); else { std::list< T > l( src.begin(), src.end() ); am::uninitializedCopy( l.begin(), l.end(), p ); }
      for( std::size_t i = 0; i < src.size(); ++i ) CHECK_EQ( c, bk( src[ i ] ), v[ i ], "source-changed", "" );
      slots = slotsOf( v ); r.guard( 0, n, "uninitializedCopy" ); break;
    }
    case 2:
    {
      c.op( "uninitializedMove %ld", n ); o.fill( v ); am::uninitializedMove( p, n, o.ptr() ); slots = slotsOf( v ); r.guard( 0, n, "uninitializedMove" );
      std::set< long > src; for( long i = 0; i < n; ++i ) src.insert( i );
      o.expect( {}, src, "source of uninitializedMove" ); o.destroySlots( {}, src ); break;
    }
    case 3:
    {
      long const amount = c.rng.range( 0, r.LEAD ); c.op( "uninitializedShiftDown %ld by %ld", n, amount ); r.fill( v );
      am::uninitializedShiftDown( p, n, amount ); slots = slotsOf( v, -amount ); r.guard( -amount, n, "uninitializedShiftDown" ); break;
    }
    case 4:
    {
      long const amount = c.rng.range( 0, 40 * scale ); c.op( "uninitializedShiftUp %ld by %ld", n, amount ); r.fill( v );
      am::uninitializedShiftUp( p, n, amount ); slots = slotsOf( v, amount ); r.guard( 0, n + amount, "uninitializedShiftUp" ); break;
    }
    case 5:
    {
      long const k = c.rng.range( 0, 50 * scale ); bool const def = c.rng.chance( 50 ); c.op( "resize %ld to %ld %s", n, k, def ? "with a value" : "" ); r.fill( v );
      T const dv = mk< T >( 7 );
      if( def ) { if( c.rng.chance( 50 ) ) am::resize( p, n, k, dv ); else am::resize( p, n, k, mk< T >( 7 ) ); } else am::resize( p, n, k );
      std::vector< long > w = v; w.resize( std::size_t( k ), def ? 7 : 0 ); slots = slotsOf( w ); r.guard( 0, std::max( n, k ), "resize" ); break;
    }
    case 6:
    {
      long const pos = c.rng.range( 0, n ), k = c.rng.chance( 40 ) ? c.rng.range( 0, 2 ) : c.rng.range( 0, 40 * scale ); c.op( "shiftUp %ld at %ld by %ld", n, pos, k ); r.fill( v );
      am::shiftUp( p, n, pos, k );
      for( long i = 0; i < n; ++i ) slots[ i < pos ? i : i + k ] = v[ std::size_t( i ) ];
      r.guard( 0, n + k, "shiftUp" ); break;
    }
    case 7:
    {
      if( n == 0 ) break;
      long const k = c.rng.range( 0, n ), pos = c.rng.range( k, n ); c.op( "shiftDown %ld at %ld by %ld", n, pos, k ); r.fill( v );
      am::shiftDown( p, n, pos, k );
      std::vector< long > w( v.begin(), v.begin() + ( pos - k ) ); w.insert( w.end(), v.begin() + pos, v.end() );
      slots = slotsOf( w ); for( long i = long( w.size() ); i < n; ++i ) unspecified.insert( i );
      r.guard( 0, n, "shiftDown" ); break;
    }
    case 8:
    {
      if( n == 0 ) break;
      long const k = c.rng.range( 0, n ), pos = c.rng.range( 0, n - k ); c.op( "erase %ld at %ld count %ld", n, pos, k ); r.fill( v );
      if( k == 1 && c.rng.chance( 50 ) ) am::erase( p, n, pos ); else am::erase( p, n, pos, k );
      v.erase( v.begin() + pos, v.begin() + pos + k ); slots = slotsOf( v ); r.guard( 0, n, "erase" ); break;
    }
    case 9:
    {
      c.op( "emplaceBack at %ld", n ); r.fill( v ); T const t = mk< T >( 55 ); if( c.rng.chance( 50 ) ) am::emplaceBack( p, n, t ); else am::emplaceBack( p, n, mk< T >( 55 ) );
      CHECK_EQ( c, bk( t ), 55L, "argument-changed", "" ); v.push_back( 55 ); slots = slotsOf( v ); r.guard( 0, n + 1, "emplaceBack" ); break;
    }
    case 10:
    {
      long const k = c.rng.range( 0, 30 * scale ); c.op( "append %ld to %ld", k, n ); r.fill( v ); std::vector< T > src; for( long i = 0; i < k; ++i ) { src.push_back( mk< T >( 500 + i ) ); v.push_back( 500 + i ); }
      long const got = c.rng.chance( 50 ) ? long( am::append( p, n, src.begin(), src.end() ) ) : [&]() { std::list< T > l( src.begin(), src.end() ); return long( am::append( p, n, l.begin(), l.end() ) ); }();
      CHECK_EQ( c, got, k, "append-count", "" ); slots = slotsOf( v ); r.guard( 0, n + k, "append" ); break;
    }
    case 11:
    {
      long const pos = c.rng.range( 0, n ); bool const one = c.rng.chance( 40 ); long const k = one ? 1 : c.rng.range( 0, 30 * scale );
      c.op( "%s %ld into %ld at %ld", one ? "emplace" : "insert", k, n, pos ); r.fill( v ); std::vector< T > src; std::vector< long > nv; for( long i = 0; i < k; ++i ) { src.push_back( mk< T >( 500 + i ) ); nv.push_back( 500 + i ); }
      if( one ) { if( c.rng.chance( 50 ) ) am::emplace( p, n, pos, mk< T >( 500 ) ); else am::emplace( p, n, pos, src[ 0 ] ); }
      else if( c.rng.chance( 50 ) ) am::insert( p, n, pos, src.begin(), k ); else { std::list< T > l( src.begin(), src.end() ); am::insert( p, n, pos, l.begin(), k ); }
      for( std::size_t i = 0; i < src.size(); ++i ) CHECK_EQ( c, bk( src[ i ] ), nv[ i ], "source-changed", "" );
      v.insert( v.begin() + pos, nv.begin(), nv.end() ); slots = slotsOf( v ); r.guard( 0, n + k, "insert" ); break;
    }
    default:
      if( n == 0 ) break;
      c.op( "popBack %ld", n ); r.fill( v ); am::popBack( p, n ); v.pop_back(); slots = slotsOf( v ); r.guard( 0, n, "popBack" );
  }
  if( c.ops ) { r.expect( slots, unspecified, c.trace.back().c_str() ); r.destroySlots( slots, unspecified ); }
  // distances
  long const k = c.rng.range( 0, 20 ); std::list< int > l( static_cast< std::size_t >( k ), 1 );
  CHECK_EQ( c, long( am::iterDistance( l.begin(), l.end() ) ), k, "iter-distance", "" );
  std::vector< int > ve( static_cast< std::size_t >( k ), 1 );
  CHECK_EQ( c, long( am::iterDistance( ve.begin(), ve.end() ) ), k, "iter-distance", "" );
  CHECK( c, am::isPositive( k ) && !am::isPositive( -1 - k ) && am::isPositive( std::size_t( -1 ) ), "is-positive", "" );
  c.nontrivial = n > 1 && c.ops > 0;
}

template< typename T, bool = std::is_trivially_destructible< T >::value > struct RegStack
{
  static void reg()
  {
    using S = LvArray::StackArray< T, 1, RAJA::PERM_I, std::ptrdiff_t, 96 >;
    Register( "vec/" ELEM_NAME "/stack", vectorCase< S, T >, 1 );
  }
};
template< typename T > struct RegStack< T, false > { static void reg() {} };
template<> struct MaxLen< LvArray::StackArray< ELEM, 1, RAJA::PERM_I, std::ptrdiff_t, 96 > > { static constexpr long value = 48; };

static int registerAll()
{
  Register( "vec/" ELEM_NAME "/long", vectorCase< MArray< ELEM, 1, RAJA::PERM_I, std::ptrdiff_t >, ELEM >, 2 );
  Register( "vec/" ELEM_NAME "/int", vectorCase< MArray< ELEM, 1, RAJA::PERM_I, int >, ELEM >, 1 );
  RegStack< ELEM >::reg();
  Register( "prim/" ELEM_NAME, primCase< ELEM >, 4 );
  return 0;
}
static int const registered = registerAll();
H_MAIN()
