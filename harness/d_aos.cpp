// ArrayOfSets against a vector of sets (aos/), with more copying, moving and assimilating (aosown/).
#include "array_util.hpp"
#include "ArrayOfSets.hpp"
#include "ArrayOfArrays.hpp"
#ifndef ELEM
  #define ELEM long
#endif
#ifndef ELEM_NAME
  #define ELEM_NAME "long"
#endif
using namespace H;
using T = ELEM;
using Model = std::vector< std::set< long > >;
namespace sam = LvArray::sortedArrayManipulation;
// Zero is the empty string, which sorts first: keep every value positive.
static T mkS( long v ) { return mk< T >( v + 9000 ); }
static long bkS( T const & t ) { return bk( t ) - 9000; }
static std::vector< T > make( std::vector< long > const & v ) { std::vector< T > r; for( long x : v ) r.push_back( mkS( x ) ); return r; }
static std::vector< long > batch( Rng & r, std::set< long > const & have, long universe, long most = 25 )
{
  std::set< long > s;
  long const k = r.chance( 8 ) ? 0 : r.chance( most > 25 ? 30 : 70 ) ? r.range( 1, 6 ) : r.range( 1, most );
  switch( r.below( 6 ) )
  {
    case 0: { long const b = have.empty() ? 0 : *have.rbegin(); for( long i = 0; i < k; ++i ) s.insert( b + 1 + r.range( 0, 20 ) ); break; }
    case 1: { long const b = have.empty() ? 0 : *have.begin(); for( long i = 0; i < k; ++i ) s.insert( b - 1 - r.range( 0, 20 ) ); break; }
    case 2: { std::vector< long > h( have.begin(), have.end() ); for( long i = 0; i < k && !h.empty(); ++i ) s.insert( h[ r.below( h.size() ) ] ); break; }
    case 3: { long const b = r.range( -universe, universe ); for( long i = 0; i < k; ++i ) s.insert( b + i ); break; }
    default: for( long i = 0; i < k; ++i ) s.insert( r.range( -universe, universe ) );
  }
  return std::vector< long >( s.begin(), s.end() );
}
template< typename F > auto withRange( Rng & r, std::vector< T > const & v, F && f )
{
  switch( r.below( 3 ) )
  {
    case 0: { std::list< T > l( v.begin(), v.end() ); return f( l.begin(), l.end() ); }
    case 1: return f( v.data(), v.data() + v.size() );
    default: return f( v.begin(), v.end() );
  }
}
template< typename V > void compareWith( Ctx & c, V const & a, Model const & m, char const * what )
{
  using IT = typename std::decay< decltype( a.size() ) >::type;
  CHECK_EQ( c, long( a.size() ), long( m.size() ), "size", what );
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    CHECK_EQ( c, long( a.sizeOfSet( IT( i ) ) ), long( m[ i ].size() ), "set-size", what );
    auto const s = a[ IT( i ) ];
    CHECK_EQ( c, long( s.size() ), long( m[ i ].size() ), "slice-size", what );
    long j = 0;
    for( long x : m[ i ] )
    {
      ++c.checks;
      long const got = bkS( a( IT( i ), IT( j ) ) );
      if( got != x ) c.fail( "value", std::string( what ) + ": value (" + std::to_string( i ) + "," + std::to_string( j ) + ") is " + std::to_string( got ) + ", expected " + std::to_string( x ) );
      CHECK( c, &s[ IT( j ) ] == &a( IT( i ), IT( j ) ), "slice-address", what );
      ++j;
    }
    for( int k = 0; k < 3; ++k )
    {
      long v = c.rng.range( -45, 45 ); if( m[ i ].size() > 100 ) v *= 50;
      if( k == 1 && !m[ i ].empty() ) { auto it = m[ i ].begin(); std::advance( it, long( c.rng.below( m[ i ].size() ) ) ); v = *it; }
      CHECK_EQ( c, a.contains( IT( i ), mkS( v ) ), m[ i ].count( v ) != 0, "contains", what );
    }
  }
}
template< typename A > std::vector< long > caps( A const & a ) { std::vector< long > r; for( long i = 0; i < long( a.size() ); ++i ) r.push_back( long( a.capacityOfSet( typename A::IndexType( i ) ) ) ); return r; }
template< typename A > void audit( Ctx & c, A & a, Model const & m )
{
  compareWith( c, a, m, "container" );
  a.consistencyCheck();
  A blank; auto const v = via( c, a.toView(), blank.toView() ); auto const vc = via( c, a.toViewConst(), blank.toViewConst() ); auto const va = via( c, a.toArrayOfArraysView(), blank.toArrayOfArraysView() );
  if( c.rng.chance( 50 ) ) compareWith( c, v, m, "view" ); else compareWith( c, vc, m, "constant view" );
  CHECK( c, va.getValues() == v.getValues() && vc.getValues() == v.getValues() && va.getOffsets() == v.getOffsets() && vc.getSizes() == v.getSizes(), "view-storage", "" );
  CHECK_EQ( c, long( va.size() ), long( m.size() ), "array-view", "" );
  long total = 0;
  using IT = typename A::IndexType;
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    long const cap = long( a.capacityOfSet( IT( i ) ) );
    CHECK( c, cap >= long( m[ i ].size() ), "capacity-below-size", "" );
    CHECK( c, long( v.capacityOfSet( IT( i ) ) ) == cap && long( va.capacityOfArray( IT( i ) ) ) == cap && va.sizeOfArray( IT( i ) ) == a.sizeOfSet( IT( i ) ), "view-capacity", "" );
    CHECK_EQ( c, long( v.getOffsets()[ i ] ), total, "regions-overlap", "" );
    if( !m[ i ].empty() ) CHECK( c, &a( IT( i ), 0 ) == v.getValues() + total && &va( IT( i ), 0 ) == v.getValues() + total, "region", "" );
    total += cap;
  }
  CHECK_EQ( c, long( v.getOffsets()[ m.size() ] ), total, "regions-overlap", "" );
  CHECK( c, long( a.valueCapacity() ) >= total && long( a.capacity() ) >= long( m.size() ), "value-capacity", "" );
}

template< typename IT, bool OWN > void hist( Ctx & c )
{
  using A = LvArray::ArrayOfSets< T, IT, LV_BUF >;
  using AA = LvArray::ArrayOfArrays< T, IT, LV_BUF >;
  struct Slot { std::unique_ptr< A > a; Model m; };
  Rng & r = c.rng;
  // A few cases have hundreds of sets or sets of hundreds of values.
  int const large = r.chance( 4 ) ? int( r.range( 1, 2 ) ) : 0; if( large ) c.event( "large cases" );
  long const many = large == 1 ? 40 : 1, wide = large == 2 ? 60 : 1;
  std::vector< Slot > slots( 2 );
  for( auto & s : slots )
  {
    long const n = r.chance( 30 ) ? 0 : r.range( 1, 6 * many ), k = r.chance( 50 ) ? 0 : r.range( 0, 5 * wide );
    if( n == 0 && r.chance( 50 ) ) s.a = std::make_unique< A >(); else s.a = std::make_unique< A >( IT( n ), IT( k ) );
    s.m.resize( std::size_t( n ) );
    for( long q : caps( *s.a ) ) CHECK_EQ( c, q, k, "constructor-capacity", "" );
    if( large ) for( long q = 0; q < n; ++q ) for( int z = 0; z < 3; ++z ) { long const v = r.range( -40, 40 ); s.a->insertIntoSet( IT( q ), mkS( v ) ); s.m[ std::size_t( q ) ].insert( v ); }
  }
  int const steps = large ? 16 : c.thorough ? 90 : 40;
  long const universe = large == 2 ? 2000 : r.chance( 30 ) ? 10 : r.chance( 50 ) ? 40 : 300;
  for( int k = 0; k < steps; ++k )
  {
    std::size_t const x = r.chance( OWN ? 50 : 80 ) ? 0 : 1;
    A & a = *slots[ x ].a; Model & m = slots[ x ].m;
    long const n = long( m.size() );
    long const i = n ? r.range( 0, n - 1 ) : -1;
    std::vector< long > const before = caps( a );
    auto const othersKeepCapacity = [&]( long except ) { std::vector< long > const now = caps( a ); for( long q = 0; q < long( now.size() ); ++q ) if( q != except ) CHECK_EQ( c, now[ std::size_t( q ) ], before[ std::size_t( q ) ], "other-capacity", "" ); };
    int const what = OWN && r.chance( 45 ) ? 100 : int( r.below( 31 ) );
    if( what == 0 )
    {
      long const nn = r.small( 9 * many ), cap = r.chance( 50 ) ? 0 : r.range( 0, 5 * wide ); c.op( "%zu resize(%ld,%ld)", x, nn, cap );
      if( cap == 0 && r.chance( 50 ) ) a.resize( IT( nn ) ); else a.resize( IT( nn ), IT( cap ) );
      m.resize( std::size_t( nn ) );
      std::vector< long > const now = caps( a ); CHECK_EQ( c, long( now.size() ), nn, "resize-size", "" );
      for( long q = 0; q < nn; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], q < n ? before[ std::size_t( q ) ] : cap, "resize-capacity", "" );
    }
    else if( what == 1 ) { long const q = r.range( 0, 20 * many ); c.op( "%zu reserve(%ld)", x, q ); a.reserve( IT( q ) ); CHECK( c, long( a.capacity() ) >= q, "reserve", "" ); othersKeepCapacity( -1 ); }
    else if( what == 2 ) { long const q = r.range( 0, 120 * many * wide ); c.op( "%zu reserveValues(%ld)", x, q ); a.reserveValues( IT( q ) ); CHECK( c, long( a.valueCapacity() ) >= q, "reserve-values", "" ); othersKeepCapacity( -1 ); }
    else if( what == 3 || what == 4 )
    {
      if( n > 12 * many ) continue;
      long const cap = r.chance( 50 ) ? 0 : r.range( 0, 6 ); c.op( "%zu appendSet(%ld)", x, cap ); if( cap == 0 && r.chance( 50 ) ) a.appendSet(); else a.appendSet( IT( cap ) ); m.emplace_back();
      CHECK_EQ( c, caps( a ).back(), cap, "append-capacity", "" ); othersKeepCapacity( n );
    }
    else if( what == 5 )
    {
      if( n > 12 * many ) continue;
      long const p = r.chance( 20 ) ? n : r.range( 0, n ), cap = r.chance( 50 ) ? 0 : r.range( 0, 6 ); c.op( "%zu insertSet(%ld,%ld)", x, p, cap );
      if( cap == 0 && r.chance( 50 ) ) a.insertSet( IT( p ) ); else a.insertSet( IT( p ), IT( cap ) ); m.insert( m.begin() + p, std::set< long >{} );
      std::vector< long > const now = caps( a );
      CHECK_EQ( c, now[ std::size_t( p ) ], cap, "insert-capacity", "" );
      for( long q = 0; q < n; ++q ) CHECK_EQ( c, now[ std::size_t( q < p ? q : q + 1 ) ], before[ std::size_t( q ) ], "other-capacity", "" );
    }
    else if( what == 6 )
    {
      if( n == 0 ) continue;
      c.op( "%zu eraseSet(%ld)", x, i ); a.eraseSet( IT( i ) ); m.erase( m.begin() + i );
      std::vector< long > const now = caps( a ); CHECK_EQ( c, now.size(), std::size_t( n - 1 ), "erase-set", "" );
      for( long q = 0; q < n - 1; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], before[ std::size_t( q < i ? q : q + 1 ) ], "other-capacity", "" );
    }
    else if( what <= 11 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const v = r.range( -universe, universe ); c.op( "%zu insertIntoSet(%ld,%ld)", x, i, v );
      bool const e = q.insert( v ).second; CHECK_EQ( c, a.insertIntoSet( IT( i ), mkS( v ) ), e, "insert-result", "" ); othersKeepCapacity( i );
    }
    else if( what <= 15 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; auto const b = batch( r, q, universe, large == 2 ? 700 : 25 ); auto const v = make( b ); long e = 0; for( long z : b ) e += q.insert( z ).second;
      c.op( "%zu insertIntoSet(%ld, %zu values, %ld new)", x, i, b.size(), e );
      CHECK_EQ( c, withRange( r, v, [&]( auto f, auto l ) { return long( a.insertIntoSet( IT( i ), f, l ) ); } ), e, "insert-count", "" ); othersKeepCapacity( i ); c.event( "batch inserts" );
    }
    else if( what <= 18 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long v = r.range( -universe, universe ); if( !q.empty() && r.chance( 60 ) ) { auto it = q.begin(); std::advance( it, long( r.below( q.size() ) ) ); v = *it; }
      c.op( "%zu removeFromSet(%ld,%ld)", x, i, v ); bool const e = q.erase( v ) != 0;
      CHECK_EQ( c, r.chance( 50 ) ? a.removeFromSet( IT( i ), mkS( v ) ) : a.toView().removeFromSet( IT( i ), mkS( v ) ), e, "remove-result", "" ); othersKeepCapacity( -1 );
    }
    else if( what <= 21 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; auto const b = batch( r, q, universe, large == 2 ? 700 : 25 ); auto const v = make( b ); long e = 0; for( long z : b ) e += long( q.erase( z ) );
      c.op( "%zu removeFromSet(%ld, %zu values, %ld present)", x, i, b.size(), e ); bool const view = r.chance( 50 );
      CHECK_EQ( c, withRange( r, v, [&]( auto f, auto l ) { return view ? long( a.toView().removeFromSet( IT( i ), f, l ) ) : long( a.removeFromSet( IT( i ), f, l ) ); } ), e, "remove-count", "" );
      othersKeepCapacity( -1 ); c.event( "batch removals" );
    }
    else if( what == 22 ) { if( n == 0 ) continue; c.op( "%zu clearSet(%ld)", x, i ); a.clearSet( IT( i ) ); m[ std::size_t( i ) ].clear(); othersKeepCapacity( -1 ); }
    else if( what == 23 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const cap = r.chance( 30 ) ? r.small( long( q.size() ) ) : r.range( 0, 16 * wide ); c.op( "%zu setCapacityOfSet(%ld,%ld)", x, i, cap );
      a.setCapacityOfSet( IT( i ), IT( cap ) ); while( long( q.size() ) > cap ) q.erase( std::prev( q.end() ) );
      CHECK_EQ( c, caps( a )[ std::size_t( i ) ], cap, "set-capacity", "" ); othersKeepCapacity( i );
    }
    else if( what == 24 )
    {
      if( n == 0 ) continue;
      long const cap = r.range( 0, 16 * wide ); c.op( "%zu reserveCapacityOfSet(%ld,%ld)", x, i, cap ); a.reserveCapacityOfSet( IT( i ), IT( cap ) );
      CHECK_EQ( c, caps( a )[ std::size_t( i ) ], std::max( cap, before[ std::size_t( i ) ] ), "reserve-set", "" ); othersKeepCapacity( i );
    }
    else if( what == 25 )
    {
      c.op( "%zu compress", x ); a.compress();
      std::vector< long > const now = caps( a ); CHECK_EQ( c, now.size(), std::size_t( n ), "compress", "" );
      for( long q = 0; q < n; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], long( m[ std::size_t( q ) ].size() ), "compress-capacity", "" );
    }
    else if( what == 26 )
    {
      if( !r.chance( 40 ) ) continue;
      long const nn = r.range( 0, 9 * many ); std::vector< IT > cp; for( long q = 0; q < nn; ++q ) cp.push_back( IT( r.small( 8 * wide ) ) );
      c.op( "%zu resizeFromCapacities(%ld)", x, nn ); a.template resizeFromCapacities< RAJA::seq_exec >( IT( nn ), cp.data() ); m.assign( std::size_t( nn ), {} );
      std::vector< long > const now = caps( a ); CHECK_EQ( c, now.size(), cp.size(), "from-capacities", "" ); for( long q = 0; q < nn; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], long( cp[ std::size_t( q ) ] ), "from-capacities", "" );
    }
    else if( what <= 30 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; auto const v = a.toView(); auto const * const p = v.getValues();
      if( r.chance( 50 ) )
      {
        long const val = r.range( -universe, universe ); if( !q.count( val ) && long( q.size() ) >= before[ std::size_t( i ) ] ) continue;
        c.op( "%zu view insertIntoSet(%ld,%ld)", x, i, val ); bool const e = q.insert( val ).second; CHECK_EQ( c, v.insertIntoSet( IT( i ), mkS( val ) ), e, "view-insert-result", "" );
      }
      else
      {
        auto b = batch( r, q, universe, large == 2 ? 700 : 25 ); long nw = 0; std::vector< long > keep;
        for( long z : b ) { if( q.count( z ) ) keep.push_back( z ); else if( long( q.size() ) + nw < before[ std::size_t( i ) ] ) { ++nw; keep.push_back( z ); } }
        auto const w = make( keep ); c.op( "%zu view insertIntoSet(%ld, %zu values, %ld new)", x, i, keep.size(), nw ); q.insert( keep.begin(), keep.end() );
        CHECK_EQ( c, withRange( r, w, [&]( auto f, auto l ) { return long( v.insertIntoSet( IT( i ), f, l ) ); } ), nw, "view-insert-count", "" );
      }
      CHECK( c, a.toView().getValues() == p, "view-moved-values", "" ); othersKeepCapacity( -1 ); c.event( "view operations" );
    }
    else
    {
      Slot & o = slots[ 1 - x ];
      switch( r.below( 9 ) )
      {
        case 0: c.op( "copy assign %zu from %zu", x, 1 - x ); a = *o.a; m = o.m; break;
        case 1: c.op( "move assign %zu from %zu", x, 1 - x ); a = std::move( *o.a ); m = o.m; o.m.clear(); break;
        case 2: c.op( "copy construct %zu from %zu", x, 1 - x ); slots[ x ].a = std::make_unique< A >( *o.a ); m = o.m; break;
        case 3: c.op( "move construct %zu from %zu", x, 1 - x ); slots[ x ].a = std::make_unique< A >( std::move( *o.a ) ); m = o.m; o.m.clear(); break;
        case 4: { c.op( "self assign %zu", x ); A & s = a; a = s; break; }
        case 5: case 6: case 7:
        {
          long const nn = r.range( 0, 6 * many ); int const kind = int( r.below( 4 ) ); AA src; std::size_t most = 0;
          Model nm( static_cast< std::size_t >( nn ) );
          std::vector< std::vector< long > > all;
          for( long q = 0; q < nn; ++q )
          {
            std::vector< long > v; long const len = large == 2 ? r.range( 0, 1200 ) : r.chance( 20 ) ? r.range( 30, 70 ) : r.small( 12 ); long const u = kind == sam::SORTED_UNIQUE || kind == sam::UNSORTED_NO_DUPLICATES ? 400 : r.chance( 50 ) ? 3 : 30;
            for( long z = 0; z < len; ++z ) v.push_back( r.range( -u, u ) );
            if( kind == int( sam::SORTED_UNIQUE ) || kind == int( sam::UNSORTED_NO_DUPLICATES ) )
            { std::set< long > const s( v.begin(), v.end() ); v.assign( s.begin(), s.end() ); }
            if( kind == int( sam::UNSORTED_NO_DUPLICATES ) ) for( std::size_t z = v.size(); z > 1; --z ) std::swap( v[ z - 1 ], v[ r.below( z ) ] );
            if( kind == int( sam::SORTED_WITH_DUPLICATES ) ) std::sort( v.begin(), v.end() );
            nm[ std::size_t( q ) ] = std::set< long >( v.begin(), v.end() ); most = std::max( most, v.size() ); all.push_back( v );
          }
          for( auto const & v : all ) { auto const w = make( v ); src.appendArray( w.begin(), w.end() ); }
          c.op( "%zu assimilate %ld arrays, kind %d, at most %zu values", x, nn, kind, most );
          a.assimilate( std::move( src ), static_cast< sam::Description >( kind ) ); m = nm;
          CHECK_EQ( c, long( src.size() ), 0L, "assimilated-source", "" ); src.appendArray( 2 ); CHECK_EQ( c, long( src.size() ), 1L, "assimilated-source", "" );
          c.event( "assimilations" );
          break;
        }
        default: c.op( "free %zu and start again", x ); slots[ x ].a = std::make_unique< A >(); m.clear();
      }
      c.event( "ownership operations" );
    }
    audit( c, *slots[ x ].a, slots[ x ].m );
    audit( c, *slots[ 1 - x ].a, slots[ 1 - x ].m );
  }
  c.nontrivial = c.ops > 10;
}
static Register r1( "aos/" ELEM_NAME "/int", hist< int, false >, 2 );
static Register r2( "aos/" ELEM_NAME "/long", hist< std::ptrdiff_t, false >, 3 );
static Register r3( "aosown/" ELEM_NAME "/long", hist< std::ptrdiff_t, true >, 3 );
H_MAIN()
