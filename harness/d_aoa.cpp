// ArrayOfArrays against a vector of vectors (aoa/), with more copying and moving (aoaown/).
#include "array_util.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#ifndef ELEM
  #define ELEM long
#endif
#ifndef ELEM_NAME
  #define ELEM_NAME "long"
#endif
using namespace H;
using T = ELEM;
using Model = std::vector< std::vector< long > >;

static long const MOST = sizeof( T ) == 2 ? 30000 : 900000; // values every element type can hold
static std::vector< long > values( Rng & r, long n ) { std::vector< long > v; for( long i = 0; i < n; ++i ) v.push_back( r.range( 1, MOST ) ); return v; }
static std::vector< T > make( std::vector< long > const & v ) { std::vector< T > r; for( long x : v ) r.push_back( mk< T >( x ) ); return r; }

template< typename V > void compareWith( Ctx & c, V const & a, Model const & m, char const * what )
{
  using IT = typename std::decay< decltype( a.size() ) >::type;
  CHECK_EQ( c, long( a.size() ), long( m.size() ), "size", what );
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    CHECK_EQ( c, long( a.sizeOfArray( IT( i ) ) ), long( m[ i ].size() ), "inner-size", what );
    auto const s = a[ IT( i ) ];
    CHECK_EQ( c, long( s.size() ), long( m[ i ].size() ), "slice-size", what );
    for( std::size_t j = 0; j < m[ i ].size(); ++j )
    {
      ++c.checks;
      long const got = bk( a( IT( i ), IT( j ) ) );
      if( got != m[ i ][ j ] )
        c.fail( "value", std::string( what ) + ": value (" + std::to_string( i ) + "," + std::to_string( j ) + ") is " + std::to_string( got ) + ", expected " + std::to_string( m[ i ][ j ] ) );
      CHECK( c, &s[ IT( j ) ] == &a( IT( i ), IT( j ) ), "slice-address", what );
      CHECK( c, &a[ IT( i ) ][ IT( j ) ] == &a( IT( i ), IT( j ) ), "slice-address", what );
    }
    long n = 0;
    for( auto const & x : s ) { CHECK( c, &x == &a( IT( i ), IT( n ) ), "iteration", what ); ++n; }
    CHECK_EQ( c, n, long( m[ i ].size() ), "iteration", what );
  }
}
template< typename A > std::vector< long > caps( A const & a ) { std::vector< long > r; for( long i = 0; i < long( a.size() ); ++i ) r.push_back( long( a.capacityOfArray( typename A::IndexType( i ) ) ) ); return r; }

template< typename A > void audit( Ctx & c, A & a, Model const & m )
{
  compareWith( c, a, m, "container" );
  A blank; auto const v = via( c, a.toView(), blank.toView() ); auto const vs = via( c, a.toViewConstSizes(), blank.toViewConstSizes() ); auto const vc = via( c, a.toViewConst(), blank.toViewConst() );
  switch( c.rng.below( 3 ) ) { case 0: compareWith( c, v, m, "view" ); break; case 1: compareWith( c, vs, m, "view with constant sizes" ); break; default: compareWith( c, vc, m, "constant view" ); }
  CHECK( c, vc.getValues() == v.getValues() && vs.getValues() == v.getValues(), "view-storage", "" );
  CHECK( c, vc.getOffsets() == v.getOffsets() && vc.getSizes() == v.getSizes(), "view-storage", "" );
  long total = 0;
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    long const cap = long( a.capacityOfArray( typename A::IndexType( i ) ) );
    CHECK( c, cap >= long( m[ i ].size() ), "capacity-below-size", "" );
    CHECK_EQ( c, long( v.capacityOfArray( typename A::IndexType( i ) ) ), cap, "view-capacity", "" );
    CHECK_EQ( c, long( v.getOffsets()[ i ] ), total, "regions-overlap", "" );
    CHECK_EQ( c, long( v.getSizes()[ i ] ), long( m[ i ].size() ), "sizes", "" );
    if( !m[ i ].empty() ) CHECK( c, &a( typename A::IndexType( i ), 0 ) == v.getValues() + total, "region", "" );
    total += cap;
  }
  CHECK_EQ( c, long( v.getOffsets()[ m.size() ] ), total, "regions-overlap", "" );
  CHECK( c, long( a.valueCapacity() ) >= total, "value-capacity", "" );
  CHECK( c, long( a.capacity() ) >= long( m.size() ), "capacity", "" );
}

template< typename F > auto withRange( Rng & r, std::vector< T > const & v, F && f )
{
  switch( r.below( 4 ) )
  {
    case 0: { std::list< T > l( v.begin(), v.end() ); return f( l.begin(), l.end() ); }
    case 1: return f( v.data(), v.data() + v.size() );
    case 2: { std::deque< T > d( v.begin(), v.end() ); return f( d.cbegin(), d.cend() ); }
    default: return f( v.begin(), v.end() );
  }
}

template< typename IT, bool OWN > void hist( Ctx & c )
{
  using A = LvArray::ArrayOfArrays< T, IT, LV_BUF >;
  struct Slot { std::unique_ptr< A > a; Model m; };
  Rng & r = c.rng;
  // A few cases have hundreds of arrays or arrays of hundreds of values.
  int const large = r.chance( 4 ) ? int( r.range( 1, 2 ) ) : 0; if( large ) c.event( "large cases" );
  long const many = large == 1 ? 40 : 1, wide = large == 2 ? 60 : 1;
  std::vector< Slot > slots( 2 );
  for( auto & s : slots )
  {
    long const n = r.chance( 40 ) ? 0 : r.range( 0, 6 * many ), k = r.chance( 50 ) ? 0 : r.range( 0, 5 * wide );
    if( n == 0 && r.chance( 50 ) ) s.a = std::make_unique< A >(); else s.a = std::make_unique< A >( IT( n ), IT( k ) );
    s.m.resize( std::size_t( n ) );
    for( long q : caps( *s.a ) ) CHECK_EQ( c, q, k, "constructor-capacity", "" );
    if( large ) for( long q = 0; q < n; ++q ) { auto const v = values( r, r.range( 0, 6 ) ); for( long z : v ) s.a->emplaceBack( IT( q ), mk< T >( z ) ); s.m[ std::size_t( q ) ] = v; }
  }
  int const steps = large ? 16 : c.thorough ? 90 : 40;
  long const big = large == 2 ? 800 : r.chance( 20 ) && !large ? 40 : 7;
  for( int k = 0; k < steps; ++k )
  {
    std::size_t const x = r.chance( OWN ? 50 : 80 ) ? 0 : 1;
    A & a = *slots[ x ].a; Model & m = slots[ x ].m;
    long const n = long( m.size() );
    long const i = n ? r.range( 0, n - 1 ) : -1;
    std::vector< long > const before = caps( a );
    auto const othersKeepCapacity = [&]( long except ) { std::vector< long > const now = caps( a ); for( long q = 0; q < long( now.size() ); ++q ) if( q != except ) CHECK_EQ( c, now[ std::size_t( q ) ], before[ std::size_t( q ) ], "other-capacity", "" ); };
    int const what = OWN && r.chance( 45 ) ? 100 : int( r.below( 31 ) );
    if( what == 0 )
    {
      long const nn = r.small( 9 * many ), cap = r.chance( 50 ) ? 0 : r.range( 0, 5 * wide ); c.op( "%zu resize(%ld,%ld)", x, nn, cap );
      if( cap == 0 && r.chance( 50 ) ) a.resize( IT( nn ) ); else a.resize( IT( nn ), IT( cap ) );
      m.resize( std::size_t( nn ) );
      std::vector< long > const now = caps( a ); CHECK_EQ( c, long( now.size() ), nn, "resize-size", "" );
      for( long q = 0; q < nn; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], q < n ? before[ std::size_t( q ) ] : cap, "resize-capacity", "" );
    }
    else if( what == 1 ) { long const q = r.range( 0, 20 * many ); c.op( "%zu reserve(%ld)", x, q ); a.reserve( IT( q ) ); CHECK( c, long( a.capacity() ) >= q, "reserve", "" ); othersKeepCapacity( -1 ); }
    else if( what == 2 ) { long const q = r.range( 0, 120 * many * wide ); c.op( "%zu reserveValues(%ld)", x, q ); a.reserveValues( IT( q ) ); CHECK( c, long( a.valueCapacity() ) >= q, "reserve-values", "" ); othersKeepCapacity( -1 ); }
    else if( what == 3 || what == 4 )
    {
      if( n > 14 * many ) continue;
      if( r.chance( 30 ) ) { long const q = r.small( big ); c.op( "%zu appendArray(%ld)", x, q ); a.appendArray( IT( q ) ); m.emplace_back( std::size_t( q ), 0 ); }
      else { auto const v = values( r, r.small( big ) ); c.op( "%zu appendArray(%zu values)", x, v.size() ); auto const w = make( v ); withRange( r, w, [&]( auto f, auto l ) { a.appendArray( f, l ); } ); m.push_back( v ); }
      CHECK_EQ( c, long( a.size() ), n + 1, "append-array", "" );
      othersKeepCapacity( n );
    }
    else if( what == 5 || what == 6 )
    {
      if( n > 14 * many ) continue;
      long const p = r.chance( 20 ) ? n : r.range( 0, n ); auto const v = values( r, r.small( big ) ); c.op( "%zu insertArray(%ld, %zu values)", x, p, v.size() );
      auto const w = make( v ); withRange( r, w, [&]( auto f, auto l ) { a.insertArray( IT( p ), f, l ); } ); m.insert( m.begin() + p, v );
      std::vector< long > const now = caps( a );
      for( long q = 0; q < n; ++q ) CHECK_EQ( c, now[ std::size_t( q < p ? q : q + 1 ) ], before[ std::size_t( q ) ], "other-capacity", "" );
    }
    else if( what == 7 )
    {
      if( n == 0 ) continue;
      c.op( "%zu eraseArray(%ld)", x, i ); a.eraseArray( IT( i ) ); m.erase( m.begin() + i );
      std::vector< long > const now = caps( a ); CHECK_EQ( c, now.size(), std::size_t( n - 1 ), "erase-array", "" );
      for( long q = 0; q < n - 1; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], before[ std::size_t( q < i ? q : q + 1 ) ], "other-capacity", "" );
    }
    else if( what <= 11 )
    {
      if( n == 0 ) continue;
      long const v = r.range( 1, std::min( MOST, 99999L ) ); c.op( "%zu emplaceBack(%ld)", x, i );
      T const t = mk< T >( v ); if( r.chance( 50 ) ) a.emplaceBack( IT( i ), t ); else a.emplaceBack( IT( i ), mk< T >( v ) );
      m[ std::size_t( i ) ].push_back( v ); othersKeepCapacity( i );
    }
    else if( what <= 13 )
    {
      if( n == 0 ) continue;
      auto const v = values( r, r.small( big ) ); c.op( "%zu appendToArray(%ld, %zu values)", x, i, v.size() );
      auto const w = make( v ); withRange( r, w, [&]( auto f, auto l ) { a.appendToArray( IT( i ), f, l ); } );
      m[ std::size_t( i ) ].insert( m[ std::size_t( i ) ].end(), v.begin(), v.end() ); othersKeepCapacity( i );
    }
    else if( what <= 15 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const j = r.range( 0, long( q.size() ) ), v = r.range( 1, std::min( MOST, 99999L ) ); c.op( "%zu emplace(%ld,%ld)", x, i, j );
      T const t = mk< T >( v ); if( r.chance( 50 ) ) a.emplace( IT( i ), IT( j ), t ); else a.emplace( IT( i ), IT( j ), mk< T >( v ) );
      q.insert( q.begin() + j, v ); othersKeepCapacity( i );
    }
    else if( what <= 17 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const j = r.range( 0, long( q.size() ) ); auto const v = values( r, r.small( big ) ); c.op( "%zu insertIntoArray(%ld,%ld, %zu values)", x, i, j, v.size() );
      auto const w = make( v ); withRange( r, w, [&]( auto f, auto l ) { a.insertIntoArray( IT( i ), IT( j ), f, l ); } );
      q.insert( q.begin() + j, v.begin(), v.end() ); othersKeepCapacity( i );
    }
    else if( what <= 19 )
    {
      if( n == 0 || m[ std::size_t( i ) ].empty() ) continue;
      auto & q = m[ std::size_t( i ) ]; long const j = r.range( 0, long( q.size() ) - 1 ), cnt = r.chance( 50 ) ? 1 : r.range( 0, long( q.size() ) - j );
      c.op( "%zu eraseFromArray(%ld,%ld,%ld)", x, i, j, cnt );
      if( r.chance( 50 ) ) { if( cnt == 1 && r.chance( 60 ) ) a.eraseFromArray( IT( i ), IT( j ) ); else a.eraseFromArray( IT( i ), IT( j ), IT( cnt ) ); }
      else a.toView().eraseFromArray( IT( i ), IT( j ), IT( cnt ) );
      q.erase( q.begin() + j, q.begin() + j + cnt ); othersKeepCapacity( -1 );
    }
    else if( what <= 21 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const s = r.small( big + 4 ); long const v = r.range( 1, 9999 );
      c.op( "%zu resizeArray(%ld,%ld)", x, i, s );
      if( r.chance( 50 ) ) { a.resizeArray( IT( i ), IT( s ) ); q.resize( std::size_t( s ), 0 ); } else { T const t = mk< T >( v ); a.resizeArray( IT( i ), IT( s ), t ); q.resize( std::size_t( s ), v ); }
      othersKeepCapacity( i );
    }
    else if( what == 22 ) { if( n == 0 ) continue; c.op( "%zu clearArray(%ld)", x, i ); a.clearArray( IT( i ) ); m[ std::size_t( i ) ].clear(); othersKeepCapacity( -1 ); }
    else if( what <= 24 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const cap = r.chance( 30 ) ? r.small( long( q.size() ) ) : r.range( 0, 16 * wide ); c.op( "%zu setCapacityOfArray(%ld,%ld)", x, i, cap );
      a.setCapacityOfArray( IT( i ), IT( cap ) ); if( long( q.size() ) > cap ) q.resize( std::size_t( cap ) );
      CHECK_EQ( c, caps( a )[ std::size_t( i ) ], cap, "set-capacity", "" ); othersKeepCapacity( i );
    }
    else if( what == 25 )
    {
      c.op( "%zu compress", x ); long const vcap = long( a.valueCapacity() ); a.compress();
      long total = 0; for( auto const & q : m ) total += long( q.size() );
      std::vector< long > const now = caps( a ); CHECK_EQ( c, now.size(), std::size_t( n ), "compress", "" );
      for( long q = 0; q < n; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], long( m[ std::size_t( q ) ].size() ), "compress-capacity", "" );
      CHECK( c, long( a.valueCapacity() ) >= total && long( a.valueCapacity() ) <= vcap, "compress-value-capacity", "" );
    }
    else if( what == 26 )
    {
      if( !r.chance( 40 ) ) continue;
      long const nn = r.range( 0, 9 * many ); std::vector< IT > cp; for( long q = 0; q < nn; ++q ) cp.push_back( IT( r.small( 8 * wide ) ) );
      c.op( "%zu resizeFromCapacities(%ld)", x, nn ); a.template resizeFromCapacities< RAJA::seq_exec >( IT( nn ), cp.data() ); m.assign( std::size_t( nn ), {} );
      std::vector< long > const now = caps( a ); CHECK_EQ( c, now.size(), cp.size(), "from-capacities", "" ); for( long q = 0; q < nn; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], long( cp[ std::size_t( q ) ] ), "from-capacities", "" );
    }
    else if( what <= 30 )
    {
      // through a view: never more than the capacity, never moves anything
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ];
      long const room = before[ std::size_t( i ) ] - long( q.size() ); if( room <= 0 ) continue;
      auto const v = a.toView(); auto const * const p = v.getValues();
      long const cnt = r.range( 0, room ), j = r.range( 0, long( q.size() ) ); auto const vals = values( r, cnt ); auto const w = make( vals );
      switch( r.below( 5 ) )
      {
        case 0: c.op( "%zu view emplaceBack(%ld)", x, i ); v.emplaceBack( IT( i ), mk< T >( 77 ) ); q.push_back( 77 ); break;
        case 1: c.op( "%zu view emplace(%ld,%ld)", x, i, j ); v.emplace( IT( i ), IT( j ), mk< T >( 78 ) ); q.insert( q.begin() + j, 78 ); break;
        case 2: c.op( "%zu view append(%ld,%ld)", x, i, cnt ); withRange( r, w, [&]( auto f, auto l ) { v.appendToArray( IT( i ), f, l ); } ); q.insert( q.end(), vals.begin(), vals.end() ); break;
        case 3: c.op( "%zu view insert(%ld,%ld,%ld)", x, i, j, cnt ); withRange( r, w, [&]( auto f, auto l ) { v.insertIntoArray( IT( i ), IT( j ), f, l ); } ); q.insert( q.begin() + j, vals.begin(), vals.end() ); break;
        default: c.op( "%zu view emplaceBackAtomic(%ld)", x, i ); v.template emplaceBackAtomic< RAJA::seq_atomic >( IT( i ), mk< T >( 79 ) ); q.push_back( 79 );
      }
      CHECK( c, a.toView().getValues() == p, "view-moved-values", "" ); othersKeepCapacity( -1 ); c.event( "view operations" );
    }
    else
    {
      Slot & o = slots[ 1 - x ];
      switch( r.below( 9 ) )
      {
        case 0: case 1: c.op( "copy assign %zu from %zu", x, 1 - x ); a = *o.a; m = o.m; break;
        case 2: c.op( "move assign %zu from %zu", x, 1 - x ); a = std::move( *o.a ); m = o.m; o.m.clear(); break;
        case 3: c.op( "copy construct %zu from %zu", x, 1 - x ); slots[ x ].a = std::make_unique< A >( *o.a ); m = o.m; break;
        case 4: c.op( "move construct %zu from %zu", x, 1 - x ); slots[ x ].a = std::make_unique< A >( std::move( *o.a ) ); m = o.m; o.m.clear(); break;
        case 5: { c.op( "self assign %zu", x ); A & s = a; a = s; break; }
        case 6:
        {
          // a view aliases the container and keeps doing so through copies of the view
          if( n == 0 || m[ std::size_t( i ) ].empty() ) continue;
          c.op( "%zu write through a view", x );
          auto const v = a.toView(); auto v2 = v; auto const vs = v2.toViewConstSizes(); long const j = r.range( 0, long( m[ std::size_t( i ) ].size() ) - 1 );
          if( r.chance( 50 ) ) v2( IT( i ), IT( j ) ) = mk< T >( 4321 ); else vs[ IT( i ) ][ IT( j ) ] = mk< T >( 4321 );
          m[ std::size_t( i ) ][ std::size_t( j ) ] = 4321; break;
        }
        case 7:
        {
          // the values change hands with a set and come back
          if( std::is_same< T, Pod >::value ) continue;
          c.op( "%zu through ArrayOfSets", x );
          LvArray::ArrayOfSets< T, IT, LV_BUF > s;
          s.assimilate( std::move( a ), LvArray::sortedArrayManipulation::UNSORTED_WITH_DUPLICATES );
          CHECK_EQ( c, long( a.size() ), 0L, "assimilated-source", "" );
          for( auto & q : m ) { std::vector< T > t = make( q ); std::sort( t.begin(), t.end() ); t.erase( std::unique( t.begin(), t.end() ), t.end() ); q.clear(); for( auto const & e : t ) q.push_back( bk( e ) ); }
          if( r.chance( 30 ) ) a.appendArray( 2 );
          a.assimilate( std::move( s ) ); CHECK_EQ( c, long( s.size() ), 0L, "assimilated-source", "" ); s.appendSet( 3 );
          break;
        }
        default: c.op( "free %zu and start again", x ); slots[ x ].a = std::make_unique< A >(); m.clear();
      }
      c.event( "ownership operations" );
    }
    audit( c, *slots[ x ].a, slots[ x ].m );
    audit( c, *slots[ 1 - x ].a, slots[ 1 - x ].m );
  }
  c.nontrivial = c.ops > 10;
}
static Register r1( "aoa/" ELEM_NAME "/int", hist< int, false >, 2 );
static Register r2( "aoa/" ELEM_NAME "/long", hist< std::ptrdiff_t, false >, 3 );
static Register r3( "aoaown/" ELEM_NAME "/long", hist< std::ptrdiff_t, true >, 3 );
H_MAIN()
