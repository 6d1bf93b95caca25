// SortedArray against a set model (set/), sortedArrayManipulation on raw ranges (sam/).
#include "array_util.hpp"
#include "SortedArray.hpp"
#include "sortedArrayManipulation.hpp"
#ifndef ELEM
  #define ELEM long
#endif
#ifndef ELEM_NAME
  #define ELEM_NAME "long"
#endif
using namespace H;
namespace sam = LvArray::sortedArrayManipulation;
// Zero is the empty string, which sorts first: keep every value positive.
template< typename T > T mkS( long v ) { return mk< T >( v + 9000 ); }
template< typename T > long bkS( T const & t ) { return bk( t ) - 9000; }

// Sorted distinct values, shaped in relation to what is already present.
static std::vector< long > batch( Rng & r, std::set< long > const & have, long universe, long most = 30 )
{
  std::set< long > s;
  long const k = r.chance( 8 ) ? 0 : r.chance( most > 30 ? 30 : 60 ) ? r.range( 1, 6 ) : r.range( 1, most );
  switch( r.below( 6 ) )
  {
    case 0: { long const b = have.empty() ? 0 : *have.rbegin(); for( long i = 0; i < k; ++i ) s.insert( b + 1 + r.range( 0, 20 ) ); break; }      // behind
    case 1: { long const b = have.empty() ? 0 : *have.begin(); for( long i = 0; i < k; ++i ) s.insert( b - 1 - r.range( 0, 20 ) ); break; }       // before
    case 2: { std::vector< long > h( have.begin(), have.end() ); for( long i = 0; i < k && !h.empty(); ++i ) s.insert( h[ r.below( h.size() ) ] ); break; } // only present ones
    case 3: { long const b = r.range( -universe, universe ); for( long i = 0; i < k; ++i ) s.insert( b + i ); break; }                            // a run
    default: for( long i = 0; i < k; ++i ) s.insert( r.range( -universe, universe ) );
  }
  return std::vector< long >( s.begin(), s.end() );
}
template< typename T > std::vector< T > make( std::vector< long > const & v ) { std::vector< T > r; for( long x : v ) r.push_back( mkS< T >( x ) ); return r; }

// ---------------------------------------------------------------------------------------- SortedArray
template< typename S, typename T > void compare( Ctx & c, S const & s, std::set< long > const & m, Rng & r, char const * when )
{
  using IT = typename S::IndexType;
  CHECK_EQ( c, long( s.size() ), long( m.size() ), "size", when );
  CHECK_EQ( c, s.empty(), m.empty(), "empty", when );
  CHECK( c, s.end() - s.begin() == long( m.size() ) && s.begin() == s.data(), "begin-end", when );
  long i = 0;
  for( long x : m )
  {
    ++c.checks;
    long const got = bkS( s[ IT( i ) ] );
    if( got != x ) c.fail( "value", std::string( when ) + ": position " + std::to_string( i ) + " holds " + std::to_string( got ) + ", expected " + std::to_string( x ) );
    CHECK( c, &s( IT( i ) ) == s.data() + i && &s[ IT( i ) ] == s.data() + i, "address", when );
    ++i;
  }
  auto const slice = s.toSlice();
  CHECK( c, slice.size() == s.size() && slice.begin() == s.data(), "slice", when );
  std::vector< long > probes; for( int k = 0; k < 6; ++k ) probes.push_back( r.range( -60, 60 ) );
  if( m.size() > 100 ) for( int k = 0; k < 12; ++k ) { auto it = m.begin(); std::advance( it, long( r.below( m.size() ) ) ); probes.push_back( *it + r.range( -1, 1 ) ); }
  if( !m.empty() ) { probes.push_back( *m.begin() ); probes.push_back( *m.rbegin() ); probes.push_back( *m.begin() - 1 ); probes.push_back( *m.rbegin() + 1 ); }
  for( long x : probes )
  {
    T const t = mkS< T >( x );
    CHECK_EQ( c, s.contains( t ), m.count( x ) != 0, "contains", when );
    CHECK_EQ( c, bool( s.count( t ) ), m.count( x ) != 0, "count", when );
  }
}
template< typename IT > void setCase( Ctx & c )
{
  using T = ELEM;
  using S = LvArray::SortedArray< T, IT, LV_BUF >;
  struct Slot { std::unique_ptr< S > s; std::set< long > m; };
  std::vector< Slot > slots( 2 ); for( auto & x : slots ) x.s = std::make_unique< S >();
  bool const large = c.rng.chance( 3 ); if( large ) c.event( "large cases" );
  long const universe = large ? 4000 : c.rng.chance( 30 ) ? 12 : c.rng.chance( 50 ) ? 40 : 300, most = large ? 1500 : 30;
  int const steps = large ? 14 : c.thorough ? 80 : 36;
  for( int k = 0; k < steps; ++k )
  {
    std::size_t const x = c.rng.chance( 75 ) ? 0 : 1;
    S & s = *slots[ x ].s; std::set< long > & m = slots[ x ].m;
    auto const cap = [&]() { return s.size(); };
    ( void ) cap;
    switch( c.rng.below( 16 ) )
    {
      case 0: case 1: case 2: case 3:
      { long const v = c.rng.range( -universe, universe ); c.op( "%zu insert(%ld)", x, v ); bool const e = m.insert( v ).second; CHECK_EQ( c, s.insert( mkS< T >( v ) ), e, "insert-result", "" ); break; }
      case 4: case 5:
      { long v = c.rng.range( -universe, universe ); if( !m.empty() && c.rng.chance( 50 ) ) { auto it = m.begin(); std::advance( it, long( c.rng.below( m.size() ) ) ); v = *it; } c.op( "%zu remove(%ld)", x, v ); bool const e = m.erase( v ) != 0; CHECK_EQ( c, s.remove( mkS< T >( v ) ), e, "remove-result", "" ); break; }
      case 6: case 7: case 8: case 9:
      {
        std::vector< long > const b = batch( c.rng, m, universe, most ); std::vector< T > const v = make< T >( b ); long e = 0; for( long q : b ) e += m.insert( q ).second;
        c.op( "%zu insert %zu values, %ld new", x, b.size(), e );
        long got;
        switch( c.rng.below( 3 ) ) { case 0: got = long( s.insert( v.begin(), v.end() ) ); break; case 1: got = long( s.insert( v.data(), v.data() + v.size() ) ); break; default: { std::list< T > l( v.begin(), v.end() ); got = long( s.insert( l.begin(), l.end() ) ); } }
        CHECK_EQ( c, got, e, "insert-count", "" ); c.event( "batch inserts" ); break;
      }
      case 10: case 11: case 12:
      {
        std::vector< long > const b = batch( c.rng, m, universe, most ); std::vector< T > const v = make< T >( b ); long e = 0; for( long q : b ) e += long( m.erase( q ) );
        c.op( "%zu remove %zu values, %ld present", x, b.size(), e );
        long got;
        switch( c.rng.below( 3 ) ) { case 0: got = long( s.remove( v.begin(), v.end() ) ); break; case 1: got = long( s.remove( v.data(), v.data() + v.size() ) ); break; default: { std::list< T > l( v.begin(), v.end() ); got = long( s.remove( l.begin(), l.end() ) ); } }
        CHECK_EQ( c, got, e, "remove-count", "" ); c.event( "batch removals" ); break;
      }
      case 13: if( c.rng.chance( 20 ) ) { c.op( "%zu clear", x ); s.clear(); m.clear(); } break;
      case 14:
      {
        long const n = c.rng.range( 0, large ? 3000 : 80 ); c.op( "%zu reserve(%ld)", x, n ); s.reserve( IT( n ) );
        T const * const p = s.data();
        if( n > long( m.size() ) && c.rng.chance( 60 ) )
        {
          // fill up to the reserved size: no reallocation
          std::vector< long > add; for( long q = universe + 1; long( m.size() + add.size() ) < n; ++q ) if( !m.count( q ) ) add.push_back( q );
          std::vector< T > const v = make< T >( add ); s.insert( v.begin(), v.end() ); m.insert( add.begin(), add.end() );
          CHECK( c, s.data() == p, "reserve-reallocated", "" );
        }
        break;
      }
      default:
      {
        Slot & o = slots[ 1 - x ];
        switch( c.rng.below( 6 ) )
        {
          case 0: c.op( "copy assign %zu from %zu", x, 1 - x ); s = *o.s; m = o.m; break;
          case 1: c.op( "move assign %zu from %zu", x, 1 - x ); s = std::move( *o.s ); m = o.m; o.m.clear(); break;
          case 2: c.op( "copy construct %zu from %zu", x, 1 - x ); slots[ x ].s = std::make_unique< S >( *o.s ); m = o.m; break;
          case 3: c.op( "move construct %zu from %zu", x, 1 - x ); slots[ x ].s = std::make_unique< S >( std::move( *o.s ) ); m = o.m; o.m.clear(); break;
          case 4: { c.op( "self assign %zu", x ); S & r = s; s = r; break; }
          default:
          {
            c.op( "view of %zu", x ); auto const v = via( c, s.toView(), o.s->toView() ); auto const w = v; auto u = s.toViewConst(); u = w;
            compare< std::decay_t< decltype( u ) >, T >( c, u, m, c.rng, "view" );
            CHECK( c, u.data() == s.data() && w.data() == s.data(), "view-storage", "" );
          }
        }
      }
    }
    for( auto & q : slots ) compare< S, T >( c, *q.s, q.m, c.rng, "after step" );
    if( slots[ 0 ].s->data() && slots[ 0 ].s->size() && slots[ 1 ].s->size() ) CHECK( c, slots[ 0 ].s->data() != slots[ 1 ].s->data(), "shared-storage", "" );
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------- raw ranges
// Sequences that steer partitioning sorts: patterns, few distinct values and the output of an adversary.
static std::vector< long > sequence( Rng & r, long n )
{
  std::vector< long > v( static_cast< std::size_t >( n ) );
  auto kind = r.below( 10 );
  for( long i = 0; i < n; ++i )
  {
    long x;
    switch( kind )
    {
      case 0: x = i; break;
      case 1: x = n - i; break;
      case 2: x = 7; break;
      case 3: x = i < n / 2 ? i : n - i; break;
      case 4: x = i % std::max( 1L, n / 7 ); break;
      case 5: x = r.range( 0, 3 ); break;
      case 6: x = i % 2 ? i : -i; break;
      case 7: x = r.chance( 95 ) ? i : r.range( 0, n ); break;
      default: x = r.range( -n * 2, n * 2 );
    }
    v[ std::size_t( i ) ] = x;
  }
  return v;
}
// McIlroy's adversary: answers comparisons so that a quicksort keeps choosing bad pivots.
struct Adversary
{
  std::vector< long > val; long gas, solid = 0, candidate = 0, ncmp = 0;
  explicit Adversary( long n ): val( std::size_t( n ), n ), gas( n ) {}
  bool less( long a, long b )
  {
    ++ncmp;
    if( val[ std::size_t( a ) ] == gas && val[ std::size_t( b ) ] == gas ) { if( a == candidate ) val[ std::size_t( a ) ] = solid++; else val[ std::size_t( b ) ] = solid++; }
    if( val[ std::size_t( a ) ] == gas ) candidate = a; else if( val[ std::size_t( b ) ] == gas ) candidate = b;
    return val[ std::size_t( a ) ] < val[ std::size_t( b ) ];
  }
};
struct AdvComp { Adversary * a; bool operator()( long const & x, long const & y ) const { return a->less( x, y ); } };

static long lengthOf( Ctx & c ) { return c.rng.chance( 8 ) ? c.rng.range( 0, 2 ) : c.rng.chance( 40 ) ? c.rng.range( 2, 40 ) : c.rng.chance( 50 ) ? c.rng.range( 60, 70 ) : c.rng.range( 65, c.thorough ? 2500 : 420 ); }

template< typename T > void sortCase( Ctx & c )
{
  long const n = lengthOf( c );
  std::vector< long > const src = sequence( c.rng, n );
  std::vector< long > ref = src; std::sort( ref.begin(), ref.end() );
  bool const desc = c.rng.chance( 40 );
  if( desc ) std::reverse( ref.begin(), ref.end() );
  std::vector< T > v = make< T >( src );
  auto toLong = []( std::vector< T > const & x ) { std::vector< long > r; for( auto const & t : x ) r.push_back( bkS( t ) ); return r; };
  int const how = int( c.rng.below( 5 ) );
  c.op( "sort %ld values way %d %s seed %lx", n, how, desc ? "descending" : "ascending", ( unsigned long ) c.rng.s );
  auto desC = []( T const & a, T const & b ) { return b < a; };
  bool const srcSorted = desc ? std::is_sorted( src.rbegin(), src.rend() ) : std::is_sorted( src.begin(), src.end() );
  if( desc ) CHECK_EQ( c, sam::isSorted( v.begin(), v.end(), sam::greater< T >() ), srcSorted, "is-sorted", "" ); else CHECK_EQ( c, sam::isSorted( v.begin(), v.end() ), srcSorted, "is-sorted", "" );
  bool const srcSU = srcSorted && std::adjacent_find( src.begin(), src.end() ) == src.end();
  if( desc ) CHECK_EQ( c, sam::isSortedUnique( v.begin(), v.end(), sam::greater< T >() ), srcSU, "is-sorted-unique", "" ); else CHECK_EQ( c, sam::isSortedUnique( v.begin(), v.end() ), srcSU, "is-sorted-unique", "" );
  if( how <= 1 )
  {
    if( desc ) { if( how ) sam::makeSorted( v.begin(), v.end(), sam::greater< T >() ); else sam::makeSorted( v.data(), v.data() + n, desC ); }
    else if( how ) sam::makeSorted( v.begin(), v.end() ); else sam::makeSorted( v.data(), v.data() + n );
    CHECK( c, toLong( v ) == ref, "sorted", "" );
  }
  else if( how == 2 )
  {
    // The two ranges move together: data carries the original position.
    std::vector< std::string > data; for( long i = 0; i < n; ++i ) data.push_back( mk< std::string >( i + 1 ) );
    LvArray::Array< long, 1, RAJA::PERM_I, std::ptrdiff_t, LV_BUF > data2( n ); for( long i = 0; i < n; ++i ) data2[ i ] = i + 1;
    bool const arr = c.rng.chance( 50 );
    if( desc ) { if( arr ) sam::dualSort( v.begin(), v.end(), data2.data(), sam::greater< T >() ); else sam::dualSort( v.data(), v.data() + n, data.begin(), sam::greater< T >() ); }
    else { if( arr ) sam::dualSort( v.begin(), v.end(), data2.data() ); else sam::dualSort( v.data(), v.data() + n, data.data() ); }
    CHECK( c, toLong( v ) == ref, "dual-sorted", "" );
    std::set< long > seen;
    for( long i = 0; i < n; ++i )
    {
      long const o = ( arr ? data2[ i ] : bk( data[ std::size_t( i ) ] ) ) - 1;
      CHECK( c, o >= 0 && o < n && seen.insert( o ).second, "dual-permutation", "" );
      CHECK_EQ( c, src[ std::size_t( o ) ], ref[ std::size_t( i ) ], "dual-paired", "" );
    }
    c.event( n > 64 ? "dual sorts beyond insertion sort" : "dual sorts by insertion" );
  }
  else if( how == 3 )
  {
    std::vector< long > u = ref; u.erase( std::unique( u.begin(), u.end() ), u.end() );
    long const got = long( desc ? sam::makeSortedUnique( v.begin(), v.end(), sam::greater< T >() ) : sam::makeSortedUnique( v.data(), v.data() + n ) );
    CHECK_EQ( c, got, long( u.size() ), "unique-count", "" );
    for( std::size_t i = 0; i < u.size(); ++i ) CHECK_EQ( c, bkS( v[ i ] ), u[ i ], "unique-value", "" );
  }
  else
  {
    std::vector< T > w = make< T >( ref ); std::vector< long > u = ref; u.erase( std::unique( u.begin(), u.end() ), u.end() );
    long got;
    if( c.rng.chance( 50 ) ) { std::list< T > l( w.begin(), w.end() ); got = long( desc ? sam::removeDuplicates( l.begin(), l.end(), sam::greater< T >() ) : sam::removeDuplicates( l.begin(), l.end() ) ); w.assign( l.begin(), l.end() ); }
    else got = long( desc ? sam::removeDuplicates( w.begin(), w.end(), desC ) : sam::removeDuplicates( w.begin(), w.end() ) );
    CHECK_EQ( c, got, long( u.size() ), "duplicates-count", "" );
    for( std::size_t i = 0; i < u.size(); ++i ) CHECK_EQ( c, bkS( w[ i ] ), u[ i ], "duplicates-value", "" );
    // searching
    std::vector< T > const su = make< T >( u );
    for( int k = 0; k < 30; ++k )
    {
      long const x = u.empty() || c.rng.chance( 40 ) ? c.rng.range( -n * 2 - 2, n * 2 + 2 ) : u[ c.rng.below( u.size() ) ];
      T const t = mkS< T >( x );
      long const e = desc ? long( std::lower_bound( u.begin(), u.end(), x, std::greater< long >() ) - u.begin() ) : long( std::lower_bound( u.begin(), u.end(), x ) - u.begin() );
      bool const in = std::find( u.begin(), u.end(), x ) != u.end();
      if( desc ) { CHECK_EQ( c, long( sam::find( su.data(), long( su.size() ), t, sam::greater< T >() ) ), e, "find", "" ); CHECK_EQ( c, sam::contains( su.data(), long( su.size() ), t, sam::greater< T >() ), in, "contains", "" ); }
      else { CHECK_EQ( c, long( sam::find( su.data(), long( su.size() ), t ) ), e, "find", "" ); CHECK_EQ( c, sam::contains( su.data(), long( su.size() ), t ), in, "contains", "" ); }
    }
  }
  c.nontrivial = n > 2;
}
void adversaryCase( Ctx & c )
{
  long const n = c.rng.range( 66, c.thorough ? 6000 : 900 );
  c.op( "dualSort against an adversary of %ld", n );
  Adversary adv( n );
  std::vector< long > idx, data; for( long i = 0; i < n; ++i ) { idx.push_back( i ); data.push_back( i * 3 ); }
  sam::dualSort( idx.begin(), idx.end(), data.begin(), AdvComp{ &adv } );
  c.event( "adversary comparisons", adv.ncmp );
  for( long i = 0; i + 1 < n; ++i ) CHECK( c, adv.val[ std::size_t( idx[ std::size_t( i ) ] ) ] <= adv.val[ std::size_t( idx[ std::size_t( i + 1 ) ] ) ], "adversary-sorted", "" );
  for( long i = 0; i < n; ++i ) CHECK_EQ( c, data[ std::size_t( i ) ], idx[ std::size_t( i ) ] * 3, "dual-paired", "" );
  // and the sequence it produced, as plain values
  std::vector< long > v = adv.val, d2; for( long i = 0; i < n; ++i ) d2.push_back( v[ std::size_t( i ) ] * 5 );
  sam::dualSort( v.begin(), v.end(), d2.begin() );
  for( long i = 0; i < n; ++i ) { if( i ) CHECK( c, v[ std::size_t( i - 1 ) ] <= v[ std::size_t( i ) ], "adversary-sorted", "" ); CHECK_EQ( c, d2[ std::size_t( i ) ], v[ std::size_t( i ) ] * 5, "dual-paired", "" ); }
  c.nontrivial = true;
}
// Orders under which different values are equivalent: records compared by a key, with a comparator that carries state.
struct Record { long key, id; };
static bool operator==( Record const & a, Record const & b ) { return a.key == b.key && a.id == b.id; }
static bool operator!=( Record const & a, Record const & b ) { return !( a == b ); }
static bool operator<( Record const & a, Record const & b ) { return a.id < b.id; }   // not the order that is asked for
static bool operator>( Record const & a, Record const & b ) { return a.id > b.id; }
struct ByKey { long width, sign; bool operator()( Record const & a, Record const & b ) const { return sign * cls( a ) < sign * cls( b ); } long cls( Record const & r ) const { return r.key >= 0 ? r.key / width : -( ( -r.key - 1 ) / width ) - 1; } };
void orderCase( Ctx & c )
{
  long const n = lengthOf( c );
  std::vector< long > const src = sequence( c.rng, n );
  ByKey const comp{ c.rng.chance( 40 ) ? 1 : c.rng.range( 2, 9 ), c.rng.chance( 50 ) ? 1 : -1 };
  std::vector< Record > v; for( long i = 0; i < n; ++i ) v.push_back( { src[ std::size_t( i ) ], i } );
  std::vector< Record > const orig = v;
  std::vector< long > ref; for( auto const & r : v ) ref.push_back( comp.sign * comp.cls( r ) );
  bool const wasSorted = std::is_sorted( ref.begin(), ref.end() ), wasUnique = wasSorted && std::adjacent_find( ref.begin(), ref.end() ) == ref.end();
  std::sort( ref.begin(), ref.end() );
  std::vector< long > classes = ref; classes.erase( std::unique( classes.begin(), classes.end() ), classes.end() );
  int const how = int( c.rng.below( 3 ) );
  c.op( "order by key: %ld records, width %ld, way %d", n, comp.width, how );
  CHECK_EQ( c, sam::isSorted( v.begin(), v.end(), comp ), wasSorted, "is-sorted", "by key" );
  CHECK_EQ( c, sam::isSortedUnique( v.begin(), v.end(), comp ), wasUnique, "is-sorted-unique", "by key" );
  auto const sane = [&]( std::vector< Record > const & x, std::size_t count )
  {
    std::set< long > ids;
    for( std::size_t i = 0; i < count; ++i ) { CHECK( c, x[ i ].id >= 0 && x[ i ].id < n && ids.insert( x[ i ].id ).second, "dual-permutation", "by key" ); CHECK_EQ( c, x[ i ].key, src[ std::size_t( x[ i ].id ) ], "unique-value", "by key: torn record" ); }
  };
  if( how == 0 )
  {
    sam::makeSorted( v.begin(), v.end(), comp );
    sane( v, v.size() );
    for( long i = 0; i < n; ++i ) CHECK_EQ( c, comp.sign * comp.cls( v[ std::size_t( i ) ] ), ref[ std::size_t( i ) ], "sorted", "by key" );
    for( int k = 0; k < 10; ++k )
    {
      Record const t{ c.rng.range( -n - 2, n + 2 ), -1 };
      CHECK_EQ( c, long( sam::find( v.data(), n, t, comp ) ), long( std::lower_bound( ref.begin(), ref.end(), comp.sign * comp.cls( t ) ) - ref.begin() ), "find", "by key" );
      // With records that are equivalent but not equal only the absence of the whole class decides the answer.
      if( !std::binary_search( ref.begin(), ref.end(), comp.sign * comp.cls( t ) ) ) CHECK( c, !sam::contains( v.data(), n, t, comp ), "contains", "by key: no record has this key" );
      if( n > 0 ) { Record const own = v[ std::size_t( std::lower_bound( ref.begin(), ref.end(), comp.sign * comp.cls( v[ std::size_t( k % n ) ] ) ) - ref.begin() ) ]; CHECK( c, sam::contains( v.data(), n, own, comp ), "contains", "by key: the first record of its key" ); }
    }
  }
  else if( how == 1 )
  {
    std::vector< long > data; for( long i = 0; i < n; ++i ) data.push_back( 7 * i );
    sam::dualSort( v.begin(), v.end(), data.begin(), comp );
    sane( v, v.size() );
    for( long i = 0; i < n; ++i ) { CHECK_EQ( c, comp.sign * comp.cls( v[ std::size_t( i ) ] ), ref[ std::size_t( i ) ], "dual-sorted", "by key" ); CHECK_EQ( c, data[ std::size_t( i ) ], 7 * v[ std::size_t( i ) ].id, "dual-paired", "by key" ); }
  }
  else
  {
    long const got = long( sam::makeSortedUnique( v.begin(), v.end(), comp ) );
    CHECK_EQ( c, got, long( classes.size() ), "unique-count", "by key" );
    sane( v, classes.size() );
    for( std::size_t i = 0; i < classes.size(); ++i ) CHECK_EQ( c, comp.sign * comp.cls( v[ i ] ), classes[ i ], "unique-value", "by key" );
    for( std::size_t i = 0; i < classes.size(); ++i )
    { CHECK_EQ( c, long( sam::find( v.data(), got, v[ i ], comp ) ), long( i ), "find", "by key" ); CHECK( c, sam::contains( v.data(), got, v[ i ], comp ), "contains", "by key" ); }
  }
  c.event( comp.width == 1 ? "sorts by a key" : "sorts by a coarse key" );
  c.nontrivial = n > 2;
}
// Records what the insertion and removal call backs announce and replays it on a shadow array.
struct Shadow : sam::CallBacks< ELEM >
{
  std::vector< long > * data; std::vector< long > const * vals; long incremented = -1;
  Shadow( std::vector< long > * d, std::vector< long > const * v ): data( d ), vals( v ) {}
  ELEM * incrementSize( ELEM * const p, std::ptrdiff_t const n ) { incremented = n; data->resize( data->size() + std::size_t( n ), -1 ); size += n; return p; }
  long size = 0;
  void insert( std::ptrdiff_t const pos ) { for( std::size_t i = data->size() - 1; long( i ) > pos; --i ) ( *data )[ i ] = ( *data )[ i - 1 ]; ( *data )[ std::size_t( pos ) ] = ( *vals )[ 0 ]; }
  void set( std::ptrdiff_t const pos, std::ptrdiff_t const vp ) { data->at( std::size_t( pos ) ) = vals->at( std::size_t( vp ) ); }
  void insert( std::ptrdiff_t const left, std::ptrdiff_t const vp, std::ptrdiff_t const pos, std::ptrdiff_t const prev )
  { for( std::ptrdiff_t i = prev - 1; i >= pos; --i ) data->at( std::size_t( i + left ) ) = data->at( std::size_t( i ) ); data->at( std::size_t( pos + left - 1 ) ) = vals->at( std::size_t( vp ) ); }
  void remove( std::ptrdiff_t const pos ) { data->erase( data->begin() + pos ); }
  void remove( std::ptrdiff_t const n, std::ptrdiff_t const cur, std::ptrdiff_t const next ) { for( std::ptrdiff_t i = cur + 1; i < next; ++i ) data->at( std::size_t( i - n ) ) = data->at( std::size_t( i ) ); }
};
template< typename T > void rawCase( Ctx & c )
{
  static_assert( std::is_same< T, ELEM >::value, "" );
  bool const large = c.rng.chance( 3 ); if( large ) c.event( "large cases" );
  long const CAP = large ? 4000 : 160, most = large ? 900 : 30;
  T * const p = static_cast< T * >( std::malloc( sizeof( T ) * CAP ) );
  struct Free { T * p; std::set< long > * m; ~Free() { for( std::size_t i = 0; i < m->size(); ++i ) p[ i ].~T(); std::free( p ); } };
  std::set< long > m;
  Free guard{ p, &m };
  long const universe = large ? 2500 : c.rng.chance( 50 ) ? 15 : 60;
  std::vector< long > data; // shadow of a second array following the call backs: 10 * value
  bool failed = true;
  struct OnExit { bool & f; std::set< long > & m; ~OnExit() { ( void ) f; ( void ) m; } } onExit{ failed, m };
  for( int k = 0; k < ( large ? 10 : 24 ); ++k )
  {
    long const n = long( m.size() );
    bool const one = c.rng.chance( 35 ), add = c.rng.chance( 60 );
    std::vector< long > b = one ? std::vector< long >{ c.rng.range( -universe, universe ) } : batch( c.rng, m, universe, most );
    if( n + long( b.size() ) > CAP ) continue;
    std::vector< long > tens; for( long q : b ) tens.push_back( q * 10 );
    std::vector< T > const v = make< T >( b );
    Shadow sh( &data, &tens );
    long e = 0, got;
    c.op( "%s %zu of %ld", add ? "insert" : "remove", b.size(), n );
    std::set< long > m2 = m;
    for( long q : b ) if( add ) e += m2.insert( q ).second; else e += long( m2.erase( q ) );
    if( add ) got = one ? long( sam::insert( p, n, v[ 0 ], sh ) ) : long( sam::insert( p, n, v.begin(), v.end(), sh ) );
    else
    {
      got = one ? long( sam::remove( p, n, v[ 0 ], sh ) ) : long( sam::remove( p, n, v.data(), v.data() + v.size(), sh ) );
      if( !one ) data.resize( std::size_t( n - e ) );
    }
    m = m2;
    CHECK_EQ( c, got, e, "raw-count", "" );
    // incrementSize may announce more than is inserted only into an empty array
    if( add && sh.incremented >= 0 && n > 0 ) CHECK_EQ( c, sh.incremented, e, "raw-increment", "" );
    if( add && n == 0 ) data.resize( m.size() );
    long i = 0;
    for( long x : m ) { CHECK_EQ( c, bkS( p[ i ] ), x, "raw-value", "" ); CHECK_EQ( c, data.at( std::size_t( i ) ), x * 10, "callbacks", "" ); ++i; }
    if( Life::live().size() ) for( long q = 0; q < CAP; ++q ) if( std::is_same< T, Tracked >::value || std::is_same< T, TrackedCopy >::value ) CHECK_EQ( c, Life::isLive( p + q ), q < long( m.size() ), "raw-liveness", "" );
  }
  c.nontrivial = true;
}

static int registerAll()
{
  Register( "set/" ELEM_NAME "/long", setCase< std::ptrdiff_t >, 2 );
  Register( "set/" ELEM_NAME "/int", setCase< int >, 1 );
  Register( "sam/sort/" ELEM_NAME, sortCase< ELEM >, 3 );
  Register( "sam/raw/" ELEM_NAME, rawCase< ELEM >, 3 );
  if( std::is_same< ELEM, long >::value ) Register( "sam/adversary", adversaryCase, 1 );
  if( std::is_same< ELEM, long >::value ) Register( "sam/order", orderCase, 2 );
  // What the descriptions say about themselves.
  if( std::is_same< ELEM, long >::value ) Register( "sam/description", []( Ctx & c ) {
    c.op( "descriptions" );
    CHECK( c, sam::isSorted( sam::SORTED_UNIQUE ) && sam::isSorted( sam::SORTED_WITH_DUPLICATES ) && !sam::isSorted( sam::UNSORTED_NO_DUPLICATES ) && !sam::isSorted( sam::UNSORTED_WITH_DUPLICATES ), "description", "" );
    CHECK( c, sam::isUnique( sam::SORTED_UNIQUE ) && !sam::isUnique( sam::SORTED_WITH_DUPLICATES ) && sam::isUnique( sam::UNSORTED_NO_DUPLICATES ) && !sam::isUnique( sam::UNSORTED_WITH_DUPLICATES ), "description", "" );
  }, 1 );
  return 0;
}
static int const registered = registerAll();
H_MAIN()
