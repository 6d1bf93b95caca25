// SparsityPattern (sp/, spown/) and CRSMatrix (crs/, crsown/) against maps.
#include "array_util.hpp"
#include "CRSMatrix.hpp"
#include "SparsityPattern.hpp"
#ifndef ELEM
  #define ELEM long
#endif
#ifndef ELEM_NAME
  #define ELEM_NAME "long"
#endif
using namespace H;
using T = ELEM;
#define Buf LV_BUF

static std::vector< long > someColumns( Rng & r, std::vector< long > const & have, long ncols, bool wide = false )
{
  std::set< long > s;
  if( ncols <= 0 ) return {};
  long const k = r.chance( 8 ) ? 0 : r.chance( wide ? 30 : 60 ) ? r.range( 1, 6 ) : r.range( 1, wide ? 900 : 40 );
  switch( r.below( 5 ) )
  {
    case 0: for( long i = 0; i < k && !have.empty(); ++i ) s.insert( have[ r.below( have.size() ) ] ); break;
    case 1: { long const b = r.range( 0, ncols - 1 ); for( long i = 0; i < k && b + i < ncols; ++i ) s.insert( b + i ); break; }
    case 2: for( long i = 0; i < k; ++i ) { long const q = ncols - 1 - r.range( 0, 9 ); if( q >= 0 ) s.insert( q ); } break;
    default: for( long i = 0; i < k; ++i ) s.insert( r.range( 0, ncols - 1 ) );
  }
  return std::vector< long >( s.begin(), s.end() );
}
// Random columns, at most room new ones.
template< typename M > std::vector< long > capColumns( std::vector< long > const & b, M const & row, long room )
{ std::vector< long > k; for( long z : b ) { if( row.count( z ) ) k.push_back( z ); else if( room > 0 ) { --room; k.push_back( z ); } } return k; }
static long keyOf( long x ) { return x; }
static long keyOf( std::pair< long const, long > const & x ) { return x.first; }
template< typename M > std::vector< long > keysOf( M const & m ) { std::vector< long > r; for( auto const & x : m ) r.push_back( keyOf( x ) ); return r; }
template< typename V > std::vector< long > caps( V const & v ) { std::vector< long > r; for( long i = 0; i < long( v.numRows() ); ++i ) r.push_back( long( v.nonZeroCapacity( typename std::decay< decltype( v.numRows() ) >::type( i ) ) ) ); return r; }
// Splits a vector of columns over several iterator kinds.
template< typename COL, typename F > auto withRange( Rng & r, std::vector< COL > const & v, F && f )
{
  switch( r.below( 3 ) )
  {
    case 0: { std::list< COL > l( v.begin(), v.end() ); return f( l.begin(), l.end() ); }
    case 1: return f( v.data(), v.data() + v.size() );
    default: return f( v.begin(), v.end() );
  }
}

// The structure, common to patterns and matrices. ROW is a std::set or a std::map.
template< typename V, typename ROW > void compareStructure( Ctx & c, V const & a, std::vector< ROW > const & m, long ncols, char const * what )
{
  using IT = typename std::decay< decltype( a.numRows() ) >::type;
  using COL = typename std::remove_const< typename V::ColType >::type;
  CHECK_EQ( c, long( a.numRows() ), long( m.size() ), "rows", what );
  CHECK_EQ( c, long( a.numColumns() ), ncols, "columns", what );
  long total = 0;
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    total += long( m[ i ].size() );
    CHECK_EQ( c, long( a.numNonZeros( IT( i ) ) ), long( m[ i ].size() ), "row-size", what );
    CHECK_EQ( c, a.empty( IT( i ) ), m[ i ].empty(), "row-empty", what );
    auto const s = a.getColumns( IT( i ) );
    CHECK_EQ( c, long( s.size() ), long( m[ i ].size() ), "slice-size", what );
    long j = 0;
    for( auto const & e : m[ i ] )
    {
      ++c.checks;
      if( long( s[ IT( j ) ] ) != keyOf( e ) ) c.fail( "column", std::string( what ) + ": column (" + std::to_string( i ) + "," + std::to_string( j ) + ") is " + std::to_string( long( s[ IT( j ) ] ) ) + ", expected " + std::to_string( keyOf( e ) ) );
      ++j;
    }
    for( int k = 0; k < 2 && ncols > 0; ++k )
    {
      long v = c.rng.range( 0, ncols - 1 );
      if( k == 1 && !m[ i ].empty() ) v = keysOf( m[ i ] )[ c.rng.below( m[ i ].size() ) ];
      CHECK_EQ( c, a.empty( IT( i ), COL( v ) ), m[ i ].count( v ) == 0, "entry-empty", what );
    }
  }
  CHECK_EQ( c, long( a.numNonZeros() ), total, "total", what );
  CHECK_EQ( c, a.empty(), total == 0, "empty", what );
}
template< typename A, typename ROW > void auditStructure( Ctx & c, A & a, std::vector< ROW > const & m, long ncols )
{
  using IT = typename A::IndexType;
  A blank; auto const v = via( c, a.toView(), blank.toView() ); auto const vc = via( c, a.toViewConst(), blank.toViewConst() );
  CHECK( c, v.getColumns() == a.getColumns() && vc.getColumns() == a.getColumns() && v.getOffsets() == a.getOffsets() && vc.getOffsets() == a.getOffsets() && v.getSizes() == vc.getSizes(), "view-storage", "" );
  long total = 0;
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    long const cap = long( a.nonZeroCapacity( IT( i ) ) );
    CHECK( c, cap >= long( m[ i ].size() ), "capacity-below-size", "" );
    CHECK( c, long( v.nonZeroCapacity( IT( i ) ) ) == cap && long( vc.nonZeroCapacity( IT( i ) ) ) == cap, "view-capacity", "" );
    CHECK_EQ( c, long( a.getOffsets()[ i ] ), total, "regions-overlap", "" );
    CHECK_EQ( c, long( v.getSizes()[ i ] ), long( m[ i ].size() ), "sizes", "" );
    if( !m[ i ].empty() ) CHECK( c, &a.getColumns( IT( i ) )[ 0 ] == a.getColumns() + total, "region", "" );
    total += cap;
  }
  CHECK_EQ( c, long( a.getOffsets()[ m.size() ] ), total, "regions-overlap", "" );
  CHECK( c, long( a.nonZeroCapacity() ) >= total, "value-capacity", "" );
  ( void ) ncols;
}

#if defined( WITH_SP )
// ---------------------------------------------------------------------------------------- SparsityPattern
template< typename COL, typename IT > void auditSp( Ctx & c, LvArray::SparsityPattern< COL, IT, Buf > & a, std::vector< std::set< long > > const & m, long ncols )
{
  compareStructure( c, a, m, ncols, "pattern" );
  LvArray::SparsityPattern< COL, IT, Buf > blank;
  if( c.rng.chance( 50 ) ) compareStructure( c, via( c, a.toView(), blank.toView() ), m, ncols, "view" ); else compareStructure( c, via( c, a.toViewConst(), blank.toViewConst() ), m, ncols, "constant view" );
  auditStructure( c, a, m, ncols );
}
template< typename COL, typename IT, bool OWN > void spHist( Ctx & c )
{
  using A = LvArray::SparsityPattern< COL, IT, Buf >;
  struct Slot { std::unique_ptr< A > a; std::vector< std::set< long > > m; long nc; };
  Rng & r = c.rng;
  // A few cases have hundreds of rows or rows of hundreds of columns.
  int const large = r.chance( 4 ) ? int( r.range( 1, 2 ) ) : 0; if( large ) c.event( "large cases" );
  long const many = large == 1 ? 40 : 1, wide = large == 2 && sizeof( COL ) > 1 ? 40 : 1;
  long const maxCols = wide > 1 ? 3000 : sizeof( COL ) == 1 ? 127 : r.chance( 50 ) ? 30 : 400;
  std::vector< Slot > slots( 2 );
  for( auto & s : slots )
  {
    long const n = r.range( 0, 6 * many ), k = r.chance( 50 ) ? 0 : r.range( 0, 5 * wide ); s.nc = r.chance( 10 ) ? r.range( 0, 3 ) : r.range( 1, maxCols );
    if( r.chance( 10 ) ) { s.a = std::make_unique< A >(); s.nc = 0; } else { s.a = std::make_unique< A >( IT( n ), IT( s.nc ), IT( k ) ); s.m.resize( std::size_t( n ) ); }
    for( long q : caps( *s.a ) ) CHECK_EQ( c, q, k, "constructor-capacity", "" );
    if( large && s.nc ) for( std::size_t q = 0; q < s.m.size(); ++q ) for( int z = 0; z < 3; ++z ) { long const v = r.range( 0, s.nc - 1 ); s.a->insertNonZero( IT( q ), COL( v ) ); s.m[ q ].insert( v ); }
  }
  int const steps = large ? 16 : c.thorough ? 90 : 40;
  for( int k = 0; k < steps; ++k )
  {
    std::size_t const x = r.chance( OWN ? 50 : 80 ) ? 0 : 1;
    A & a = *slots[ x ].a; auto & m = slots[ x ].m; long & nc = slots[ x ].nc;
    long const n = long( m.size() ), i = n ? r.range( 0, n - 1 ) : -1;
    std::vector< long > const before = caps( a );
    auto const others = [&]( long except ) { std::vector< long > const now = caps( a ); for( long q = 0; q < long( now.size() ); ++q ) if( q != except ) CHECK_EQ( c, now[ std::size_t( q ) ], before[ std::size_t( q ) ], "other-capacity", "" ); };
    int const what = OWN && r.chance( 45 ) ? 100 : int( r.below( 30 ) );
    if( what == 0 )
    {
      long most = -1; for( auto const & q : m ) if( !q.empty() ) most = std::max( most, *q.rbegin() );
      long const nn = r.small( 9 * many ), cap = r.chance( 50 ) ? 0 : r.range( 0, 5 * wide ); nc = std::max( most + 1, r.range( 0, maxCols ) );
      c.op( "%zu resize(%ld,%ld,%ld)", x, nn, nc, cap ); a.resize( IT( nn ), IT( nc ), IT( cap ) ); m.resize( std::size_t( nn ) );
      for( long q = 0; q < nn; ++q ) CHECK_EQ( c, caps( a )[ std::size_t( q ) ], q < n ? before[ std::size_t( q ) ] : cap, "resize-capacity", "" );
    }
    else if( what == 1 ) { long const q = r.range( 0, 20 * many ); c.op( "%zu reserveRows(%ld)", x, q ); a.reserveRows( IT( q ) ); others( -1 ); }
    else if( what == 2 ) { long const q = r.range( 0, 120 * many * wide ); c.op( "%zu reserveNonZeros(%ld)", x, q ); a.reserveNonZeros( IT( q ) ); CHECK( c, long( a.nonZeroCapacity() ) >= q, "reserve-values", "" ); others( -1 ); }
    else if( what == 3 || what == 4 )
    {
      if( n > 12 * many ) continue;
      long const cap = r.chance( 40 ) ? 0 : r.range( 0, 8 ); c.op( "%zu appendRow(%ld)", x, cap ); if( cap == 0 && r.chance( 50 ) ) a.appendRow(); else a.appendRow( IT( cap ) ); m.emplace_back();
      CHECK( c, caps( a ).back() >= std::min( cap, nc ), "append-capacity", "" ); others( n );
    }
    else if( what <= 9 )
    {
      if( n == 0 || nc == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const v = r.range( 0, nc - 1 ); c.op( "%zu insertNonZero(%ld,%ld)", x, i, v );
      bool const e = q.insert( v ).second; CHECK_EQ( c, a.insertNonZero( IT( i ), COL( v ) ), e, "insert-result", "" ); others( i );
    }
    else if( what <= 14 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; auto const b = someColumns( r, keysOf( q ), nc, wide > 1 ); std::vector< COL > const v( b.begin(), b.end() ); long e = 0; for( long z : b ) e += q.insert( z ).second;
      c.op( "%zu insertNonZeros(%ld, %zu columns, %ld new)", x, i, b.size(), e );
      CHECK_EQ( c, withRange( r, v, [&]( auto f, auto l ) { return long( a.insertNonZeros( IT( i ), f, l ) ); } ), e, "insert-count", "" ); others( i );
    }
    else if( what <= 17 )
    {
      if( n == 0 || nc == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long v = r.range( 0, nc - 1 ); if( !q.empty() && r.chance( 60 ) ) v = keysOf( q )[ r.below( q.size() ) ];
      c.op( "%zu removeNonZero(%ld,%ld)", x, i, v ); bool const e = q.erase( v ) != 0;
      CHECK_EQ( c, r.chance( 50 ) ? a.removeNonZero( IT( i ), COL( v ) ) : a.toView().removeNonZero( IT( i ), COL( v ) ), e, "remove-result", "" ); others( -1 );
    }
    else if( what <= 21 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; auto const b = someColumns( r, keysOf( q ), nc, wide > 1 ); std::vector< COL > const v( b.begin(), b.end() ); long e = 0; for( long z : b ) e += long( q.erase( z ) );
      c.op( "%zu removeNonZeros(%ld, %zu columns, %ld present)", x, i, b.size(), e ); bool const view = r.chance( 50 );
      CHECK_EQ( c, withRange( r, v, [&]( auto f, auto l ) { return view ? long( a.toView().removeNonZeros( IT( i ), f, l ) ) : long( a.removeNonZeros( IT( i ), f, l ) ); } ), e, "remove-count", "" ); others( -1 );
    }
    else if( what == 22 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const cap = r.chance( 30 ) ? r.small( long( q.size() ) ) : r.range( 0, 40 * wide ); c.op( "%zu setRowCapacity(%ld,%ld) of %ld columns", x, i, cap, nc );
      a.setRowCapacity( IT( i ), IT( cap ) ); while( long( q.size() ) > cap ) q.erase( std::prev( q.end() ) );
      CHECK_EQ( c, caps( a )[ std::size_t( i ) ], std::min( cap, nc ), "set-capacity", "" ); others( i );
    }
    else if( what == 23 )
    {
      if( n == 0 ) continue;
      long const cap = r.range( 0, 40 * wide ); c.op( "%zu reserveNonZeros(%ld,%ld)", x, i, cap ); a.reserveNonZeros( IT( i ), IT( cap ) );
      CHECK( c, caps( a )[ std::size_t( i ) ] >= std::min( cap, nc ), "reserve-row", "" ); others( i );
    }
    else if( what == 24 ) { c.op( "%zu compress", x ); a.compress(); for( long q = 0; q < n; ++q ) CHECK_EQ( c, caps( a )[ std::size_t( q ) ], long( m[ std::size_t( q ) ].size() ), "compress-capacity", "" ); }
    else if( what == 25 )
    {
      if( !r.chance( 40 ) ) continue;
      long const nn = r.range( 0, 9 * many ); nc = r.range( 0, maxCols ); std::vector< IT > cp; for( long q = 0; q < nn; ++q ) cp.push_back( IT( r.small( std::min( nc, 8L * wide ) ) ) );
      c.op( "%zu resizeFromRowCapacities(%ld,%ld)", x, nn, nc ); a.template resizeFromRowCapacities< RAJA::seq_exec >( IT( nn ), IT( nc ), cp.data() ); m.assign( std::size_t( nn ), {} );
      std::vector< long > const now = caps( a ); CHECK_EQ( c, now.size(), cp.size(), "from-capacities", "" ); for( long q = 0; q < nn; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], long( cp[ std::size_t( q ) ] ), "from-capacities", "" );
    }
    else if( what <= 29 )
    {
      if( n == 0 || nc == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; auto const v = a.toView(); auto const * const p = v.getColumns(); long const room = before[ std::size_t( i ) ] - long( q.size() );
      if( r.chance( 50 ) )
      {
        long const val = r.range( 0, nc - 1 ); if( !q.count( val ) && room <= 0 ) continue;
        c.op( "%zu view insertNonZero(%ld,%ld)", x, i, val ); bool const e = q.insert( val ).second; CHECK_EQ( c, v.insertNonZero( IT( i ), COL( val ) ), e, "view-insert-result", "" );
      }
      else
      {
        auto const b = capColumns( someColumns( r, keysOf( q ), nc, wide > 1 ), q, room ); std::vector< COL > const w( b.begin(), b.end() ); long e = 0; for( long z : b ) e += q.insert( z ).second;
        c.op( "%zu view insertNonZeros(%ld, %zu columns, %ld new)", x, i, b.size(), e );
        CHECK_EQ( c, withRange( r, w, [&]( auto f, auto l ) { return long( v.insertNonZeros( IT( i ), f, l ) ); } ), e, "view-insert-count", "" );
      }
      CHECK( c, a.toView().getColumns() == p, "view-moved-values", "" ); others( -1 ); c.event( "view operations" );
    }
    else
    {
      Slot & o = slots[ 1 - x ];
      switch( r.below( 6 ) )
      {
        case 0: c.op( "copy assign %zu from %zu", x, 1 - x ); a = *o.a; m = o.m; nc = o.nc; break;
        case 1: c.op( "move assign %zu from %zu", x, 1 - x ); a = std::move( *o.a ); m = o.m; nc = o.nc; o.m.clear(); o.nc = 0; break;
        case 2: c.op( "copy construct %zu from %zu", x, 1 - x ); slots[ x ].a = std::make_unique< A >( *o.a ); m = o.m; nc = o.nc; break;
        case 3: c.op( "move construct %zu from %zu", x, 1 - x ); slots[ x ].a = std::make_unique< A >( std::move( *o.a ) ); m = o.m; nc = o.nc; o.m.clear(); o.nc = 0; break;
        case 4: { c.op( "self assign %zu", x ); A & s = a; a = s; break; }
        default: c.op( "free %zu and start again", x ); slots[ x ].a = std::make_unique< A >( IT( 2 ), IT( 9 ), IT( 3 ) ); m.assign( 2, {} ); nc = 9;
      }
      c.event( "ownership operations" );
    }
    auditSp< COL, IT >( c, *slots[ x ].a, slots[ x ].m, slots[ x ].nc );
    auditSp< COL, IT >( c, *slots[ 1 - x ].a, slots[ 1 - x ].m, slots[ 1 - x ].nc );
  }
  c.nontrivial = c.ops > 10;
}
static Register p1( "sp/int/int", spHist< int, int, false >, 2 );
static Register p2( "sp/long/long", spHist< long, std::ptrdiff_t, false >, 2 );
static Register p3( "sp/unsigned/long", spHist< unsigned, std::ptrdiff_t, false >, 2 );
static Register p4( "sp/char/int", spHist< signed char, int, false >, 1 );
static Register p5( "spown/long/long", spHist< long, std::ptrdiff_t, true >, 3 );
static Register p6( "spown/unsigned/int", spHist< unsigned, int, true >, 1 );
#endif

#if defined( WITH_CRS )
// ---------------------------------------------------------------------------------------- CRSMatrix
using Row = std::map< long, long >;
template< typename V > void compareEntries( Ctx & c, V const & a, std::vector< Row > const & m, char const * what )
{
  using IT = typename std::decay< decltype( a.numRows() ) >::type;
  for( std::size_t i = 0; i < m.size(); ++i )
  {
    auto const s = a.getEntries( IT( i ) ); CHECK_EQ( c, long( s.size() ), long( m[ i ].size() ), "entries-size", what );
    if( !m[ i ].empty() ) CHECK( c, &s[ 0 ] == a.getEntries() + a.getOffsets()[ i ], "entries-region", what );
    long j = 0;
    for( auto const & e : m[ i ] )
    {
      ++c.checks; long const got = bk( s[ IT( j ) ] );
      if( got != e.second ) c.fail( "entry", std::string( what ) + ": the entry of row " + std::to_string( i ) + ", column " + std::to_string( e.first ) + " is " + std::to_string( got ) + ", expected " + std::to_string( e.second ) );
      ++j;
    }
  }
}
template< typename A > void auditCrs( Ctx & c, A & a, std::vector< Row > const & m, long ncols )
{
  compareStructure( c, a, m, ncols, "matrix" ); compareEntries( c, a.toViewConst(), m, "matrix" ); 
  A blank; auto const v = via( c, a.toView(), blank.toView() ); auto const vs = via( c, a.toViewConstSizes(), blank.toViewConstSizes() ); auto const vp = via( c, a.toSparsityPatternView(), blank.toSparsityPatternView() );
  switch( c.rng.below( 3 ) )
  {
    case 0: compareStructure( c, v, m, ncols, "view" ); compareEntries( c, v, m, "view" ); break;
    case 1: compareStructure( c, vs, m, ncols, "view with constant sizes" ); compareEntries( c, vs, m, "view with constant sizes" ); break;
    default: compareStructure( c, vp, m, ncols, "pattern view" );
  }
  CHECK( c, vp.getColumns() == v.getColumns() && vs.getColumns() == v.getColumns() && vs.getEntries() == v.getEntries() && a.getEntries() == v.getEntries(), "view-storage", "" );
  auditStructure( c, a, m, ncols );
}
template< typename A, typename IT, typename COL, bool ARITH > struct Arith
{ static void add( Ctx &, A &, std::vector< Row > &, long ) {} static void zero( Ctx &, A &, std::vector< Row > & ) {} };
template< typename A, typename IT, typename COL > struct Arith< A, IT, COL, true >
{
  static void add( Ctx & c, A & a, std::vector< Row > & m, long i )
  {
    Rng & r = c.rng; Row & q = m[ std::size_t( i ) ]; auto const keys = keysOf( q );
    std::set< long > s; long const nnz = long( keys.size() );
    long const want = nnz == 0 ? 0 : r.chance( 40 ) ? r.range( 0, std::max( 0L, nnz / 4 ) ) : r.chance( 20 ) ? nnz : r.range( 0, nnz );
    while( long( s.size() ) < want ) s.insert( keys[ r.below( keys.size() ) ] );
    if( want == 0 && nnz && r.chance( 70 ) ) s.insert( r.chance( 50 ) ? keys.back() : keys.front() );
    std::vector< COL > cols( s.begin(), s.end() ); std::vector< T > vals; int const how = int( r.below( 4 ) );
    if( how == 3 ) for( std::size_t z = cols.size(); z > 1; --z ) std::swap( cols[ z - 1 ], cols[ r.below( z ) ] );
    for( auto k : cols ) { long const d = r.range( 1, 900 ); vals.push_back( mk< T >( d ) ); q[ long( k ) ] += d; }
    c.op( "add to %zu of %ld columns of row %ld, method %d", cols.size(), nnz, i, how );
    bool const view = r.chance( 50 ), sizes = r.chance( 50 ); IT const n = IT( cols.size() );
    auto const go = [&]( auto const & x )
    {
      switch( how )
      {
        case 0: x.template addToRow< RAJA::seq_atomic >( IT( i ), cols.data(), vals.data(), n ); break;
        case 1: x.template addToRowBinarySearch< RAJA::seq_atomic >( IT( i ), cols.data(), vals.data(), n ); break;
        case 2: x.template addToRowLinearSearch< RAJA::seq_atomic >( IT( i ), cols.data(), vals.data(), n ); break;
        default: x.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( IT( i ), cols.data(), vals.data(), n );
      }
    };
    if( !view ) go( a ); else if( sizes ) go( a.toViewConstSizes() ); else go( a.toView() );
    c.event( "row additions" );
    if( nnz > 64 && n < nnz / 4 ) c.event( "row additions where addToRow searches binarily" );
  }
  static void zero( Ctx & c, A & a, std::vector< Row > & m )
  { c.op( "zero" ); if( c.rng.chance( 50 ) ) a.zero(); else a.toView().zero(); for( auto & q : m ) for( auto & e : q ) e.second = 0; }
};
template< typename COL, typename IT, bool OWN > void crsHist( Ctx & c )
{
  using A = LvArray::CRSMatrix< T, COL, IT, Buf >;
  using SP = LvArray::SparsityPattern< COL, IT, Buf >;
  using AR = Arith< A, IT, COL, std::is_same< T, long >::value || std::is_same< T, float >::value >;
  struct Slot { std::unique_ptr< A > a; std::vector< Row > m; long nc; };
  Rng & r = c.rng;
  // A few cases have hundreds of rows or rows of hundreds of columns.
  int const large = r.chance( 4 ) ? int( r.range( 1, 2 ) ) : 0; if( large ) c.event( "large cases" );
  long const many = large == 1 ? 40 : 1, wide = large == 2 && sizeof( COL ) > 1 ? 40 : 1;
  bool const dense = wide > 1 || ( !OWN && r.chance( 15 ) );
  long const maxCols = wide > 1 ? 2000 : dense ? 200 : sizeof( COL ) == 1 ? 127 : r.chance( 60 ) ? 25 : 300;
  std::vector< Slot > slots( 2 );
  for( auto & s : slots )
  {
    long const n = r.range( 0, 5 * many ), k = r.chance( 50 ) ? 0 : r.range( 0, 5 * wide ); s.nc = r.chance( 10 ) ? r.range( 0, 3 ) : r.range( dense ? 150 : 1, maxCols );
    if( r.chance( 10 ) ) { s.a = std::make_unique< A >(); s.nc = 0; } else { s.a = std::make_unique< A >( IT( n ), IT( s.nc ), IT( k ) ); s.m.resize( std::size_t( n ) ); }
    for( long q : caps( *s.a ) ) CHECK_EQ( c, q, k, "constructor-capacity", "" );
    if( large && s.nc ) for( std::size_t q = 0; q < s.m.size(); ++q ) for( int z = 0; z < 3; ++z ) { long const v = r.range( 0, s.nc - 1 ), val = r.range( 1, 20000 ); s.a->insertNonZero( IT( q ), COL( v ), mk< T >( val ) ); s.m[ q ].emplace( v, val ); }
  }
  auto const entriesFor = [&]( std::size_t k, std::vector< long > & vals ) { std::vector< T > e; for( std::size_t z = 0; z < k; ++z ) { vals.push_back( r.range( 1, 20000 ) ); e.push_back( mk< T >( vals.back() ) ); } return e; };
  int const steps = large ? 16 : c.thorough ? 90 : 40;
  for( int k = 0; k < steps; ++k )
  {
    std::size_t const x = r.chance( OWN ? 50 : 80 ) ? 0 : 1;
    A & a = *slots[ x ].a; auto & m = slots[ x ].m; long & nc = slots[ x ].nc;
    long const n = long( m.size() ), i = n ? r.range( 0, n - 1 ) : -1;
    std::vector< long > const before = caps( a );
    auto const others = [&]( long except ) { std::vector< long > const now = caps( a ); for( long q = 0; q < long( now.size() ); ++q ) if( q != except ) CHECK_EQ( c, now[ std::size_t( q ) ], before[ std::size_t( q ) ], "other-capacity", "" ); };
    int const what = OWN && r.chance( 45 ) ? 100 : int( r.below( 34 ) );
    if( what == 0 )
    {
      long most = -1; for( auto const & q : m ) if( !q.empty() ) most = std::max( most, q.rbegin()->first );
      long const nn = r.small( 9 * many ), cap = r.chance( 50 ) ? 0 : r.range( 0, 5 * wide ); nc = std::max( most + 1, r.range( 0, maxCols ) );
      c.op( "%zu resize(%ld,%ld,%ld)", x, nn, nc, cap ); a.resize( IT( nn ), IT( nc ), IT( cap ) ); m.resize( std::size_t( nn ) );
      for( long q = 0; q < nn; ++q ) CHECK_EQ( c, caps( a )[ std::size_t( q ) ], q < n ? before[ std::size_t( q ) ] : cap, "resize-capacity", "" );
    }
    else if( what == 1 ) { long const q = r.range( 0, 120 * many * wide ); c.op( "%zu reserveNonZeros(%ld)", x, q ); a.reserveNonZeros( IT( q ) ); CHECK( c, long( a.nonZeroCapacity() ) >= q, "reserve-values", "" ); others( -1 ); }
    else if( what <= 5 )
    {
      if( n == 0 || nc == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const v = r.range( 0, nc - 1 ), val = r.range( 1, 20000 ); c.op( "%zu insertNonZero(%ld,%ld)", x, i, v );
      bool const e = q.emplace( v, val ).second; CHECK_EQ( c, a.insertNonZero( IT( i ), COL( v ), mk< T >( val ) ), e, "insert-result", "" ); others( i );
    }
    else if( what <= 11 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; auto b = someColumns( r, keysOf( q ), nc, wide > 1 );
      if( dense && nc > 0 && r.chance( 40 ) ) { b.clear(); long const lo = r.range( 0, nc - 1 ), hi = r.range( lo, nc - 1 ); for( long z = lo; z <= hi; ++z ) b.push_back( z ); }
      std::vector< COL > const v( b.begin(), b.end() ); std::vector< long > vals; auto const e = entriesFor( b.size(), vals ); long nw = 0;
      for( std::size_t z = 0; z < b.size(); ++z ) nw += q.emplace( b[ z ], vals[ z ] ).second;
      c.op( "%zu insertNonZeros(%ld, %zu columns, %ld new)", x, i, b.size(), nw );
      CHECK_EQ( c, long( a.insertNonZeros( IT( i ), v.data(), e.data(), IT( b.size() ) ) ), nw, "insert-count", "" ); others( i );
      for( std::size_t z = 0; z < b.size(); ++z ) CHECK_EQ( c, bk( e[ z ] ), vals[ z ], "insert-changed-source", "" );
    }
    else if( what <= 14 )
    {
      if( n == 0 || nc == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long v = r.range( 0, nc - 1 ); if( !q.empty() && r.chance( 60 ) ) v = keysOf( q )[ r.below( q.size() ) ];
      c.op( "%zu removeNonZero(%ld,%ld)", x, i, v ); bool const e = q.erase( v ) != 0;
      CHECK_EQ( c, r.chance( 50 ) ? a.removeNonZero( IT( i ), COL( v ) ) : a.toView().removeNonZero( IT( i ), COL( v ) ), e, "remove-result", "" ); others( -1 );
    }
    else if( what <= 17 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; auto const b = someColumns( r, keysOf( q ), nc, wide > 1 ); std::vector< COL > const v( b.begin(), b.end() ); long e = 0; for( long z : b ) e += long( q.erase( z ) );
      c.op( "%zu removeNonZeros(%ld, %zu columns, %ld present)", x, i, b.size(), e );
      CHECK_EQ( c, r.chance( 50 ) ? long( a.toView().removeNonZeros( IT( i ), v.data(), IT( v.size() ) ) ) : long( a.removeNonZeros( IT( i ), v.data(), IT( v.size() ) ) ), e, "remove-count", "" ); others( -1 );
    }
    else if( what == 18 )
    {
      if( n == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; long const cap = r.chance( 30 ) ? r.small( long( q.size() ) ) : r.range( 0, 40 * wide ); c.op( "%zu setRowCapacity(%ld,%ld) of %ld columns", x, i, cap, nc );
      a.setRowCapacity( IT( i ), IT( cap ) ); while( long( q.size() ) > cap ) q.erase( std::prev( q.end() ) );
      CHECK_EQ( c, caps( a )[ std::size_t( i ) ], std::min( cap, nc ), "set-capacity", "" ); others( i );
    }
    else if( what == 19 )
    {
      if( n == 0 ) continue;
      long const cap = r.range( 0, 40 * wide ); c.op( "%zu reserveNonZeros(%ld,%ld)", x, i, cap ); a.reserveNonZeros( IT( i ), IT( cap ) );
      CHECK( c, caps( a )[ std::size_t( i ) ] >= std::min( cap, nc ), "reserve-row", "" ); others( i );
    }
    else if( what == 20 ) { c.op( "%zu compress", x ); a.compress(); for( long q = 0; q < n; ++q ) CHECK_EQ( c, caps( a )[ std::size_t( q ) ], long( m[ std::size_t( q ) ].size() ), "compress-capacity", "" ); }
    else if( what == 21 )
    {
      if( !r.chance( 40 ) ) continue;
      long const nn = r.range( 0, 9 * many ); nc = r.range( 0, maxCols ); std::vector< IT > cp; for( long q = 0; q < nn; ++q ) cp.push_back( IT( r.small( std::min( nc, 8L * wide ) ) ) );
      c.op( "%zu resizeFromRowCapacities(%ld,%ld)", x, nn, nc ); a.template resizeFromRowCapacities< RAJA::seq_exec >( IT( nn ), IT( nc ), cp.data() ); m.assign( std::size_t( nn ), {} );
      std::vector< long > const now = caps( a ); CHECK_EQ( c, now.size(), cp.size(), "from-capacities", "" ); for( long q = 0; q < nn; ++q ) CHECK_EQ( c, now[ std::size_t( q ) ], long( cp[ std::size_t( q ) ] ), "from-capacities", "" );
    }
    else if( what == 22 )
    { long const v = r.range( 1, 999 ); c.op( "%zu setValues", x ); T const t = mk< T >( v ); if( r.chance( 50 ) ) a.template setValues< RAJA::seq_exec >( t ); else a.toViewConstSizes().template setValues< RAJA::seq_exec >( t ); for( auto & q : m ) for( auto & e : q ) e.second = v; }
    else if( what == 23 ) { if( std::is_trivially_copyable< T >::value ) AR::zero( c, a, m ); else continue; }
    else if( what <= 28 )
    {
      if( n == 0 || nc == 0 ) continue;
      auto & q = m[ std::size_t( i ) ]; auto const v = a.toView(); auto const * const p = v.getColumns(); auto const * const pe = v.getEntries(); long const room = before[ std::size_t( i ) ] - long( q.size() );
      if( r.chance( 50 ) )
      {
        long const col = r.range( 0, nc - 1 ), val = r.range( 1, 20000 ); if( !q.count( col ) && room <= 0 ) continue;
        c.op( "%zu view insertNonZero(%ld,%ld)", x, i, col ); bool const e = q.emplace( col, val ).second; CHECK_EQ( c, v.insertNonZero( IT( i ), COL( col ), mk< T >( val ) ), e, "view-insert-result", "" );
      }
      else
      {
        auto const b = capColumns( someColumns( r, keysOf( q ), nc, wide > 1 ), q, room ); std::vector< COL > const w( b.begin(), b.end() ); std::vector< long > vals; auto const e = entriesFor( b.size(), vals ); long nw = 0;
        for( std::size_t z = 0; z < b.size(); ++z ) nw += q.emplace( b[ z ], vals[ z ] ).second;
        c.op( "%zu view insertNonZeros(%ld, %zu columns, %ld new)", x, i, b.size(), nw );
        CHECK_EQ( c, long( v.insertNonZeros( IT( i ), w.data(), e.data(), IT( w.size() ) ) ), nw, "view-insert-count", "" );
      }
      CHECK( c, a.toView().getColumns() == p && a.toView().getEntries() == pe, "view-moved-values", "" ); others( -1 ); c.event( "view operations" );
    }
    else if( what <= 33 ) { if( n == 0 ) continue; AR::add( c, a, m, i ); }
    else
    {
      Slot & o = slots[ 1 - x ];
      switch( r.below( 9 ) )
      {
        case 0: case 1: c.op( "copy assign %zu from %zu", x, 1 - x ); a = *o.a; m = o.m; nc = o.nc; break;
        case 2: c.op( "move assign %zu from %zu", x, 1 - x ); a = std::move( *o.a ); m = o.m; nc = o.nc; o.m.clear(); o.nc = 0; break;
        case 3: c.op( "copy construct %zu from %zu", x, 1 - x ); slots[ x ].a = std::make_unique< A >( *o.a ); m = o.m; nc = o.nc; break;
        case 4: c.op( "move construct %zu from %zu", x, 1 - x ); slots[ x ].a = std::make_unique< A >( std::move( *o.a ) ); m = o.m; nc = o.nc; o.m.clear(); o.nc = 0; break;
        case 5: { c.op( "self assign %zu", x ); A & s = a; a = s; break; }
        case 6: case 7:
        {
          long const nn = r.range( 0, 8 * many ); nc = r.range( 1, maxCols ); SP sp( IT( nn ), IT( nc ), IT( r.range( 0, 4 ) ) ); m.assign( std::size_t( nn ), {} );
          long total = 0;
          for( long q = 0; q < nn; ++q ) for( long col : someColumns( r, {}, nc, wide > 1 ) ) { sp.insertNonZero( IT( q ), COL( col ) ); m[ std::size_t( q ) ][ col ] = 0; ++total; }
          if( r.chance( 30 ) ) sp.compress();
          std::vector< long > const was = caps( sp );
          c.op( "%zu assimilate a pattern of %ld rows, %ld columns, %ld non zeros", x, nn, nc, total );
          a.template assimilate< RAJA::seq_exec >( std::move( sp ) );
          CHECK( c, caps( a ) == was, "assimilated-capacity", "" );
          CHECK_EQ( c, long( sp.numRows() ), 0L, "assimilated-source", "" ); sp.resize( IT( 1 ), IT( 4 ), IT( 1 ) ); sp.insertNonZero( 0, COL( 2 ) );
          c.event( "assimilations" );
          break;
        }
        default: c.op( "free %zu and start again", x ); slots[ x ].a = std::make_unique< A >( IT( 2 ), IT( 9 ), IT( 3 ) ); m.assign( 2, {} ); nc = 9;
      }
      c.event( "ownership operations" );
    }
    auditCrs( c, *slots[ x ].a, slots[ x ].m, slots[ x ].nc );
    auditCrs( c, *slots[ 1 - x ].a, slots[ 1 - x ].m, slots[ 1 - x ].nc );
  }
  c.nontrivial = c.ops > 10;
}
static Register r1( "crs/" ELEM_NAME "/int/int", crsHist< int, int, false >, 2 );
static Register r2( "crs/" ELEM_NAME "/long/long", crsHist< long, std::ptrdiff_t, false >, 3 );
static Register r3( "crsown/" ELEM_NAME "/unsigned/long", crsHist< unsigned, std::ptrdiff_t, true >, 3 );
#endif
H_MAIN()
