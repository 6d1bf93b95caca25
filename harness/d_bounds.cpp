// Bounds checks: every accessor and modifier with arguments just inside, just outside and far outside their ranges ( bounds/ ).
#include "array_util.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
using namespace H;
#ifndef PART
  #define PART 1
#endif
#ifdef NDEBUG
static constexpr bool asserts = false;
#else
static constexpr bool asserts = true;
#endif

// An argument for the range [ lo, hi ): in-range ( if there is one ) when want, out of range otherwise.
template< typename IT > long draw( Rng & r, long lo, long hi, bool want )
{
  if( want && lo < hi ) switch( r.below( 4 ) ) { case 0: return lo; case 1: return hi - 1; default: return r.range( lo, hi - 1 ); }
  long const mn = std::is_signed< IT >::value ? long( std::numeric_limits< IT >::min() ) : 0, mx = sizeof( IT ) == 8 ? std::numeric_limits< long >::max() : long( std::numeric_limits< IT >::max() );
  long v;
  switch( r.below( 8 ) )
  {
    case 0: case 1: v = hi; break;
    case 2: case 3: v = lo - 1; break;
    case 4: v = hi + r.range( 1, 5 ); break;
    case 5: v = hi + r.range( 5, 2000 ); break;
    case 6: v = lo - r.range( 2, 2000 ); break;
    default: v = r.chance( 50 ) ? mn : mx;
  }
  return std::min( std::max( v, mn ), mx );
}
inline bool in( long v, long lo, long hi ) { return lo <= v && v < hi; }

struct Prober
{
  Ctx & c;
  std::function< std::string() > snap;
  bool unchangedAfter = true;
  template< typename F > bool operator()( char const * what, std::string const & args, bool valid, F && f )
  {
    c.nontrivial = true;
    c.op( "%s%s%s", what, args.c_str(), valid ? "" : " (invalid)" );
    if( valid ) { f(); c.event( "in-range uses" ); return true; }
#ifndef LVARRAY_BOUNDS_CHECK
    c.event( "out-of-range uses not tried without bounds checking" ); return false;
#endif
    std::string const before = snap();
    bool const reported = reportsError( f );
    c.event( "out-of-range uses" );
    ++c.checks;
    if( !reported ) c.fail( "not-reported", std::string( what ) + args + " was not reported; state " + before );
    if( unchangedAfter ) { std::string const after = snap(); ++c.checks; if( after != before ) c.fail( "changed", std::string( what ) + args + " changed the object before it was reported: " + before + " became " + after ); }
    return false;
  }
};
inline std::string S( long a ) { return "(" + std::to_string( a ) + ")"; }
inline std::string S( long a, long b ) { return "(" + std::to_string( a ) + "," + std::to_string( b ) + ")"; }

// Keeps a result alive.
template< typename X > void use( X const & x ) { X const volatile * volatile p = &x; ( void ) p; }

#if PART == 1 // arrays, slices, one dimensional arrays and sorted arrays
template< int N, typename A, std::size_t ... I > void rawResize( A & a, Idx< N > const & d, std::index_sequence< I ... > ) { a.resizeWithoutInitializationOrDestruction( d[ I ] ... ); }
template< int N, typename A, std::size_t... IS > void callParen( A const & a, Idx< N > const & i, bool const linear, std::index_sequence< IS... > )
{ if( linear ) use( a.linearIndex( i[ IS ]... ) ); else use( a( i[ IS ]... ) ); }
// Mixed index types.
template< int N, typename IT, typename A, std::size_t... IS > void callParenAs( A const & a, Idx< N > const & i, std::index_sequence< IS... > )
{ use( a( IT( i[ IS ] )... ) ); }
template< int N > std::string sliceArgs( Idx< N > const & i ) { return showIdx< N >( i ); }

template< int N, typename IT, typename S > struct Walk
{ // s[ i0 ][ i1 ]... with at most one index out of range, at depth bad
  static void go( S const & s, long const * i, int bad, Prober & p, std::string const & all )
  {
    if( bad == 0 ) { p( "operator[]", all, false, [&] { auto && x = s[ IT( *i ) ]; ( void ) x; } ); return; }
    auto const & x = s[ IT( *i ) ];
    Walk< N - 1, IT, typename std::decay< decltype( x ) >::type >::go( x, i + 1, bad - 1, p, all );
  }
};
template< typename IT, typename S > struct Walk< 1, IT, S >
{ static void go( S const & s, long const * i, int bad, Prober & p, std::string const & all ) { p( "operator[]", all, bad != 0, [&] { use( s[ IT( *i ) ] ); } ); } };

template< int N, typename IT, typename V > void probeIndexed( Prober & p, V const & v, Idx< N > const & dims )
{ // v is an array, view or slice
  Rng & r = p.c.rng;
  bool const wantValid = r.chance( 40 );
  Idx< N > i{}; int const bad = int( r.below( N ) );
  bool valid = true; bool prefixValid = true;
  for( int k = 0; k < N; ++k )
  {
    i[ std::size_t( k ) ] = draw< IT >( r, 0, dims[ std::size_t( k ) ], wantValid || ( k != bad && r.chance( 80 ) ) );
    valid &= in( i[ std::size_t( k ) ], 0, dims[ std::size_t( k ) ] );
  }
  ( void ) prefixValid;
  auto const seq = std::make_index_sequence< std::size_t( N ) >{};
  switch( r.below( 5 ) )
  {
    case 0: p( "operator()", showIdx< N >( i ), valid, [&] { callParen< N >( v, i, false, seq ); } ); break;
    case 1: p( "linearIndex", showIdx< N >( i ), valid, [&] { callParen< N >( v, i, true, seq ); } ); break;
    case 2:
    {
      int firstBad = N; for( int k = N - 1; k >= 0; --k ) if( !in( i[ std::size_t( k ) ], 0, dims[ std::size_t( k ) ] ) ) firstBad = k;
      Walk< N, IT, V >::go( v, i.data(), firstBad, p, showIdx< N >( i ) );
      break;
    }
    case 3:
    { // other index types: only values they can hold
      bool fits16 = true, fitsU = true; for( long x : i ) { fits16 &= x >= -32768 && x <= 32767; fitsU &= x >= 0 && x < 2147483647L; }
      if( fits16 && r.chance( 50 ) ) p( "operator() of short", showIdx< N >( i ), valid, [&] { callParenAs< N, short >( v, i, seq ); } );
      else if( fitsU ) p( "operator() of int", showIdx< N >( i ), valid, [&] { callParenAs< N, int >( v, i, seq ); } );
      break;
    }
    default:
    {
      long const d = draw< int >( r, 0, N, r.chance( 40 ) );
      p( "size", S( d ), in( d, 0, N ), [&] { long const got = long( v.size( int( d ) ) ); if( in( d, 0, N ) ) CHECK_EQ( p.c, got, dims[ std::size_t( d ) ], "size", "" ); } );
    }
  }
}

template< typename A > std::string showFlat( A const & a ) { std::ostringstream o; for( long k = 0; k < long( a.size() ); ++k ) o << a.data()[ k ] << ' '; return o.str(); }

template< int N, typename PERM, typename IT > void arrays( Ctx & c )
{
  using A = MArray< long, N, PERM, IT >;
  auto * const a = new A; // leaked when an error leaves it unusable
  Rng & r = c.rng;
  Idx< N > dims = randomDims< N >( r, 60, 5 );
  resizeAll< N >( *a, dims );
  for( long k = 0; k < long( a->size() ); ++k ) a->data()[ k ] = 1000 + k;
  Prober p{ c, [&] { std::ostringstream o; for( int k = 0; k < N; ++k ) o << a->dims()[ std::size_t( k ) ] << ','; o << a->capacity() << ':' << ( void const * ) a->data() << ' ' << showFlat( *a ); return o.str(); } };
  int const n = int( r.range( 4, 40 ) );
  for( int k = 0; k < n; ++k )
  {
    auto const view = a->toView(); auto const cview = a->toViewConst(); auto const slice = view.toSlice(); auto const cslice = cview.toSliceConst();
    switch( r.below( 8 ) )
    {
      case 0: probeIndexed< N, IT >( p, *a, dims ); break;
      case 1: probeIndexed< N, IT >( p, view, dims ); break;
      case 2: probeIndexed< N, IT >( p, cview, dims ); break;
      case 3: probeIndexed< N, IT >( p, slice, dims ); break;
      case 4: probeIndexed< N, IT >( p, cslice, dims ); break;
      case 5:
      {
        long const d = draw< int >( r, 0, N, r.chance( 40 ) );
        p( "slice stride", S( d ), in( d, 0, N ), [&] { long const got = long( slice.stride( int( d ) ) ); if( in( d, 0, N ) ) CHECK_EQ( c, got, refStrides< PERM >( dims )[ std::size_t( d ) ], "stride", "" ); } );
        break;
      }
      case 6:
      {
        long const d = draw< int >( r, 0, N, r.chance( 60 ) );
        p( "setSingleParameterResizeIndex", S( d ), in( d, 0, N ), [&] { a->setSingleParameterResizeIndex( int( d ) ); } );
        break;
      }
      default:
      {
        int const sd = a->getSingleParameterResizeIndex();
        bool const valid = r.chance( 60 );
        long const nd = valid ? r.range( 0, 5 ) : r.chance( 50 ) ? -1 : draw< IT >( r, 0, 1000000000, false );
        if( nd >= 0 && !valid ) break;
        if( nd < 0 )
        { // the extents may already be changed when it is reported, but no element
          std::vector< long > const values( a->data(), a->data() + a->size() ); long const * const where = a->data();
          p.unchangedAfter = false;
          p( "resize", S( nd ), false, [&] { if( r.chance( 50 ) ) a->resize( IT( nd ) ); else a->resizeDefault( IT( nd ), 7L ); } );
          for( std::size_t q = 0; q < values.size(); ++q ) CHECK_EQ( c, where[ q ], values[ q ], "changed", "resize to a negative extent" );
          return;
        }
        bool const ok = p( "resize", S( nd ), true, [&] { if( r.chance( 50 ) ) a->resize( IT( nd ) ); else a->resizeDefault( IT( nd ), 7L ); } );
        if( ok ) { dims[ std::size_t( sd ) ] = nd; for( long j = 0; j < long( a->size() ); ++j ) a->data()[ j ] = 1000 + j; }
      }
    }
  }
  // Negative extents: reported before any element is lost; the extents themselves are already changed.
  if( r.chance( 50 ) )
  {
    std::vector< long > const values( a->data(), a->data() + a->size() );
    Idx< N > bad = randomDims< N >( r, 60, 5 ); bad[ r.below( N ) ] = r.chance( 50 ) ? -1 : -r.range( 1, 1000 );
    int const via = int( r.below( 4 ) ); long const one = r.chance( 50 ) ? -1 : -r.range( 1, 1000 );
    long const * const where = a->data();
    p.unchangedAfter = false;
    if( via == 2 ) p( "resizeDimension", S( one ), false, [&] { a->template resizeDimension< N - 1 >( one ); } );
    else if( via == 3 ) p( "resizeWithoutInitializationOrDestruction", showIdx< N >( bad ), false, [&] { rawResize< N >( *a, bad, std::make_index_sequence< std::size_t( N ) >{} ); } );
    else p( "resize all", showIdx< N >( bad ), false, [&] { if( via == 1 ) { IT d[ N ]; for( int k = 0; k < N; ++k ) d[ k ] = IT( bad[ std::size_t( k ) ] ); a->resize( N, d ); } else resizeAll< N >( *a, bad ); } );
    for( std::size_t k = 0; k < values.size(); ++k ) CHECK_EQ( c, where[ k ], values[ k ], "changed", "resize to a negative extent" );
    return;
  }
  int const badN = r.chance( 50 ) ? N + 1 : N - 1;
  IT d[ N + 1 ]; for( IT & x : d ) x = 2;
  p( "resize numDims", S( badN ), false, [&] { a->resize( badN, d ); } );
  if( a->size() >= 2 && r.chance( 30 ) )
  { // direct data access
    auto const slice = a->toSlice();
    p( "slice dataIfContiguous", "", slice.isContiguous(), [&] { use( *slice.dataIfContiguous() ); } );
  }
  delete a;
}
template< typename T, int N, int USD, typename IT > std::enable_if_t< ( USD >= 0 ) > direct( Prober & p, LvArray::ArraySlice< T, N, USD, IT > const & s )
{ p( "slice dataIfContiguous", "", s.isContiguous(), [&] { use( *s.dataIfContiguous() ); } ); }
template< typename T, int N, int USD, typename IT > std::enable_if_t< ( USD < 0 ) > direct( Prober &, LvArray::ArraySlice< T, N, USD, IT > const & ) {}
template< int N, typename PERM, typename IT > void subSlices( Ctx & c )
{ // slices of slices, contiguous or not
  MArray< long, N, PERM, IT > a;
  Rng & r = c.rng;
  Idx< N > const dims = randomDims< N >( r, 60, 0 );
  resizeAll< N >( a, dims );
  for( long k = 0; k < long( a.size() ); ++k ) a.data()[ k ] = 1000 + k;
  Prober p{ c, [&] { return showFlat( a ); } };
  Idx< N - 1 > rest{}; for( int k = 1; k < N; ++k ) rest[ std::size_t( k - 1 ) ] = dims[ std::size_t( k ) ];
  for( int k = 0, n = int( r.range( 4, 30 ) ); k < n; ++k )
  {
    auto const whole = a.toSlice();
    auto const s = whole[ IT( r.range( 0, dims[ 0 ] - 1 ) ) ];
    switch( r.below( 3 ) )
    {
      case 0: case 1: probeIndexed< N - 1, IT >( p, s, rest ); break;
      default:
      {
        if( s.isContiguous() || asserts ) direct( p, s );
      }
    }
  }
}
template< typename IT > void vectors( Ctx & c )
{
  using A = MArray< long, 1, RAJA::PERM_I, IT >;
  A a;
  Rng & r = c.rng;
  std::vector< long > m;
  Prober p{ c, [&] { std::ostringstream o; o << a.size() << '/' << a.capacity() << ':' << ( void const * ) a.data() << ' ' << showFlat( a ); return o.str(); } };
  for( int k = 0, n = int( r.range( 10, 60 ) ); k < n; ++k )
  {
    long const sz = long( m.size() );
    bool const want = r.chance( 55 );
    switch( r.below( 9 ) )
    {
      case 0: { a.emplace_back( 5 ); m.push_back( 5 ); break; }
      case 1: { long const pos = draw< IT >( r, 0, sz + 1, want ); if( p( "emplace", S( pos ), in( pos, 0, sz + 1 ), [&] { a.emplace( IT( pos ), k + 7 ); } ) ) m.insert( m.begin() + pos, k + 7 ); break; }
      case 2: { long const pos = draw< IT >( r, 0, sz + 1, want ); std::vector< long > v( r.below( 5 ), 77 + k );
                if( p( "insert", S( pos, long( v.size() ) ), in( pos, 0, sz + 1 ), [&] { a.insert( IT( pos ), v.begin(), v.end() ); } ) ) m.insert( m.begin() + pos, v.begin(), v.end() ); break; }
      case 3: { long const pos = draw< IT >( r, 0, sz, want ); if( p( "erase", S( pos ), in( pos, 0, sz ), [&] { a.erase( IT( pos ) ); } ) ) m.erase( m.begin() + pos ); break; }
      case 4: if( sz || asserts ) { if( p( "pop_back", "", sz > 0, [&] { a.pop_back(); } ) ) m.pop_back(); } break;
      case 5: if( r.chance( 20 ) ) { a.clear(); m.clear(); } break;
      case 6: { long const ns = r.chance( 60 ) ? r.range( 0, 6 ) : -r.range( 1, 4 ); if( ns >= 0 && p( "resize", S( ns ), true, [&] { a.resize( IT( ns ) ); } ) ) m.resize( std::size_t( ns ) ); break; }
      default: { Idx< 1 > const d{ { sz } }; if( r.chance( 50 ) ) probeIndexed< 1, IT >( p, a, d ); else probeIndexed< 1, IT >( p, a.toViewConst(), d ); }
    }
    CHECK_EQ( c, long( a.size() ), long( m.size() ), "size", "" );
    for( std::size_t j = 0; j < m.size(); ++j ) CHECK_EQ( c, a.data()[ j ], m[ j ], "value", "" );
  }
}
template< typename IT > void sorted( Ctx & c )
{
  LvArray::SortedArray< long, IT, LvArray::MallocBuffer > s;
  Rng & r = c.rng; std::set< long > m;
  Prober p{ c, [&] { std::ostringstream o; o << s.size() << ':'; for( long x : s ) o << x << ' '; return o.str(); } };
  for( int k = 0, n = int( r.range( 10, 50 ) ); k < n; ++k )
  {
    long const sz = long( m.size() ), i = draw< IT >( r, 0, sz, r.chance( 50 ) ), v = r.range( 0, 40 );
    auto const view = s.toView(); auto const slice = s.toSlice(); auto const vslice = view.toSlice();
    auto const ok = [&] ( long got ) { if( in( i, 0, sz ) ) { auto it = m.begin(); std::advance( it, i ); CHECK_EQ( c, got, *it, "value", "" ); } };
    switch( r.below( 9 ) )
    {
      case 0: case 1: s.insert( v ); m.insert( v ); break;
      case 2: s.remove( v ); m.erase( v ); break;
      case 3: p( "sorted operator[]", S( i ), in( i, 0, sz ), [&] { ok( s[ IT( i ) ] ); } ); break;
      case 4: p( "sorted operator()", S( i ), in( i, 0, sz ), [&] { ok( s( IT( i ) ) ); } ); break;
      case 5: p( "sorted view operator[]", S( i ), in( i, 0, sz ), [&] { ok( view[ IT( i ) ] ); } ); break;
      case 6: p( "sorted view operator()", S( i ), in( i, 0, sz ), [&] { ok( view( IT( i ) ) ); } ); break;
      case 7: p( "sorted slice operator[]", S( i ), in( i, 0, sz ), [&] { ok( slice[ IT( i ) ] ); } ); break;
      default: p( "sorted view slice operator()", S( i ), in( i, 0, sz ), [&] { ok( vslice( IT( i ) ) ); } ); break;
    }
  }
}
template< int L > using StackA = LvArray::StackArray< long, 2, RAJA::PERM_IJ, int, L >;
static void stack( Ctx & c )
{ // fixed length arrays cannot grow past their length
  Rng & r = c.rng;
  static constexpr int L = 24;
  auto & a = *new StackA< L >; long n0 = 0, n1 = 0;
  LvArray::StackArray< long, 1, RAJA::PERM_I, int, L > v;
  std::vector< long > m;
  Prober p{ c, [&] { std::ostringstream o; o << v.size() << ':' << showFlat( v ) << '|'; o << showFlat( a ); return o.str(); } };
  for( int k = 0, n = int( r.range( 5, 60 ) ); k < n; ++k )
  {
    long const sz = long( m.size() );
    switch( r.below( 6 ) )
    {
      case 0: { long const x = r.range( 1, 7 ), y = r.range( 1, 7 ); bool const fits = x * y <= L;
                p.unchangedAfter = false; // the extents are set before the storage is asked for
                if( !fits && r.chance( 70 ) ) break;
                bool const done = p( "stack resize", S( x, y ), fits, [&] { a.resize( x, y ); } ); p.unchangedAfter = true;
                if( done ) { n0 = x; n1 = y; for( long j = 0; j < n0 * n1; ++j ) a.data()[ j ] = 500 + j; break; }
                for( long j = 0; j < n0 * n1; ++j ) CHECK_EQ( c, a.data()[ j ], 500 + j, "changed", "stack resize" );
                return; }
      case 1: case 2: if( p( "stack emplace_back", "", sz < L, [&] { v.emplace_back( k ); } ) ) m.push_back( k ); break;
      case 3: { long const pos = r.range( 0, sz ); std::vector< long > w( std::size_t( r.range( 0, 8 ) ), 9 );
                if( p( "stack insert", S( pos, long( w.size() ) ), sz + long( w.size() ) <= L, [&] { v.insert( int( pos ), w.begin(), w.end() ); } ) ) m.insert( m.begin() + pos, w.begin(), w.end() ); break; }
      case 4: { long const cap = r.range( 0, 40 ); p( "stack reserve", S( cap ), cap <= L, [&] { v.reserve( int( cap ) ); } ); break; }
      default: if( sz && r.chance( 60 ) ) { v.pop_back(); m.pop_back(); }
    }
    CHECK_EQ( c, long( v.size() ), long( m.size() ), "size", "" );
    for( std::size_t j = 0; j < m.size(); ++j ) CHECK_EQ( c, v.data()[ j ], m[ j ], "value", "" );
  }
}
#define ARR( N, P, IT, NAME ) static Register reg##NAME( "bounds/array " #N " " #P " " #IT, [] ( Ctx & c ) { arrays< N, RAJA::P, IT >( c ); }, 1, false )
ARR( 1, PERM_I, std::ptrdiff_t, a1 ); ARR( 2, PERM_IJ, int, a2 ); ARR( 2, PERM_JI, std::ptrdiff_t, a2b ); ARR( 3, PERM_KIJ, long long, a3 ); ARR( 4, PERM_LJKI, int, a4 );
#define SUB( N, P, IT, NAME ) static Register reg##NAME( "bounds/slice " #N " " #P " " #IT, [] ( Ctx & c ) { subSlices< N, RAJA::P, IT >( c ); }, 1, false )
SUB( 2, PERM_IJ, std::ptrdiff_t, s2 ); SUB( 2, PERM_JI, int, s2b ); SUB( 3, PERM_IJK, int, s3 ); SUB( 3, PERM_JKI, std::ptrdiff_t, s3b ); SUB( 4, PERM_KILJ, int, s4 );
static Register rv1( "bounds/vector long", vectors< std::ptrdiff_t >, 2, false ), rv2( "bounds/vector int", vectors< int >, 2, false );
static Register rs1( "bounds/sorted long", sorted< std::ptrdiff_t >, 2, false ), rs2( "bounds/sorted int", sorted< int >, 1, false );
static Register rst( "bounds/stack", stack, 2, false );
#endif

#if PART == 2 // ragged arrays and arrays of sets
template< typename V > std::string showRagged( V const & v )
{ // sizes and values: capacity may be obtained before a position is checked
  using IT = typename std::decay< decltype( v.size() ) >::type;
  std::ostringstream o; o << long( v.size() ) << ' ';
  for( IT i = 0; i < v.size(); ++i )
  {
    long const n = long( v.getSizes()[ i ] ), off = long( v.getOffsets()[ i ] ); o << n << '{';
    for( long j = 0; j < n && j < 50; ++j ) o << v.getValues()[ off + j ] << ' ';
    o << "} ";
  }
  return o.str();
}
template< typename IT > void ragged( Ctx & c )
{
  using A = LvArray::ArrayOfArrays< long, IT, LvArray::MallocBuffer >;
  auto * const a = new A;
  Rng & r = c.rng;
  for( long i = 0, n = r.range( 0, 6 ); i < n; ++i )
  {
    std::vector< long > v; for( long j = 0, k = r.range( 0, 5 ); j < k; ++j ) v.push_back( 100 * i + j );
    a->appendArray( v.begin(), v.end() ); if( r.chance( 60 ) ) a->setCapacityOfArray( IT( i ), IT( long( v.size() ) + r.range( 0, 4 ) ) );
  }
  Prober p{ c, [&] { return showRagged( a->toViewConst() ); } };
  for( int k = 0, steps = int( r.range( 5, 50 ) ); k < steps; ++k )
  {
    auto const v = a->toView(); auto const vs = a->toViewConstSizes(); auto const vc = a->toViewConst();
    long const n = long( a->size() );
    long const i = draw< IT >( r, 0, n, r.chance( 70 ) ); bool const iok = in( i, 0, n );
    long const sz = iok ? long( a->sizeOfArray( IT( i ) ) ) : 0, cap = iok ? long( a->capacityOfArray( IT( i ) ) ) : 0;
    long const j = draw< IT >( r, 0, sz, r.chance( 55 ) ); bool const jok = iok && in( j, 0, sz );
    long const jj = draw< IT >( r, 0, sz + 1, r.chance( 60 ) ); bool const jjok = iok && in( jj, 0, sz + 1 );
    std::vector< long > w( r.below( 5 ), 7000 + k );
    long const add = long( w.size() );
    IT const I = IT( i ), J = IT( j ), JJ = IT( jj );
    switch( r.below( 27 ) )
    {
      case 0: switch( r.below( 4 ) ) { case 0: p( "aoa ()", S( i, j ), jok, [&] { use( ( *a )( I, J ) ); } ); break; case 1: p( "view ()", S( i, j ), jok, [&] { use( v( I, J ) ); } ); break;
                                       case 2: p( "constSizes ()", S( i, j ), jok, [&] { use( vs( I, J ) ); } ); break; default: p( "viewConst ()", S( i, j ), jok, [&] { use( vc( I, J ) ); } ); } break;
      case 1: switch( r.below( 4 ) ) { case 0: p( "aoa []", S( i ), iok, [&] { auto s = ( *a )[ I ]; use( s ); } ); break; case 1: p( "view []", S( i ), iok, [&] { auto s = v[ I ]; use( s ); } ); break;
                                       case 2: p( "constSizes []", S( i ), iok, [&] { auto s = vs[ I ]; use( s ); } ); break; default: p( "viewConst []", S( i ), iok, [&] { auto s = vc[ I ]; use( s ); } ); } break;
      case 2: if( iok ) { auto const s = v[ I ]; p( "inner []", S( i, j ), jok, [&] { use( s[ J ] ); } ); } break;
      case 3: if( iok ) { auto const s = ( *a )[ I ]; p( "inner ()", S( i, j ), jok, [&] { use( s( J ) ); } ); } break;
      case 4: p( "sizeOfArray", S( i ), iok, [&] { use( r.chance( 50 ) ? a->sizeOfArray( I ) : vc.sizeOfArray( I ) ); } ); break;
      case 5: p( "capacityOfArray", S( i ), iok, [&] { use( r.chance( 50 ) ? a->capacityOfArray( I ) : v.capacityOfArray( I ) ); } ); break;
      case 6: { long const at = draw< IT >( r, 0, n + 1, r.chance( 50 ) ); if( n < 9 || !in( at, 0, n + 1 ) ) p( "insertArray", S( at ), in( at, 0, n + 1 ), [&] { a->insertArray( IT( at ), w.begin(), w.end() ); } ); break; }
      case 7: if( !iok || n > 3 ) p( "eraseArray", S( i ), iok, [&] { a->eraseArray( I ); } ); break;
      case 8: p( "aoa emplaceBack", S( i ), iok, [&] { a->emplaceBack( I, 5 ); } ); break;
      case 9: p( "aoa appendToArray", S( i ), iok, [&] { a->appendToArray( I, w.begin(), w.end() ); } ); break;
      case 10: p( "aoa emplace", S( i, jj ), jjok, [&] { a->emplace( I, JJ, 8 ); } ); break;
      case 11: p( "aoa insertIntoArray", S( i, jj ), jjok, [&] { a->insertIntoArray( I, JJ, w.begin(), w.end() ); } ); break;
      case 12: case 13:
      {
        long const e = r.chance( 60 ) ? 1 : r.range( 1, sz + 3 ); bool const ok = jok && j + e <= sz;
        if( r.chance( 50 ) ) p( "aoa eraseFromArray", S( i, j ) + "x" + std::to_string( e ), ok, [&] { a->eraseFromArray( I, J, IT( e ) ); } );
        else p( "view eraseFromArray", S( i, j ) + "x" + std::to_string( e ), ok, [&] { v.eraseFromArray( I, J, IT( e ) ); } );
        break;
      }
      case 14: { long const ns = r.chance( 75 ) ? r.range( 0, 7 ) : -r.range( 1, 1000 ); if( ns < 0 && !asserts ) break; p( "resizeArray", S( i, ns ), iok && ns >= 0, [&] { a->resizeArray( I, IT( ns ), 3 ); } ); break; }
      case 15: { long const nc = r.chance( 75 ) ? r.range( 0, 9 ) : -r.range( 1, 1000 ); if( nc < 0 && !asserts ) break; p( "setCapacityOfArray", S( i, nc ), iok && nc >= 0, [&] { a->setCapacityOfArray( I, IT( nc ) ); } ); break; }
      case 16: p( "clearArray", S( i ), iok, [&] { a->clearArray( I ); } ); break;
      case 17: p( "view emplaceBack", S( i ), iok && sz < cap, [&] { v.emplaceBack( I, 6 ); } ); break;
      case 18: p( "view appendToArray", S( i, add ), iok && sz + add <= cap, [&] { v.appendToArray( I, w.begin(), w.end() ); } ); break;
      case 19: p( "view emplace", S( i, jj ), jjok && sz < cap, [&] { v.emplace( I, JJ, 8 ); } ); break;
      case 20: p( "view insertIntoArray", S( i, jj ) + "x" + std::to_string( add ), jjok && sz + add <= cap, [&] { v.insertIntoArray( I, JJ, w.begin(), w.end() ); } ); break;
      case 21:
      { // the counter is incremented before it is compared with the capacity
        bool const ok = iok && sz < cap; p.unchangedAfter = !iok;
        bool const done = p( "view emplaceBackAtomic", S( i ), ok, [&] { v.template emplaceBackAtomic< RAJA::seq_atomic >( I, 9 ); } ); p.unchangedAfter = true;
        if( iok && !done ) return;
        break;
      }
      case 22: { long const ns = r.chance( 70 ) ? r.range( 0, 6 ) : -r.range( 1, 100 ); if( ns < 0 && !asserts ) break; p( "aoa resize", S( ns ), ns >= 0, [&] { a->resize( IT( ns ), IT( 2 ) ); } ); break; }
      case 23: { long const ns = r.chance( 70 ) ? r.range( 0, 4 ) : -r.range( 1, 100 ); if( ns < 0 && !asserts ) break; if( ns >= 0 && n > 8 ) break; p( "appendArray", S( ns ), ns >= 0, [&] { a->appendArray( IT( ns ) ); } ); break; }
      case 24:
      {
        std::vector< IT > caps; bool ok = true; for( long q = 0, e = r.range( 0, 6 ); q < e; ++q ) { caps.push_back( IT( r.chance( 90 ) ? r.range( 0, 4 ) : -r.range( 1, 9 ) ) ); ok &= caps.back() >= 0; }
        std::string s; for( IT x : caps ) s += " " + std::to_string( x );
        p( "resizeFromCapacities", s, ok, [&] { a->template resizeFromCapacities< RAJA::loop_exec >( IT( caps.size() ), caps.data() ); } ); break;
      }
      case 25: if( iok ) { auto const s = vc[ I ]; long const d = draw< int >( r, 0, 1, r.chance( 40 ) ); p( "inner size", S( d ), d == 0, [&] { use( s.size( int( d ) ) ); } ); } break;
      default: if( iok ) { for( auto & x : v[ I ] ) use( x ); } break;
    }
  }
  delete a;
}
template< typename IT > void sets( Ctx & c )
{
  using A = LvArray::ArrayOfSets< long, IT, LvArray::MallocBuffer >;
  auto * const a = new A;
  Rng & r = c.rng;
  for( long i = 0, n = r.range( 0, 6 ); i < n; ++i )
  { a->appendSet( IT( r.range( 0, 6 ) ) ); for( long j = 0, k = r.range( 0, 5 ); j < k; ++j ) a->insertIntoSet( IT( i ), r.range( 0, 12 ) ); }
  Prober p{ c, [&] { return showRagged( a->toViewConst() ); } };
  for( int k = 0, steps = int( r.range( 5, 50 ) ); k < steps; ++k )
  {
    auto const v = a->toView(); auto const vc = a->toViewConst();
    long const n = long( a->size() );
    long const i = draw< IT >( r, 0, n, r.chance( 70 ) ); bool const iok = in( i, 0, n ); IT const I = IT( i );
    long const sz = iok ? long( a->sizeOfSet( I ) ) : 0, cap = iok ? long( a->capacityOfSet( I ) ) : 0;
    long const j = draw< IT >( r, 0, sz, r.chance( 55 ) ); bool const jok = iok && in( j, 0, sz ); IT const J = IT( j );
    std::set< long > cur; if( iok ) for( long x : vc[ I ] ) cur.insert( x );
    long const x = r.range( 0, 12 );
    std::set< long > w; for( long q = 0, e = r.range( 0, 6 ); q < e; ++q ) w.insert( r.range( 0, 12 ) );
    long added = 0; for( long y : w ) added += 1 - long( cur.count( y ) );
    switch( r.below( 18 ) )
    {
      case 0: { bool const b = r.chance( 50 ); p( "set []", S( i ), iok, [&] { if( b ) { auto s = ( *a )[ I ]; use( s ); } else { auto s = vc[ I ]; use( s ); } } ); break; }
      case 1: { bool const b = r.chance( 50 ); p( "set ()", S( i, j ), jok, [&] { if( b ) use( ( *a )( I, J ) ); else use( vc( I, J ) ); } ); break; }
      case 2: if( iok ) { auto const s = v[ I ]; p( "inner []", S( i, j ), jok, [&] { use( s[ J ] ); } ); } break;
      case 3: p( "sizeOfSet", S( i ), iok, [&] { use( v.sizeOfSet( I ) ); } ); break;
      case 4: p( "capacityOfSet", S( i ), iok, [&] { use( a->capacityOfSet( I ) ); } ); break;
      case 5: p( "contains", S( i, x ), iok, [&] { bool const got = r.chance( 50 ) ? a->contains( I, x ) : vc.contains( I, x ); if( iok ) CHECK_EQ( c, got, bool( cur.count( x ) ), "contains", "" ); } ); break;
      case 6: p( "insertIntoSet", S( i, x ), iok, [&] { a->insertIntoSet( I, x ); } ); break;
      case 7: p( "insertIntoSet batch", S( i ), iok, [&] { a->insertIntoSet( I, w.begin(), w.end() ); } ); break;
      case 8: p( "removeFromSet", S( i, x ), iok, [&] { a->removeFromSet( I, x ); } ); break;
      case 9: p( "removeFromSet batch", S( i ), iok, [&] { a->removeFromSet( I, w.begin(), w.end() ); } ); break;
      case 10: p( "view insertIntoSet", S( i, x ), iok && ( cur.count( x ) || sz < cap ), [&] { v.insertIntoSet( I, x ); } ); break;
      case 11: p( "view insertIntoSet batch", S( i, added ), iok && sz + added <= cap, [&] { v.insertIntoSet( I, w.begin(), w.end() ); } ); break;
      case 12: p( "view removeFromSet", S( i, x ), iok, [&] { v.removeFromSet( I, x ); } ); break;
      case 13: p( "view removeFromSet batch", S( i ), iok, [&] { v.removeFromSet( I, w.begin(), w.end() ); } ); break;
      case 14: p( "clearSet", S( i ), iok, [&] { a->clearSet( I ); } ); break;
      case 15: { long const nc = r.chance( 75 ) ? r.range( 0, 9 ) : -r.range( 1, 100 ); if( nc < 0 && !asserts ) break; p( "setCapacityOfSet", S( i, nc ), iok && nc >= 0, [&] { a->setCapacityOfSet( I, IT( nc ) ); } ); break; }
      case 16: { long const at = draw< IT >( r, 0, n + 1, r.chance( 50 ) ); if( n < 9 || !in( at, 0, n + 1 ) ) p( "insertSet", S( at ), in( at, 0, n + 1 ), [&] { a->insertSet( IT( at ), 3 ); } ); break; }
      default: if( r.chance( 50 ) ) { if( !iok || n > 3 ) p( "eraseSet", S( i ), iok, [&] { a->eraseSet( I ); } ); }
               else p( "reserveCapacityOfSet", S( i ), iok, [&] { a->reserveCapacityOfSet( I, 7 ); } );
    }
  }
  delete a;
}
static Register ra1( "bounds/aoa long", ragged< std::ptrdiff_t >, 2, false ), ra2( "bounds/aoa int", ragged< int >, 2, false ), rse1( "bounds/aos long", sets< std::ptrdiff_t >, 1, false ), rse2( "bounds/aos int", sets< int >, 2, false );
#endif

#if PART == 3 // sparsity patterns and matrices
template< typename V > std::string showRows( V const & v )
{
  using IT = typename std::decay< decltype( v.numRows() ) >::type;
  std::ostringstream o; o << long( v.numRows() ) << ' ';
  for( IT i = 0; i < v.numRows(); ++i )
  {
    long const n = long( v.getSizes()[ i ] ), off = long( v.getOffsets()[ i ] ); o << n << '{';
    for( long j = 0; j < n && j < 60; ++j ) o << long( v.getColumns()[ off + j ] ) << ' ';
    o << "} ";
  }
  return o.str();
}
template< typename V > std::string showEntries( V const & v )
{
  using IT = typename std::decay< decltype( v.numRows() ) >::type;
  std::ostringstream o; for( IT i = 0; i < v.numRows(); ++i ) for( long j = 0; j < long( v.getSizes()[ i ] ); ++j ) o << v.getEntries()[ long( v.getOffsets()[ i ] ) + j ] << ' ';
  return showRows( v ) + o.str();
}
// Random columns, all in range unless one is spoilt.
template< typename CT > std::vector< CT > columns( Rng & r, long nCols, bool & ok )
{
  std::set< long > s; for( long q = 0, e = r.range( 0, 6 ); q < e && nCols; ++q ) s.insert( r.range( 0, nCols - 1 ) );
  if( r.chance( 30 ) ) s.insert( draw< CT >( r, 0, nCols, false ) );
  std::vector< CT > v; ok = true; for( long x : s ) { v.push_back( CT( x ) ); ok &= in( x, 0, nCols ); }
  return v;
}
template< typename A, typename CT, typename IT, typename P > void columnRange( P & p, Ctx & c )
{ // the column type has to hold every column, not their number
  Rng & r = c.rng; long const mx = sizeof( CT ) == 8 ? std::numeric_limits< long >::max() : long( std::numeric_limits< CT >::max() );
  if( mx > long( std::numeric_limits< IT >::max() ) - 4 ) return;
  long const nc = mx + r.range( -1, 4 ), nr = r.range( 0, 3 ); bool const ok = nc - 1 <= mx;
  auto const full = [&]( A & a )
  {
    CHECK( c, a.numRows() == nr && a.numColumns() == nc, "columns", "" );
    if( nr > 0 ) { CHECK( c, a.empty( 0, CT( nc - 1 ) ), "empty", "" ); }
  };
  A & a = *new A( IT( 1 ), IT( 2 ), IT( 1 ) );
  switch( r.below( 3 ) )
  {
    case 0: p( "construct", S( nr, nc ), ok, [&] { A x( IT( nr ), IT( nc ), IT( 1 ) ); full( x ); } ); break;
    case 1: if( p( "resize", S( nr, nc ), ok, [&] { a.resize( IT( nr ), IT( nc ), IT( 1 ) ); } ) ) full( a ); break;
    default:
    {
      std::vector< IT > const caps( std::size_t( nr ) + 1, 2 );
      if( p( "resizeFromRowCapacities", S( nr, nc ), ok, [&] { a.template resizeFromRowCapacities< RAJA::loop_exec >( IT( nr ), IT( nc ), caps.data() ); } ) ) full( a );
    }
  }
  c.event( ok ? "column type suffices" : "column type too narrow" );
}
template< typename CT, typename IT > void pattern( Ctx & c )
{
  using P = LvArray::SparsityPattern< CT, IT, LvArray::MallocBuffer >;
  Rng & r = c.rng;
  long nCols = r.range( 0, 12 );
  auto * const a = new P( IT( r.range( 0, 6 ) ), IT( nCols ), IT( r.range( 0, 4 ) ) );
  for( IT i = 0; i < a->numRows(); ++i ) for( long q = 0, e = r.range( 0, 5 ); q < e && nCols; ++q ) a->insertNonZero( i, CT( r.range( 0, nCols - 1 ) ) );
  Prober p{ c, [&] { return showRows( a->toViewConst() ); } };
  for( int k = 0, steps = int( r.range( 5, 50 ) ); k < steps; ++k )
  {
    auto const v = a->toView(); auto const vc = a->toViewConst();
    long const n = long( a->numRows() );
    long const i = draw< IT >( r, 0, n, r.chance( 70 ) ); bool const iok = in( i, 0, n ); IT const I = IT( i );
    long const sz = iok ? long( a->numNonZeros( I ) ) : 0, cap = iok ? long( a->nonZeroCapacity( I ) ) : 0;
    long const j = draw< CT >( r, 0, nCols, r.chance( 65 ) ); bool const ok = iok && in( j, 0, nCols ); CT const J = CT( j );
    std::set< long > cur; if( iok ) for( CT x : vc.getColumns( I ) ) cur.insert( long( x ) );
    bool wok; std::vector< CT > const w = columns< CT >( r, nCols, wok );
    long added = 0; for( CT y : w ) added += 1 - long( cur.count( long( y ) ) );
    switch( r.below( 16 ) )
    {
      case 0: p( "insertNonZero", S( i, j ), ok, [&] { a->insertNonZero( I, J ); } ); break;
      case 1: p( "insertNonZeros", S( i, long( w.size() ) ), iok && wok, [&] { a->insertNonZeros( I, w.begin(), w.end() ); } ); break;
      case 2: p( "removeNonZero", S( i, j ), ok, [&] { a->removeNonZero( I, J ); } ); break;
      case 3: p( "removeNonZeros", S( i, long( w.size() ) ), iok && wok, [&] { a->removeNonZeros( I, w.begin(), w.end() ); } ); break;
      case 4: p( "view insertNonZero", S( i, j ), ok && ( cur.count( j ) || sz < cap ), [&] { v.insertNonZero( I, J ); } ); break;
      case 5: p( "view insertNonZeros", S( i, added ), iok && wok && sz + added <= cap, [&] { v.insertNonZeros( I, w.begin(), w.end() ); } ); break;
      case 6: p( "view removeNonZero", S( i, j ), ok, [&] { v.removeNonZero( I, J ); } ); break;
      case 7: p( "view removeNonZeros", S( i, long( w.size() ) ), iok && wok, [&] { v.removeNonZeros( I, w.begin(), w.end() ); } ); break;
      case 8: p( "numNonZeros", S( i ), iok, [&] { use( r.chance( 50 ) ? a->numNonZeros( I ) : vc.numNonZeros( I ) ); } ); break;
      case 9: p( "nonZeroCapacity", S( i ), iok, [&] { use( r.chance( 50 ) ? a->nonZeroCapacity( I ) : v.nonZeroCapacity( I ) ); } ); break;
      case 10: p( "empty row", S( i ), iok, [&] { bool const got = r.chance( 50 ) ? a->empty( I ) : vc.empty( I ); if( iok ) CHECK_EQ( c, got, sz == 0, "empty", "" ); } ); break;
      case 11: if( !iok || in( j, 0, nCols ) ) p( "empty entry", S( i, j ), ok, [&] { bool const got = r.chance( 50 ) ? a->empty( I, J ) : vc.empty( I, J ); if( ok ) CHECK_EQ( c, got, !cur.count( j ), "empty", "" ); } ); break;
      case 12:
      {
        bool const b = r.chance( 50 );
        if( r.chance( 50 ) ) { p( "getColumns", S( i ), iok, [&] { auto s = b ? a->getColumns( I ) : vc.getColumns( I ); use( s ); } ); break; }
        if( !iok ) break;
        auto const s = vc.getColumns( I ); long const q = draw< IT >( r, 0, sz, r.chance( 50 ) ); p( "getColumns []", S( i, q ), in( q, 0, sz ), [&] { use( s[ IT( q ) ] ); } ); break;
      }
      case 13: { long const nc = r.chance( 75 ) ? r.range( 0, 9 ) : -r.range( 1, 100 ); if( nc < 0 && !asserts ) break; p( "setRowCapacity", S( i, nc ), iok && nc >= 0, [&] { a->setRowCapacity( I, IT( nc ) ); } ); break; }
      case 14: p( "reserveNonZeros", S( i ), iok, [&] { a->reserveNonZeros( I, 4 ); } ); break;
      default:
      {
        long const mx = sizeof( CT ) == 8 ? std::numeric_limits< long >::max() : long( std::numeric_limits< CT >::max() );
        long nr = r.chance( 80 ) ? r.range( 0, 6 ) : -r.range( 1, 100 ), nc = r.chance( 70 ) ? r.range( nCols, 14 ) : r.chance( 50 ) || mx >= std::numeric_limits< IT >::max() ? -r.range( 1, 100 ) : r.chance( 50 ) ? mx + 2 : mx + r.range( 2, 1000 );
        bool const bok = nr >= 0 && 0 <= nc && nc <= mx;
        if( r.chance( 50 ) )
        {
          std::vector< IT > caps( std::size_t( std::max( 0L, nr ) ), 2 ); bool cok = nr >= 0 || asserts; if( !cok ) break;
          bool const done = p( "resizeFromRowCapacities", S( nr, nc ), bok, [&] { a->template resizeFromRowCapacities< RAJA::loop_exec >( IT( nr ), IT( nc ), caps.data() ); } );
          if( !done ) return;
          if( done ) nCols = nc;
        }
        else if( p( "resize", S( nr, nc ), bok, [&] { a->resize( IT( nr ), IT( nc ), IT( 2 ) ); } ) ) nCols = nc;
      }
    }
    if( r.chance( 10 ) ) columnRange< std::decay_t< decltype( *a ) >, CT, IT >( p, c );
    CHECK_EQ( c, long( a->numColumns() ), nCols, "columns", "" );
  }
  delete a;
}
template< typename CT, typename IT > void matrix( Ctx & c )
{
  using M = LvArray::CRSMatrix< double, CT, IT, LvArray::MallocBuffer >;
  Rng & r = c.rng;
  long const nCols = r.range( 0, 12 );
  auto * const a = new M( IT( r.range( 0, 6 ) ), IT( nCols ), IT( r.range( 0, 4 ) ) );
  for( IT i = 0; i < a->numRows(); ++i ) for( long q = 0, e = r.range( 0, 5 ); q < e && nCols; ++q ) a->insertNonZero( i, CT( r.range( 0, nCols - 1 ) ), double( q ) );
  Prober p{ c, [&] { return showEntries( a->toViewConst() ); } };
  for( int k = 0, steps = int( r.range( 5, 50 ) ); k < steps; ++k )
  {
    auto const v = a->toView(); auto const vs = a->toViewConstSizes(); auto const vc = a->toViewConst();
    long const n = long( a->numRows() );
    long const i = draw< IT >( r, 0, n, r.chance( 70 ) ); bool const iok = in( i, 0, n ); IT const I = IT( i );
    long const sz = iok ? long( a->numNonZeros( I ) ) : 0, cap = iok ? long( a->nonZeroCapacity( I ) ) : 0;
    long const j = draw< CT >( r, 0, nCols, r.chance( 65 ) ); bool const ok = iok && in( j, 0, nCols ); CT const J = CT( j );
    std::set< long > cur; if( iok ) for( CT x : vc.getColumns( I ) ) cur.insert( long( x ) );
    bool wok; std::vector< CT > const w = columns< CT >( r, nCols, wok ); std::vector< double > const e( w.size(), 3.5 );
    long added = 0; for( CT y : w ) added += 1 - long( cur.count( long( y ) ) );
    IT const nw = IT( w.size() );
    switch( r.below( 18 ) )
    {
      case 0: p( "insertNonZero", S( i, j ), ok, [&] { a->insertNonZero( I, J, 2.5 ); } ); break;
      case 1: p( "insertNonZeros", S( i, long( w.size() ) ), iok && wok, [&] { a->insertNonZeros( I, w.data(), e.data(), nw ); } ); break;
      case 2: p( "removeNonZero", S( i, j ), ok, [&] { a->removeNonZero( I, J ); } ); break;
      case 3: p( "removeNonZeros", S( i, long( w.size() ) ), iok && wok, [&] { a->removeNonZeros( I, w.data(), nw ); } ); break;
      case 4: p( "view insertNonZero", S( i, j ), ok && ( cur.count( j ) || sz < cap ), [&] { v.insertNonZero( I, J, 1.5 ); } ); break;
      case 5: p( "view insertNonZeros", S( i, added ), iok && wok && sz + added <= cap, [&] { v.insertNonZeros( I, w.data(), e.data(), nw ); } ); break;
      case 6: p( "view removeNonZero", S( i, j ), ok, [&] { v.removeNonZero( I, J ); } ); break;
      case 7: p( "view removeNonZeros", S( i, long( w.size() ) ), iok && wok, [&] { v.removeNonZeros( I, w.data(), nw ); } ); break;
      case 8: p( "numNonZeros", S( i ), iok, [&] { use( r.chance( 50 ) ? a->numNonZeros( I ) : vs.numNonZeros( I ) ); } ); break;
      case 9: p( "nonZeroCapacity", S( i ), iok, [&] { use( r.chance( 50 ) ? a->nonZeroCapacity( I ) : v.nonZeroCapacity( I ) ); } ); break;
      case 10: p( "empty row", S( i ), iok, [&] { bool const got = r.chance( 50 ) ? a->empty( I ) : vc.empty( I ); if( iok ) CHECK_EQ( c, got, sz == 0, "empty", "" ); } ); break;
      case 11: if( !iok || in( j, 0, nCols ) ) p( "empty entry", S( i, j ), ok, [&] { bool const got = r.chance( 50 ) ? a->empty( I, J ) : vc.empty( I, J ); if( ok ) CHECK_EQ( c, got, !cur.count( j ), "empty", "" ); } ); break;
      case 12: { bool const b = r.chance( 50 ); p( "getColumns", S( i ), iok, [&] { auto s = b ? a->getColumns( I ) : vc.getColumns( I ); use( s ); } ); break; }
      case 13: { bool const b = r.chance( 50 ); p( "getEntries", S( i ), iok, [&] { if( b ) { auto s = vs.getEntries( I ); use( s ); } else { auto s = vc.getEntries( I ); use( s ); } } ); break; }
      case 14: if( iok ) { auto const s = v.getEntries( I ); long const q = draw< IT >( r, 0, sz, r.chance( 50 ) ); p( "getEntries []", S( i, q ), in( q, 0, sz ), [&] { use( s[ IT( q ) ] ); } ); } break;
      case 15:
      { // additions to a row: the row must exist ( columns that are absent are only an assertion )
        std::vector< CT > present; for( long x : cur ) if( r.chance( 60 ) ) present.push_back( CT( x ) );
        std::vector< double > const d( present.size() + 1, 0.5 ); IT const np = IT( present.size() );
        switch( r.below( 4 ) )
        {
          case 0: p( "addToRow", S( i ), iok, [&] { vs.template addToRow< RAJA::seq_atomic >( I, present.data(), d.data(), np ); } ); break;
          case 1: p( "addToRowBinarySearch", S( i ), iok, [&] { vs.template addToRowBinarySearch< RAJA::seq_atomic >( I, present.data(), d.data(), np ); } ); break;
          case 2: p( "addToRowLinearSearch", S( i ), iok, [&] { v.template addToRowLinearSearch< RAJA::seq_atomic >( I, present.data(), d.data(), np ); } ); break;
          default: p( "addToRowBinarySearchUnsorted", S( i ), iok, [&] { a->template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( I, present.data(), d.data(), np ); } );
        }
        break;
      }
      case 16: if( iok && asserts && !cur.count( j ) )
      {
        double const d = 0.5; int const which = int( r.below( 3 ) );
        p( "addToRow absent", S( i, j ), false, [&] { if( which == 0 ) vs.template addToRow< RAJA::seq_atomic >( I, &J, &d, 1 ); else if( which == 1 ) vs.template addToRowBinarySearch< RAJA::seq_atomic >( I, &J, &d, 1 ); else vs.template addToRowBinarySearchUnsorted< RAJA::seq_atomic >( I, &J, &d, 1 ); } );
      }
      break;
      default: { long const nc = r.chance( 75 ) ? r.range( 0, 9 ) : -r.range( 1, 100 ); if( nc < 0 && !asserts ) break; p( "setRowCapacity", S( i, nc ), iok && nc >= 0, [&] { a->setRowCapacity( I, IT( nc ) ); } ); }
    }
    if( r.chance( 10 ) ) columnRange< std::decay_t< decltype( *a ) >, CT, IT >( p, c );
  }
  delete a;
}
static Register rp1( "bounds/pattern int long", pattern< int, std::ptrdiff_t >, 1, false ), rp2( "bounds/pattern uint int", pattern< unsigned, int >, 1, false ), rp3( "bounds/pattern short int", pattern< short, int >, 1, false ), rp4( "bounds/pattern long long", pattern< std::ptrdiff_t, std::ptrdiff_t >, 1, false );
static Register rm1( "bounds/matrix int long", matrix< int, std::ptrdiff_t >, 1, false ), rm2( "bounds/matrix uint int", matrix< unsigned, int >, 1, false ), rm3( "bounds/matrix short int", matrix< short, int >, 1, false ), rm4( "bounds/matrix long long", matrix< std::ptrdiff_t, std::ptrdiff_t >, 1, false );
#endif

H_MAIN()
