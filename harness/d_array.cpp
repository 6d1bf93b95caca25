// Arrays: index mapping (layout/), resizing (resize/), value semantics (value/).
#include "array_util.hpp"

#ifndef ELEM
  #define ELEM long
#endif
#ifndef ELEM_NAME
  #define ELEM_NAME "long"
#endif

using namespace H;

// ---------------------------------------------------------------------------------------- full audit
// Compares every way of looking at the array with the model ( logical row-major vector ).
template< typename PERM, typename A >
void audit( Ctx & c, A const & a, Idx< PermArray< PERM >::N > const & dims, std::vector< long > const * values, char const * when )
{
  constexpr int N = PermArray< PERM >::N;
  long const size = prod< N >( dims );
  CHECK_EQ( c, long( a.size() ), size, "size", when );
  CHECK_EQ( c, a.empty(), size == 0, "empty", when );
  Idx< N > const strides = refStrides< PERM >( dims );
  for( int d = 0; d < N; ++d )
  {
    CHECK_EQ( c, long( a.size( d ) ), dims[ std::size_t( d ) ], "dim", when << " dimension " << d );
    CHECK_EQ( c, long( a.dims()[ d ] ), dims[ std::size_t( d ) ], "dim", when << " dims()[" << d << "]" );
    CHECK_EQ( c, long( a.strides()[ d ] ), strides[ std::size_t( d ) ], "stride", when << " stride " << d << " of dims " << showIdx< N >( dims ) );
  }
  CHECK( c, long( a.capacity() ) >= size, "capacity", when << " capacity " << long( a.capacity() ) << " < size " << size );
  CHECK( c, a.end() - a.begin() == size, "begin-end", when );
  std::size_t k = 0;
  forAll< N >( dims, [&]( Idx< N > const & i )
  {
    long const l = dot< N >( i, strides );
    if( values )
    {
      ++c.checks;
      long const got = bk( at< N >( a, i ) );
      if( got != ( *values )[ k ] )
        c.fail( "value", std::string( when ) + ": element " + showIdx< N >( i ) + " of dims " + showIdx< N >( dims ) + " is " + std::to_string( got ) + ", expected " + std::to_string( ( *values )[ k ] ) );
    }
    CHECK( c, &at< N >( a, i ) == a.data() + l, "paren-address", when << " index " << showIdx< N >( i ) );
    ++k;
  } );
}

// ---------------------------------------------------------------------------------------- layout
template< typename SLICE, int M > void auditSlice( Ctx & c, SLICE const & s, ELEM const * base, long const * dims, long const * strides, bool nonEmpty, bool rowMajorChain )
{
  using S = std::remove_cv_t< std::remove_reference_t< SLICE > >;
  long n = 1; for( int k = 0; k < M; ++k ) n *= dims[ k ];
  CHECK_EQ( c, long( s.size() ), n, "slice-size", "slice of rank " << M );
  bool allGe2 = true, ascending = true;
  for( int k = 0; k < M; ++k )
  {
    CHECK_EQ( c, long( s.size( k ) ), dims[ k ], "slice-dim", "slice of rank " << M << " dim " << k );
    CHECK_EQ( c, long( s.stride( k ) ), strides[ k ], "slice-stride", "slice of rank " << M << " dim " << k );
    if( dims[ k ] < 2 ) allGe2 = false;
    ( void ) ascending;
  }
  Idx< M > d{}, st{}; for( int k = 0; k < M; ++k ) { d[ std::size_t( k ) ] = dims[ k ]; st[ std::size_t( k ) ] = strides[ k ]; }
  std::vector< char > seen( std::size_t( std::max( 0L, n ) ), 0 );
  bool inside = true;
  forAll< M >( d, [&]( Idx< M > const & i )
  {
    long const l = dot< M >( i, st );
    CHECK_EQ( c, lin< M >( s, i ), l, "slice-linear-index", "slice index " << showIdx< M >( i ) );
    CHECK( c, &at< M >( s, i ) == base + l, "slice-paren-address", "slice index " << showIdx< M >( i ) );
    CHECK( c, &chain< M >( s, i ) == base + l, "slice-chain-address", "slice index " << showIdx< M >( i ) );
    if( l < 0 || l >= n ) inside = false; else seen[ std::size_t( l ) ] = 1;
  } );
  if( nonEmpty )
  {
    bool const really = inside && std::all_of( seen.begin(), seen.end(), []( char x ) { return x != 0; } );
    bool const says = s.isContiguous();
    if( says ) { CHECK( c, really && S::USD >= 0, "contiguous-unsound", "slice of rank " << M << " claims to be contiguous" ); c.event( "contiguous slices" ); }
    if( really && S::USD >= 0 && ( allGe2 || rowMajorChain || M == 1 ) ) { CHECK( c, says, "contiguous-incomplete", "contiguous slice of rank " << M << " claims not to be" ); }
    if( !really ) c.event( "strided slices" );
  }
}
template< int DEPTH > struct SliceWalk
{
  template< typename S > static void go( Ctx & c, S const & s, ELEM const * base, long const * dims, long const * strides, bool nonEmpty, bool rowMajor )
  {
    auditSlice< S, DEPTH >( c, s, base, dims, strides, nonEmpty, rowMajor );
    for( long i = 0; i < dims[ 0 ]; ++i )
    {
      if( dims[ 0 ] > 3 && i > 0 && i < dims[ 0 ] - 1 && c.rng.chance( 60 ) ) continue;
      SliceWalk< DEPTH - 1 >::go( c, s[ i ], base + i * strides[ 0 ], dims + 1, strides + 1, nonEmpty, rowMajor );
    }
  }
};
template<> struct SliceWalk< 1 >
{
  template< typename S > static void go( Ctx & c, S const & s, ELEM const * base, long const * dims, long const * strides, bool nonEmpty, bool rowMajor )
  { auditSlice< S, 1 >( c, s, base, dims, strides, nonEmpty, rowMajor ); }
};

template< typename T > T zeroOf() { return T(); }

template< typename PERM, typename IT > void layoutCase( Ctx & c )
{
  constexpr int N = PermArray< PERM >::N;
  Idx< N > const dims = randomDims< N >( c.rng, c.thorough ? 600 : 260, 6 );
  c.op( "Array of rank %d perm-case dims %s", N, showIdx< N >( dims ).c_str() );
  MArray< ELEM, N, PERM, IT > a;
  audit< PERM >( c, a, Idx< N >{}, nullptr, "default constructed" );
  resizeAll< N >( a, dims );
  long const n = prod< N >( dims );
  // Write a distinct value through one access path and read it through the others.
  std::vector< long > model;
  int const path = int( c.rng.below( 5 ) );
  c.op( "write through path %d", path );
  long v = 1;
  Idx< N > const st = refStrides< PERM >( dims );
  auto const & view = a.toView();
  auto const & slice = a.toSlice();
  forAll< N >( dims, [&]( Idx< N > const & i )
  {
    model.push_back( v );
    switch( path )
    {
      case 0: at< N >( a, i ) = mk< ELEM >( v ); break;
      case 1: chain< N >( a, i ) = mk< ELEM >( v ); break;
      case 2: a.data()[ a.data() ? lin< N >( a, i ) : 0 ] = mk< ELEM >( v ); break;
      case 3: at< N >( view, i ) = mk< ELEM >( v ); break;
      default: chain< N >( slice, i ) = mk< ELEM >( v ); break;
    }
    ++v;
  } );
  audit< PERM >( c, a, dims, &model, "after writing" );
  audit< PERM >( c, view, dims, &model, "view" );
  MArray< ELEM, N, PERM, IT > blank;
  if( c.rng.chance( 70 ) ) { resizeAll< N >( blank, randomDims< N >( c.rng, 30, 6 ) ); blank.setSingleParameterResizeIndex( int( c.rng.below( N ) ) ); }
  auto const reassigned = via( c, a.toView(), blank.toView() );
  audit< PERM >( c, reassigned, dims, &model, "reassigned view" );
  CHECK_EQ( c, reassigned.getSingleParameterResizeIndex(), a.getSingleParameterResizeIndex(), "view-resize-index", "" );
  auto const cview = via( c, a.toViewConst(), blank.toViewConst() );
  audit< PERM >( c, cview, dims, &model, "const view" );
  auto const nested = via( c, a.toNestedView(), blank.toNestedView() );
  audit< PERM >( c, nested, dims, &model, "nested view" );
  auto const nestedc = a.toNestedViewConst();
  audit< PERM >( c, nestedc, dims, &model, "nested const view" );
  // Bijection: every index has its own element and together they are the whole storage.
  std::vector< char > seen( std::size_t( std::max( 0L, n ) ), 0 );
  std::size_t k = 0;
  forAll< N >( dims, [&]( Idx< N > const & i )
  {
    long const l = lin< N >( a, i );
    CHECK( c, l >= 0 && l < n, "linear-range", "index " << showIdx< N >( i ) << " has linear index " << l << " of " << n );
    CHECK( c, !seen[ std::size_t( l ) ], "linear-injective", "index " << showIdx< N >( i ) << " shares linear index " << l );
    seen[ std::size_t( l ) ] = 1;
    CHECK_EQ( c, l, dot< N >( i, st ), "linear-value", "index " << showIdx< N >( i ) );
    CHECK_EQ( c, lin< N >( view, i ), l, "view-linear", "index " << showIdx< N >( i ) );
    CHECK_EQ( c, lin< N >( slice, i ), l, "slice-linear", "index " << showIdx< N >( i ) );
    CHECK( c, &chain< N >( a, i ) == a.data() + l, "chain-address", "index " << showIdx< N >( i ) );
    CHECK( c, &chain< N >( view, i ) == a.data() + l, "view-chain-address", "index " << showIdx< N >( i ) );
    CHECK( c, &chain< N >( cview, i ) == a.data() + l, "cview-chain-address", "index " << showIdx< N >( i ) );
    CHECK( c, &at< N >( slice, i ) == a.data() + l, "slice-address", "index " << showIdx< N >( i ) );
    CHECK( c, &at< N >( a.toSliceConst(), i ) == a.data() + l, "cslice-address", "index " << showIdx< N >( i ) );
    CHECK( c, &atOdd< N >( a, i ) == a.data() + l && &atOdd< N >( view, i ) == a.data() + l && &atOdd< N >( slice, i ) == a.data() + l, "mixed-index-types", "index " << showIdx< N >( i ) );
    CHECK( c, linOdd< N >( a, i ) == l && linOdd< N >( slice, i ) == l, "mixed-index-types", "linear index of " << showIdx< N >( i ) );
    CHECK_EQ( c, bk( a.data()[ l ] ), model[ k ], "storage-order", "index " << showIdx< N >( i ) );
    ++k;
  } );
  CHECK( c, a.toSlice().isContiguous(), "whole-contiguous", "dims " << showIdx< N >( dims ) );
  CHECK( c, a.toSlice().dataIfContiguous() == a.data(), "data-if-contiguous", "" );
  { long k2 = 0; for( auto const & x : a.toSliceConst() ) { ( void ) x; ++k2; } CHECK_EQ( c, k2, n, "slice-range-for", "" ); }
  if( n > 0 )
  {
    CHECK_EQ( c, bk( a.front() ), bk( a.data()[ 0 ] ), "front", "" );
    CHECK( c, &a.front() == a.data() && &a.back() == a.data() + n - 1, "front-back-address", "" );
    std::vector< long > it; for( auto const & x : a ) it.push_back( bk( x ) );
    CHECK_EQ( c, long( it.size() ), n, "range-for", "" );
    for( long q = 0; q < n; ++q ) CHECK_EQ( c, it[ std::size_t( q ) ], bk( a.data()[ q ] ), "range-for", "position " << q );
  }
  bool rowMajor = true; { auto p = PermArray< PERM >::get(); for( int q = 0; q < N; ++q ) rowMajor &= p[ std::size_t( q ) ] == q; }
  SliceWalk< N >::go( c, a.toSlice(), a.data(), dims.data(), st.data(), n > 0, rowMajor );
  SliceWalk< N >::go( c, a.toSliceConst(), a.data(), dims.data(), st.data(), n > 0, rowMajor );
  c.event( "index tuples mapped", n );
  c.nontrivial = n > 1;
}

// ---------------------------------------------------------------------------------------- resizing
template< typename PERM, typename IT > struct ResizeModel
{
  static constexpr int N = PermArray< PERM >::N;
  using A = MArray< ELEM, N, PERM, IT >;
  Ctx & c;
  A a;
  Idx< N > dims{};
  std::vector< long > v;      // logical row-major
  int srz = 0;
  long next = 1;
  explicit ResizeModel( Ctx & ctx ): c( ctx ) {}

  std::size_t flat( Idx< N > const & i, Idx< N > const & d ) const { std::size_t r = 0; for( std::size_t k = 0; k < std::size_t( N ); ++k ) r = r * std::size_t( d[ k ] ) + std::size_t( i[ k ] ); return r; }
  void refill()
  {
    v.clear();
    forAll< N >( dims, [&]( Idx< N > const & i ) { long x = next++; v.push_back( x ); at< N >( a, i ) = mk< ELEM >( x ); } );
  }
  // After a resize that may rearrange: the elements whose place in storage is new are value initialised.
  void afterFull( Idx< N > const & nd, long oldSize )
  {
    dims = nd;
    audit< PERM >( c, a, dims, nullptr, "after resize" );
    long const n = prod< N >( dims );
    for( long q = std::min( oldSize, n ); q < n; ++q ) CHECK_EQ( c, bk( a.data()[ q ] ), 0L, "new-not-default", "storage position " << q << " of " << n << " after growing from " << oldSize );
    c.event( "new elements checked", std::max( 0L, n - oldSize ) );
  }
  void check( char const * when ) { audit< PERM >( c, a, dims, &v, when ); CHECK_EQ( c, int( a.getSingleParameterResizeIndex() ), srz, "srz-index", when ); }
  void single( long nd, bool withDefault )
  {
    long const dv = withDefault ? next++ : 0;
    c.op( "%s(%ld) index %d dims %s", withDefault ? "resizeDefault" : "resize1", nd, srz, showIdx< N >( dims ).c_str() );
    Idx< N > d2 = dims; d2[ std::size_t( srz ) ] = nd;
    std::vector< long > w;
    forAll< N >( d2, [&]( Idx< N > const & i ) { w.push_back( i[ std::size_t( srz ) ] < dims[ std::size_t( srz ) ] ? v[ flat( i, dims ) ] : dv ); } );
    if( withDefault ) { ELEM const dflt = mk< ELEM >( dv ); a.resizeDefault( IT( nd ), dflt ); CHECK_EQ( c, bk( dflt ), dv, "default-argument-changed", "" ); }
    else a.resize( IT( nd ) );
    if( prod< N >( d2 ) > prod< N >( dims ) ) c.event( "growing single-dimension resizes" ); else c.event( "other single-dimension resizes" );
    v.swap( w ); dims = d2;
    check( withDefault ? "after resizeDefault" : "after resize of one dimension" );
  }
  using LastFirst = std::conditional_t< N == 1, std::integer_sequence< int, 0 >, std::integer_sequence< int, N - 1, 0 > >;
  template< int... IS > void resizeDims( Idx< N > const & nd, std::integer_sequence< int, IS... > ) { a.template resizeDimension< IT( IS )... >( nd[ std::size_t( IS ) ]... ); }
  void run( int steps )
  {
    for( int s = 0; s < steps; ++s )
    {
      long const oldSize = prod< N >( dims );
      switch( c.rng.below( 12 ) )
      {
        case 0:
        {
          Idx< N > nd = randomDims< N >( c.rng, 200, 5 );
          if( N == 1 ) { single( nd[ 0 ], false ); break; }
          c.op( "resize%s", showIdx< N >( nd ).c_str() );
          if( c.rng.chance( 50 ) ) resizeAll< N >( a, nd ); else resizeOdd< N >( a, nd );
          afterFull( nd, oldSize ); refill(); check( "after refill" ); break;
        }
        case 1:
        {
          Idx< N > nd = randomDims< N >( c.rng, 200, 5 );
          c.op( "resize(ptr)%s", showIdx< N >( nd ).c_str() );
          a.resize( N, nd.data() ); afterFull( nd, oldSize ); refill(); check( "after refill" ); break;
        }
        case 2:
        {
          Idx< N > rd = randomDims< N >( c.rng, 200, 4 ), nd = dims;
          nd[ 0 ] = rd[ 0 ];
          c.op( "resizeDimension<0>(%ld)", nd[ 0 ] );
          resizeDims( nd, std::integer_sequence< int, 0 >{} ); afterFull( nd, oldSize ); refill(); check( "after refill" ); break;
        }
        case 3:
        {
          Idx< N > rd = randomDims< N >( c.rng, 200, 4 ), nd = dims;
          nd[ N - 1 ] = rd[ N - 1 ]; nd[ 0 ] = rd[ 0 ];
          if( N == 1 ) break;
          c.op( "resizeDimension<last,0>(%ld,%ld)", nd[ N - 1 ], nd[ 0 ] );
          resizeDims( nd, LastFirst{} ); afterFull( nd, oldSize ); refill(); check( "after refill" ); break;
        }
        case 4: srz = int( c.rng.below( std::uint64_t( N ) ) ); c.op( "setSingleParameterResizeIndex(%d)", srz ); a.setSingleParameterResizeIndex( srz ); check( "after setSingleParameterResizeIndex" ); break;
        case 5:
        {
          long const cap = c.rng.range( 0, 300 );
          c.op( "reserve(%ld)", cap );
          auto const before = a.capacity();
          a.reserve( IT( cap ) );
          CHECK( c, long( a.capacity() ) >= cap && a.capacity() >= before, "reserve-capacity", "capacity " << long( a.capacity() ) << " after reserve( " << cap << " ), was " << long( before ) );
          ELEM const * const p = a.data();
          check( "after reserve" );
          // No reallocation while the reserved capacity suffices.
          if( cap > 0 && prod< N >( dims ) > 0 )
          {
            long const rest = prod< N >( dims ) / dims[ std::size_t( srz ) ];
            if( rest > 0 )
            {
              long const fit = std::max( cap, long( before ) ) / rest;
              single( c.rng.range( 0, fit ), c.rng.chance( 50 ) );
              CHECK( c, a.data() == p, "reserve-reallocated", "data moved although the reserved capacity sufficed" );
            }
          }
          break;
        }
        case 6: if( c.rng.chance( 30 ) ) { c.op( "clear" ); auto const cap = a.capacity(); a.clear(); dims[ std::size_t( srz ) ] = 0; v.clear(); check( "after clear" ); CHECK_EQ( c, long( a.capacity() ), long( cap ), "clear-capacity", "" ); } break;
        default:
        {
          long rest = 1; for( int d = 0; d < N; ++d ) if( d != srz ) rest *= std::max( 1L, dims[ std::size_t( d ) ] );
          long const lim = std::max( 2L, 260 / rest );
          single( c.rng.chance( 5 ) ? 0 : std::max( 0L, std::min( lim, dims[ std::size_t( srz ) ] + c.rng.range( -4, 5 ) ) ), c.rng.chance( 45 ) );
        }
      }
    }
  }
};
template< typename PERM, typename IT > void resizeCase( Ctx & c )
{
  ResizeModel< PERM, IT > m( c );
  constexpr int N = PermArray< PERM >::N;
  m.check( "default constructed" );
  if( c.rng.chance( 90 ) )
  {
    Idx< N > nd = randomDims< N >( c.rng, 120, 3 );
    c.op( "initial resize%s", showIdx< N >( nd ).c_str() );
    m.a.resize( N, nd.data() ); m.afterFull( nd, 0 ); m.refill();
  }
  if( c.rng.chance( 70 ) ) { m.srz = int( c.rng.below( std::uint64_t( N ) ) ); m.a.setSingleParameterResizeIndex( m.srz ); c.op( "setSingleParameterResizeIndex(%d)", m.srz ); }
  m.run( c.thorough ? 40 : 18 );
  c.nontrivial = c.ops > 6;
}
// Sized construction.
template< typename PERM, typename IT, std::size_t... IS > void sizedImpl( Ctx & c, Idx< PermArray< PERM >::N > const & d, std::index_sequence< IS... > )
{
  constexpr int N = PermArray< PERM >::N;
  MArray< ELEM, N, PERM, IT > a( d[ IS ]... );
  std::vector< long > zeros( std::size_t( prod< N >( d ) ), 0 );
  audit< PERM >( c, a, d, &zeros, "sized construction" );
}
template< typename PERM, typename IT > void sizedCase( Ctx & c )
{
  constexpr int N = PermArray< PERM >::N;
  Idx< N > const d = randomDims< N >( c.rng, 200, 5 );
  c.op( "construct%s", showIdx< N >( d ).c_str() );
  sizedImpl< PERM, IT >( c, d, std::make_index_sequence< std::size_t( N ) >{} );
  c.nontrivial = prod< N >( d ) > 0;
}

// resizeWithoutInitializationOrDestruction ( trivially destructible types only ).
template< typename T, typename PERM, typename IT, std::size_t... IS >
std::enable_if_t< std::is_trivially_destructible< T >::value > rawResize( Ctx & c, std::index_sequence< IS... > )
{
  constexpr int N = PermArray< PERM >::N;
  MArray< T, N, PERM, IT > a;
  std::vector< long > storage;
  for( int s = 0; s < 6; ++s )
  {
    Idx< N > const d = randomDims< N >( c.rng, 200, 5 );
    c.op( "resizeWithoutInitializationOrDestruction%s", showIdx< N >( d ).c_str() );
    std::vector< long > old = storage;
    a.resizeWithoutInitializationOrDestruction( d[ IS ]... );
    audit< PERM >( c, a, d, nullptr, "after resizeWithoutInitializationOrDestruction" );
    long const n = prod< N >( d );
    for( long q = 0; q < std::min( n, long( old.size() ) ); ++q ) CHECK_EQ( c, bk( a.data()[ q ] ), old[ std::size_t( q ) ], "raw-resize-lost", "storage position " << q );
    storage.resize( std::size_t( n ) );
    for( long q = 0; q < n; ++q ) { storage[ std::size_t( q ) ] = s * 1000 + q + 1; a.data()[ q ] = mk< T >( storage[ std::size_t( q ) ] ); }
  }
  c.nontrivial = true;
}
template< typename T, typename PERM, typename IT, std::size_t... IS >
std::enable_if_t< !std::is_trivially_destructible< T >::value > rawResize( Ctx &, std::index_sequence< IS... > ) {}
template< typename PERM, typename IT > void rawCase( Ctx & c ) { rawResize< ELEM, PERM, IT >( c, std::make_index_sequence< std::size_t( PermArray< PERM >::N ) >{} ); }

// ---------------------------------------------------------------------------------------- value semantics
template< typename PERM, typename IT > void valueCase( Ctx & c )
{
  constexpr int N = PermArray< PERM >::N;
  using A = MArray< ELEM, N, PERM, IT >;
  struct Slot { std::unique_ptr< A > a; Idx< N > dims{}; std::vector< long > v; int srz = 0; bool movedFrom = false; };
  std::vector< Slot > slots( 3 );
  long next = 1;
  auto fill = [&]( Slot & s ) { s.v.clear(); forAll< N >( s.dims, [&]( Idx< N > const & i ) { long x = next++; s.v.push_back( x ); at< N >( *s.a, i ) = mk< ELEM >( x ); } ); };
  auto fresh = [&]( Slot & s )
  {
    s.a = std::make_unique< A >(); s.dims = randomDims< N >( c.rng, 80, 8 ); s.srz = int( c.rng.below( std::uint64_t( N ) ) ); s.movedFrom = false;
    resizeAll< N >( *s.a, s.dims ); s.a->setSingleParameterResizeIndex( s.srz ); fill( s );
  };
  auto check = [&]( char const * when )
  {
    for( auto & s : slots )
    {
      if( s.movedFrom )
      {
        CHECK_EQ( c, long( s.a->size() ), 0L, "moved-from-not-empty", when );
        for( int d = 0; d < N; ++d ) CHECK_EQ( c, long( s.a->size( d ) ), 0L, "moved-from-not-empty", when << " dim " << d );
        CHECK( c, s.a->empty() && s.a->begin() == s.a->end(), "moved-from-not-empty", when );
      }
      else { audit< PERM >( c, *s.a, s.dims, &s.v, when ); CHECK_EQ( c, int( s.a->getSingleParameterResizeIndex() ), s.srz, "srz-index", when ); }
    }
    for( std::size_t x = 0; x < slots.size(); ++x ) for( std::size_t y = x + 1; y < slots.size(); ++y )
      if( slots[ x ].a->data() != nullptr && !slots[ x ].movedFrom && !slots[ y ].movedFrom && slots[ x ].a->size() > 0 && slots[ y ].a->size() > 0 )
        CHECK( c, slots[ x ].a->data() != slots[ y ].a->data(), "shared-storage", when );
  };
  for( auto & s : slots ) fresh( s );
  check( "fresh" );
  int const steps = c.thorough ? 40 : 16;
  for( int k = 0; k < steps; ++k )
  {
    std::size_t const x = c.rng.below( 3 ), y = ( x + 1 + c.rng.below( 2 ) ) % 3;
    Slot & s = slots[ x ]; Slot & t = slots[ y ];
    switch( c.rng.below( 9 ) )
    {
      case 0: c.op( "copy construct %zu from %zu", x, y ); s.a = std::make_unique< A >( *t.a ); s.dims = t.movedFrom ? Idx< N >{} : t.dims; s.v = t.movedFrom ? std::vector< long >() : t.v; s.srz = t.a->getSingleParameterResizeIndex(); s.movedFrom = t.movedFrom; break;
      case 1: c.op( "copy assign %zu from %zu", x, y ); *s.a = *t.a; s.dims = t.movedFrom ? Idx< N >{} : t.dims; s.v = t.movedFrom ? std::vector< long >() : t.v; s.srz = t.a->getSingleParameterResizeIndex(); s.movedFrom = t.movedFrom; break;
      case 2: { c.op( "move construct %zu from %zu", x, y ); bool m = t.movedFrom; int z = t.a->getSingleParameterResizeIndex(); s.a = std::make_unique< A >( std::move( *t.a ) ); s.dims = t.dims; s.v = t.v; s.srz = z; s.movedFrom = m; t.movedFrom = true; break; }
      case 3: { c.op( "move assign %zu from %zu", x, y ); bool m = t.movedFrom; int z = t.a->getSingleParameterResizeIndex(); *s.a = std::move( *t.a ); s.dims = t.dims; s.v = t.v; s.srz = z; s.movedFrom = m; t.movedFrom = true; break; }
      case 4: { c.op( "self copy assign %zu", x ); A & r = *s.a; *s.a = r; break; }
      case 5: c.op( "rebuild %zu", x ); fresh( s ); break;
      case 6: // reuse, also after having been moved from
      { c.op( "resize and refill %zu", x ); s.dims = randomDims< N >( c.rng, 80, 5 ); resizeAll< N >( *s.a, s.dims ); s.srz = s.a->getSingleParameterResizeIndex(); s.movedFrom = false; fill( s ); break; }
      case 7: // views alias, and their copies alias too
      {
        if( s.movedFrom || s.v.empty() ) break;
        c.op( "write %zu through a copied view", x );
        auto const view = s.a->toView(); auto const copy = view;
        typename std::decay< decltype( view ) >::type third( t.movedFrom ? *s.a : *t.a ); third = copy;
        std::size_t q = 0;
        forAll< N >( s.dims, [&]( Idx< N > const & i ) { if( c.rng.chance( 30 ) ) { long z = next++; at< N >( third, i ) = mk< ELEM >( z ); s.v[ q ] = z; } ++q; } );
        audit< PERM >( c, view, s.dims, &s.v, "view" ); audit< PERM >( c, copy, s.dims, &s.v, "copy of a view" ); audit< PERM >( c, third, s.dims, &s.v, "assigned view" );
        CHECK( c, view.data() == s.a->data() && copy.data() == s.a->data(), "view-storage", "" );
        auto const sl = s.a->toSlice(); auto const sl2 = sl; CHECK( c, &at< N >( sl2, Idx< N >{} ) == s.a->data(), "slice-storage", "" );
        break;
      }
      case 8:
      {
        if( s.movedFrom || t.movedFrom || prod< N >( t.dims ) == 0 ) break;
        c.op( "setValues %zu from %zu", x, y );
        resizeAll< N >( *s.a, t.dims ); s.dims = t.dims;
        if( c.rng.chance( 50 ) ) { s.a->template setValues< RAJA::seq_exec >( t.a->toViewConst() ); s.v = t.v; }
        else { ELEM const z = mk< ELEM >( next ); s.a->template setValues< RAJA::seq_exec >( z ); s.v.assign( t.v.size(), next ); ++next; }
        break;
      }
    }
    check( "after step" );
  }
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------- registration
template< typename PERM, typename IT > void reg( std::string const & tag )
{
  Register( "layout/" ELEM_NAME "/" + tag, layoutCase< PERM, IT >, 2 );
  Register( "resize/" ELEM_NAME "/" + tag, resizeCase< PERM, IT >, 4 );
  Register( "sized/" ELEM_NAME "/" + tag, sizedCase< PERM, IT >, 1 );
  if( std::is_trivially_destructible< ELEM >::value ) Register( "raw/" ELEM_NAME "/" + tag, rawCase< PERM, IT >, 1 );
  Register( "value/" ELEM_NAME "/" + tag, valueCase< PERM, IT >, 2 );
}
static int registerAll()
{
  using namespace RAJA;
  using L = std::ptrdiff_t;
#if PART == 1
  reg< PERM_I, L >( "I" ); reg< PERM_I, int >( "I-int" );
  reg< PERM_IJ, L >( "IJ" ); reg< PERM_JI, L >( "JI" ); reg< PERM_JI, int >( "JI-int" );
  reg< PERM_IJK, L >( "IJK" );
#elif PART == 2
  reg< PERM_IKJ, L >( "IKJ" ); reg< PERM_JIK, L >( "JIK" ); reg< PERM_JKI, int >( "JKI-int" ); reg< PERM_KIJ, L >( "KIJ" ); reg< PERM_KJI, L >( "KJI" );
#else
  reg< PERM_IJKL, L >( "IJKL" ); reg< PERM_LKJI, L >( "LKJI" ); reg< PERM_JLIK, L >( "JLIK" ); reg< PERM_KILJ, int >( "KILJ-int" ); reg< PERM_MKIJL, L >( "MKIJL" );
#endif
  return 0;
}
static int const registered = registerAll();
H_MAIN()
