// C18 traversal of slices ( traverse/ ) and C19 bulk copies, setting values, zeroing and reinterpretation ( bulk/ ).
// PART selects the instances.
#include "array_util.hpp"
#include <map>
#include "memcpy.hpp"
#include "sliceHelpers.hpp"
using namespace H;

template< int N > Idx< N > drop( Idx< N + 1 > const & d ) { Idx< N > r{}; for( std::size_t k = 0; k < std::size_t( N ); ++k ) r[ k ] = d[ k + 1 ]; return r; }

// ------------------------------------------------------------------------------------------ C18
template< int M > struct Visit
{
  // s is a slice of rank M with these extents; addr is the reference address.
  template< typename S, typename F > static void go( Ctx & c, S const & s, Idx< M > const & dims, F const & addr )
  {
    using E = std::remove_reference_t< decltype( at< M >( s, Idx< M >{} ) ) >;
    std::vector< E * > want, got;
    std::vector< Idx< M > > wantIdx, gotIdx;
    forAll< M >( dims, [&]( Idx< M > const & i ) { want.push_back( addr( i ) ); wantIdx.push_back( i ); } );
    LvArray::forValuesInSlice( s, [&]( E & x ) { got.push_back( &x ); } );
    CHECK_EQ( c, long( got.size() ), long( want.size() ), "visit-count", "values visited" );
    CHECK( c, got == want, "visit-order", "values of a slice of rank " << M << " and extents " << showIdx< M >( dims ) << " are not visited in logical order" );
    got.clear();
    LvArray::forValuesInSliceWithIndices( s, [&]( E & x, auto const ... is ) { got.push_back( &x ); gotIdx.push_back( Idx< M >{ { long( is ) ... } } ); } );
    CHECK_EQ( c, long( got.size() ), long( want.size() ), "visit-indices-count", "values visited" );
    CHECK( c, got == want, "visit-indices-order", "values of a slice of rank " << M << " and extents " << showIdx< M >( dims ) << " are not visited in logical order" );
    CHECK( c, gotIdx == wantIdx, "visit-indices", "the indices passed are not those of the value" );
    // a call back passed as lvalue keeps its state
    struct Count { long n = 0; void operator()( E & ) { ++n; } } count;
    LvArray::forValuesInSlice( s, count );
    CHECK_EQ( c, count.n, long( want.size() ), "visit-lvalue", "calls of an lvalue call back" );
    c.ops += 3; c.event( want.empty() ? "empty slice" : s.isContiguous() ? "contiguous slice" : "other slice" );
    Visit< M >::deeper( c, s, dims, addr, std::integral_constant< bool, ( M > 1 ) >{} );
  }
  template< typename S, typename F > static void deeper( Ctx & c, S const & s, Idx< M > const & dims, F const & addr, std::true_type )
  {
    if( dims[ 0 ] == 0 ) return;
    long const i0 = c.rng.range( 0, dims[ 0 ] - 1 );
    Visit< M - 1 >::go( c, s[ i0 ], drop< M - 1 >( dims ), [&]( Idx< M - 1 > const & i ) { Idx< M > j{}; j[ 0 ] = i0; for( std::size_t k = 0; k + 1 < std::size_t( M ); ++k ) j[ k + 1 ] = i[ k ]; return addr( j ); } );
  }
  template< typename S, typename F > static void deeper( Ctx & c, S const & s, Idx< M > const & dims, F const &, std::false_type )
  {
    if( dims[ 0 ] == 0 ) return;
    auto & x = s[ 0 ];
    std::decay_t< decltype( x ) > const * seen = nullptr;
    LvArray::forValuesInSlice( x, [&]( auto & y ) { seen = &y; } );
    CHECK( c, seen == &x, "visit-value", "a single value is visited as itself" );
  }
};
template< typename T, int N, typename PERM, typename IT > void traverseCase( Ctx & c )
{
  Idx< N > const dims = randomDims< N >( c.rng, 200, 8 );
  MArray< T, N, PERM, IT > a; resizeAll< N >( a, dims );
  if( c.rng.chance( 30 ) ) a.reserve( a.size() + IT( c.rng.range( 0, 20 ) ) );
  long k = 0;
  forAll< N >( dims, [&]( Idx< N > const & i ) { at< N >( a, i ) = mk< T >( ++k ); } );
  Idx< N > const st = refStrides< PERM >( dims );
  c.op( "traverse %s", showIdx< N >( dims ).c_str() );
  Visit< N >::go( c, a.toSlice(), dims, [&]( Idx< N > const & i ) { return a.data() + dot< N >( i, st ); } );
  Visit< N >::go( c, a.toSliceConst(), dims, [&]( Idx< N > const & i ) -> T const * { return a.data() + dot< N >( i, st ); } );
  auto const view = a.toViewConst();
  Visit< N >::go( c, view.toSlice(), dims, [&]( Idx< N > const & i ) -> T const * { return a.data() + dot< N >( i, st ); } );
  // values can be changed in passing
  long n = 0;
  LvArray::forValuesInSlice( a.toSlice(), [&]( T & x ) { x = mk< T >( 5000 + ++n ); } );
  n = 0;
  forAll< N >( dims, [&]( Idx< N > const & i ) { CHECK_EQ( c, bk( at< N >( a, i ) ), 5000 + ++n, "visit-change", "index " << showIdx< N >( i ) ); } );
  c.nontrivial = k > 1;
}
// sums
template< typename T, int N, typename PS, typename PD, typename IT > struct Sums
{
  static void run( Ctx & c )
  {
    Idx< N > const dims = randomDims< N >( c.rng, 150, 8 );
    Idx< N - 1 > const dd = drop< N - 1 >( dims );
    MArray< T, N, PS, IT > a; resizeAll< N >( a, dims );
    MArray< T, N - 1, PD, IT > d; resizeAll< N - 1 >( d, dd );
    std::map< Idx< N - 1 >, long > want;
    std::vector< long > src;
    forAll< N - 1 >( dd, [&]( Idx< N - 1 > const & i ) { long const v = c.rng.range( -50, 50 ); at< N - 1 >( d, i ) = T( v ); want[ i ] = v; } );
    forAll< N >( dims, [&]( Idx< N > const & i ) { long const v = c.rng.range( -50, 50 ); at< N >( a, i ) = T( v ); src.push_back( v ); want[ drop< N - 1 >( i ) ] += v; } );
    c.op( "sum over the first dimension of %s into rank %d", showIdx< N >( dims ).c_str(), N - 1 );
    LvArray::sumOverFirstDimension( a.toSliceConst(), d.toSlice() );
    forAll< N - 1 >( dd, [&]( Idx< N - 1 > const & i ) { CHECK_EQ( c, long( at< N - 1 >( d, i ) ), want[ i ], "sum", "index " << showIdx< N - 1 >( i ) ); } );
    std::size_t k = 0;
    forAll< N >( dims, [&]( Idx< N > const & i ) { CHECK_EQ( c, long( at< N >( a, i ) ), src[ k ], "sum-source", "summing changed the source" ); ++k; } );
    ++c.ops; c.event( "sum" );
    c.nontrivial = src.size() > 1;
  }
};
template< typename T, typename IT > void sumOne( Ctx & c )
{
  // a whole array, or a strided column
  Idx< 2 > const dims = randomDims< 2 >( c.rng, 100, 8 );
  MArray< T, 2, camp::idx_seq< 1, 0 >, IT > a; resizeAll< 2 >( a, dims );
  MArray< T, 1, camp::idx_seq< 0 >, IT > b( dims[ 0 ] );
  forAll< 2 >( dims, [&]( Idx< 2 > const & i ) { a( i[ 0 ], i[ 1 ] ) = T( c.rng.range( -50, 50 ) ); } );
  long sum = 7;
  for( IT i = 0; i < b.size(); ++i ) { b[ i ] = T( c.rng.range( -50, 50 ) ); sum += long( b[ i ] ); }
  c.op( "sum of %ld values", long( b.size() ) );
  T x = 7;
  LvArray::sumOverFirstDimension( b.toSliceConst(), x );
  CHECK_EQ( c, long( x ), sum, "sum", "sum of a one-dimensional array" );
  if( dims[ 0 ] > 0 )
  {
    IT const r = IT( c.rng.range( 0, dims[ 0 ] - 1 ) );
    T y = -3; long want = -3;
    for( long j = 0; j < dims[ 1 ]; ++j ) want += long( a( r, j ) );
    LvArray::sumOverFirstDimension( a.toSliceConst()[ r ], y );
    CHECK_EQ( c, long( y ), want, "sum", "sum of a strided slice" );
  }
  c.ops += 2; c.event( "sum" );
  c.nontrivial = b.size() > 1;
}

// ------------------------------------------------------------------------------------------ C19
template< typename A, int N > std::vector< long > storage( A & a ) { std::vector< long > v; for( long i = 0; i < long( a.size() ); ++i ) v.push_back( bk( a.data()[ i ] ) ); return v; }
enum { REJECTED, COPIED };
// Calls f, which must either report an error and change nothing, or make exactly the elements at the
// given storage positions equal to the wanted values.
template< typename D, typename S, typename F > void copied( Ctx & c, D & dst, S & src, std::map< long, long > const & want, bool mustWork, bool mustFail, F && f, char const * what )
{
  std::vector< long > const before = storage< D, 0 >( dst ), sb = storage< S, 0 >( src );
  bool const rejected = reportsError( f );
  std::vector< long > const after = storage< D, 0 >( dst );
  ++c.ops; c.event( rejected ? "copies rejected" : "copies made" );
  CHECK( c, ( storage< S, 0 >( src ) == sb ), "copy-source", what << " changed its source" );
  CHECK( c, !( rejected && mustWork ), "copy-rejected", what << " rejected a contiguous copy between equal layouts: " << lastErrorText().substr( 0, 200 ) );
  CHECK( c, !( !rejected && mustFail ), "copy-accepted", what << " between different extents was not rejected" );
  for( long i = 0; i < long( before.size() ); ++i )
  {
    ++c.checks;
    auto const w = want.find( i );
    long const e = rejected || w == want.end() ? before[ std::size_t( i ) ] : w->second;
    if( after[ std::size_t( i ) ] != e ) c.fail( rejected ? "copy-partial" : w == want.end() ? "copy-stray" : "copy-value", std::string( what ) + ": storage position " + std::to_string( i ) + " is " + std::to_string( after[ std::size_t( i ) ] ) + ", expected " + std::to_string( e ) );
  }
}
template< int K, typename S > struct Sub { static auto get( S const & s, long const * i ) { auto const t = s[ *i ]; return Sub< K - 1, decltype( t ) >::get( t, i + 1 ); } };
template< typename S > struct Sub< 0, S > { static S get( S const & s, long const * ) { return s; } };

// K leading indices of a rank N array are fixed on either side.
template< typename T, int ND, int KD, typename PD, typename ID, int NS, int KS, typename PS, typename IS > void copyCase( Ctx & c )
{
  constexpr int M = ND - KD;
  static_assert( M == NS - KS, "" );
  Rng & r = c.rng;
  Idx< M > const inner = randomDims< M >( r, 60, 5 );
  bool const equalDims = r.chance( 85 );
  Idx< M > other = inner;
  if( !equalDims )
  {
    // other extents, of the same size if that is possible
    std::size_t const x = r.below( std::uint64_t( M ) ), y = r.below( std::uint64_t( M ) );
    if( M > 1 && r.chance( 60 ) && other[ x ] != other[ y ] ) std::swap( other[ x ], other[ y ] );
    else if( M > 1 && r.chance( 50 ) && x != y && other[ x ] % 2 == 0 && other[ x ] > 0 && other[ y ] > 0 ) { other[ x ] /= 2; other[ y ] *= 2; }
    else other[ x ] += r.range( 1, 3 );
  }
  Idx< ND > dd{}; Idx< NS > ds{};
  for( int k = 0; k < ND; ++k ) dd[ std::size_t( k ) ] = k < KD ? r.range( 1, 4 ) : inner[ std::size_t( k - KD ) ];
  for( int k = 0; k < NS; ++k ) ds[ std::size_t( k ) ] = k < KS ? r.range( 1, 4 ) : other[ std::size_t( k - KS ) ];
  if( ND == NS && KD > 0 && r.chance( 60 ) ) for( int k = 0; k < KD; ++k ) dd[ std::size_t( k ) ] = ds[ std::size_t( k ) ];
  MArray< T, ND, PD, ID > dst; resizeAll< ND >( dst, dd );
  MArray< T, NS, PS, IS > src; resizeAll< NS >( src, ds );
  long k = 0;
  for( long i = 0; i < long( dst.size() ); ++i ) dst.data()[ i ] = mk< T >( ++k );
  for( long i = 0; i < long( src.size() ); ++i ) src.data()[ i ] = mk< T >( 4000 + ++k );
  std::array< long, 6 > ld{}, ls{};
  std::array< ID, std::size_t( KD ) > id; std::array< IS, std::size_t( KS ) > is;
  for( std::size_t q = 0; q < std::size_t( KD ); ++q ) { ld[ q ] = r.range( 0, dd[ q ] - 1 ); id[ q ] = ID( ld[ q ] ); }
  for( std::size_t q = 0; q < std::size_t( KS ); ++q ) { ls[ q ] = r.range( 0, ds[ q ] - 1 ); is[ q ] = IS( ls[ q ] ); }
  Idx< ND > const std_ = refStrides< PD >( dd ); Idx< NS > const sts = refStrides< PS >( ds );
  std::map< long, long > want;
  bool sameStrides = true, sameSize = prod< M >( inner ) == prod< M >( other );
  for( std::size_t q = 0; q < std::size_t( M ); ++q ) if( std_[ q + std::size_t( KD ) ] != sts[ q + std::size_t( KS ) ] ) sameStrides = false;
  auto const posOf = [&]( auto const & strides, long const * lead, int K, Idx< M > const & i ) { long p = 0; for( int q = 0; q < K; ++q ) p += strides[ std::size_t( q ) ] * lead[ q ]; for( int q = 0; q < M; ++q ) p += strides[ std::size_t( K + q ) ] * i[ std::size_t( q ) ]; return p; };
  if( equalDims ) forAll< M >( inner, [&]( Idx< M > const & i ) { want[ posOf( std_, ld.data(), KD, i ) ] = bk( src.data()[ posOf( sts, ls.data(), KS, i ) ] ); } );
  // Extents of one in other places leave size and strides equal; nothing says what happens then. The values may be copied in the order of storage, or not at all.
  if( !equalDims && sameSize && sameStrides ) for( long q = 0; q < prod< M >( inner ); ++q ) want[ posOf( std_, ld.data(), KD, Idx< M >{} ) + q ] = bk( src.data()[ posOf( sts, ls.data(), KS, Idx< M >{} ) + q ] );
  // really contiguous, and either every extent is at least two or the array is whole or row major
  bool ge2 = true; for( long x : inner ) if( x < 2 ) ge2 = false;
  auto const dense = [&]( auto const & strides, int K ) { long lo = 0; Idx< M > last{}; for( std::size_t q = 0; q < std::size_t( M ); ++q ) last[ q ] = inner[ q ] - 1; for( int q = 0; q < M; ++q ) lo += strides[ std::size_t( K + q ) ] * last[ std::size_t( q ) ]; return lo + 1 == prod< M >( inner ); };
  bool const nonEmpty = prod< M >( inner ) > 0;
  bool const mustWork = equalDims && sameStrides && ( ( KD == 0 && KS == 0 ) || ( nonEmpty && ge2 && dense( std_, KD ) && dense( sts, KS ) ) );
  c.op( "copy %s <- %s, %d and %d leading indices", showIdx< ND >( dd ).c_str(), showIdx< NS >( ds ).c_str(), KD, KS );
  switch( r.below( 3 ) )
  {
    case 0: copied( c, dst, src, want, mustWork, !sameSize, [&]() { auto const d = Sub< KD, decltype( dst.toSlice() ) >::get( dst.toSlice(), ld.data() ); auto const s = Sub< KS, decltype( src.toSliceConst() ) >::get( src.toSliceConst(), ls.data() ); LvArray::memcpy( d, s ); }, "memcpy of slices" ); break;
    case 1: copied( c, dst, src, want, mustWork, !sameSize, [&]() { LvArray::memcpy< std::size_t( KD ), std::size_t( KS ) >( dst.toView(), id, src.toViewConst(), is ); }, "memcpy of views" ); break;
    default: copied( c, dst, src, want, mustWork, !sameSize, [&]() { camp::resources::Host h; camp::resources::Resource res( h ); LvArray::memcpy< std::size_t( KD ), std::size_t( KS ) >( res, dst.toView(), id, src.toViewConst(), is ).wait(); }, "memcpy with a resource" );
  }
  if( !equalDims && sameSize ) c.event( "same size, other extents" );
  c.nontrivial = want.size() > 1;
}
// setValues and zero
template< typename A, typename O, std::size_t NN > void convertible( Ctx & c, A & a, O & o, std::array< long, NN > const & dims, std::array< long, NN > const & d2, std::true_type )
{
  constexpr int N = int( NN );
  std::vector< long > const before = storage< A, 0 >( a );
  bool const rejected = reportsError( [&]() { a.template setValues< RAJA::loop_exec >( o.toViewConst() ); } );
  ++c.ops; c.event( rejected ? "setValues rejected" : "setValues across permutations" );
  if( rejected ) CHECK( c, ( storage< A, 0 >( a ) == before ), "set-partial", "a rejected setValues changed the array" );
  else
  {
    CHECK( c, dims == d2, "set-extents", "setValues from other extents was not rejected" );
    forAll< N >( dims, [&]( Idx< N > const & i ) { CHECK_EQ( c, bk( at< N >( a, i ) ), bk( at< N >( o, i ) ), "set-values", "index " << showIdx< N >( i ) ); } );
  }
}
template< typename A, typename O, std::size_t NN > void convertible( Ctx &, A &, O &, std::array< long, NN > const &, std::array< long, NN > const &, std::false_type ) {}
template< typename T, int N, typename PERM, typename PERM2, typename IT > void setCase( Ctx & c )
{
  Rng & r = c.rng;
  Idx< N > const dims = randomDims< N >( r, 150, 8 );
  MArray< T, N, PERM, IT > a; resizeAll< N >( a, dims );
  MArray< T, N, PERM, IT > b; resizeAll< N >( b, dims );
  long const extra = r.range( 0, 10 );
  if( extra ) a.reserve( a.size() + IT( extra ) );
  long k = 0;
  for( long i = 0; i < long( a.size() ); ++i ) a.data()[ i ] = mk< T >( ++k );
  forAll< N >( dims, [&]( Idx< N > const & i ) { at< N >( b, i ) = mk< T >( 3000 + ++k ); } );
  auto const view = a.toView();
  c.op( "set and zero %s", showIdx< N >( dims ).c_str() );
  T const v = mk< T >( r.range( 1, 900 ) );
  if( r.chance( 50 ) ) view.template setValues< RAJA::loop_exec >( v ); else a.template setValues< RAJA::loop_exec >( v );
  forAll< N >( dims, [&]( Idx< N > const & i ) { CHECK_EQ( c, bk( at< N >( a, i ) ), bk( v ), "set-value", "index " << showIdx< N >( i ) ); } );
  view.template setValues< RAJA::loop_exec >( b.toViewConst() );
  forAll< N >( dims, [&]( Idx< N > const & i ) { CHECK_EQ( c, bk( at< N >( a, i ) ), bk( at< N >( b, i ) ), "set-values", "index " << showIdx< N >( i ) ); } );
  b.zero();
  forAll< N >( dims, [&]( Idx< N > const & i ) { unsigned char z[ sizeof( T ) ] = {}; CHECK( c, std::memcmp( &at< N >( b, i ), z, sizeof( T ) ) == 0, "zero", "index " << showIdx< N >( i ) ); } );
  { long q = 0; std::vector< long > w; ( void ) q; forAll< N >( dims, [&]( Idx< N > const & i ) { CHECK( c, bk( at< N >( a, i ) ) >= 3000, "set-aliases", "zeroing one array changed another" ); } ); }
  // another layout or other extents: an error and no change, unless the layouts agree anyway
  Idx< N > d2 = dims;
  bool const sameDims = r.chance( 50 );
  if( !sameDims ) d2[ r.below( std::uint64_t( N ) ) ] += 1;
  MArray< T, N, PERM2, IT > o; resizeAll< N >( o, d2 );
  for( long i = 0; i < long( o.size() ); ++i ) o.data()[ i ] = mk< T >( 6000 + i );
  convertible( c, a, o, dims, d2, std::integral_constant< bool, ( int( decltype( a )::USD ) == int( decltype( o )::USD ) ) >{} );
  c.ops += 3; c.event( "set and zero" );
  c.nontrivial = prod< N >( dims ) > 1;
}
// reinterpretation of T as U
template< std::size_t B > struct Bytes { unsigned char b[ B ]; };
template< typename T, typename U, int N, typename PERM, typename IT > void reinterpretCase( Ctx & c )
{
  Rng & r = c.rng;
  Idx< N > dims = randomDims< N >( r, 150, 5 );
  constexpr int usd = MArray< T, N, PERM, IT >::USD;
  if( r.chance( 60 ) ) dims[ std::size_t( usd ) ] = ( 1 + dims[ std::size_t( usd ) ] / 4 ) * long( std::max< std::size_t >( 1, sizeof( U ) / sizeof( T ) ) );
  MArray< T, N, PERM, IT > a; resizeAll< N >( a, dims );
  std::size_t const bytes = std::size_t( a.size() ) * sizeof( T );
  unsigned char * const raw = reinterpret_cast< unsigned char * >( a.data() );
  for( std::size_t i = 0; i < bytes; ++i ) raw[ i ] = static_cast< unsigned char >( r.below( 256 ) );
  std::vector< unsigned char > const keep( raw, raw + bytes );
  using V = LvArray::ArrayView< U, N, usd, IT, LvArray::MallocBuffer >;
  using VC = LvArray::ArrayView< U const, N, usd, IT, LvArray::MallocBuffer >;
  long const along = dims[ std::size_t( usd ) ] * long( sizeof( T ) );
  bool const possible = along % long( sizeof( U ) ) == 0;
  c.op( "reinterpret %s from %zu to %zu bytes", showIdx< N >( dims ).c_str(), sizeof( T ), sizeof( U ) );
  bool const rejected = reportsError( [&]() { V const v( a.toView() ); ( void ) v; } );
  ++c.ops; c.event( rejected ? "reinterpretations rejected" : "reinterpretations" );
  CHECK_EQ( c, rejected, !possible, "reinterpret-report", "an error is reported exactly when the bytes do not divide" );
  if( possible )
  {
    V const v( a.toView() );
    VC const vc( a.toViewConst() );
    Idx< N > d = dims; d[ std::size_t( usd ) ] = along / long( sizeof( U ) );
    for( int k = 0; k < N; ++k ) { CHECK_EQ( c, long( v.size( k ) ), d[ std::size_t( k ) ], "reinterpret-extent", "extent " << k ); CHECK_EQ( c, long( vc.size( k ) ), d[ std::size_t( k ) ], "reinterpret-extent", "extent " << k ); }
    Idx< N > const st = refStrides< PERM >( d );
    for( int k = 0; k < N; ++k ) CHECK_EQ( c, long( v.strides()[ k ] ), st[ std::size_t( k ) ], "reinterpret-stride", "stride " << k );
    CHECK_EQ( c, long( v.size() ), prod< N >( d ), "reinterpret-size", "size" );
    CHECK( c, std::size_t( v.capacity() ) * sizeof( U ) <= std::size_t( a.capacity() ) * sizeof( T ) && v.capacity() >= v.size(), "reinterpret-capacity", "capacity " << v.capacity() );
    forAll< N >( d, [&]( Idx< N > const & i )
    {
      unsigned char const * const p = raw + std::size_t( dot< N >( i, st ) ) * sizeof( U );
      CHECK( c, reinterpret_cast< unsigned char const * >( &at< N >( v, i ) ) == p, "reinterpret-address", "index " << showIdx< N >( i ) );
      CHECK( c, reinterpret_cast< unsigned char const * >( &at< N >( vc, i ) ) == p, "reinterpret-address", "index " << showIdx< N >( i ) );
    } );
    if( prod< N >( d ) > 0 )
    { // a store through the view changes those bytes of the array alone
      Idx< N > i{}; for( std::size_t k = 0; k < std::size_t( N ); ++k ) i[ k ] = r.range( 0, d[ k ] - 1 );
      std::size_t const p = std::size_t( dot< N >( i, st ) ) * sizeof( U );
      std::memset( const_cast< std::remove_const_t< U > * >( &at< N >( v, i ) ), 0xA5, sizeof( U ) );
      for( std::size_t q = 0; q < bytes; ++q ) CHECK( c, raw[ q ] == ( q >= p && q < p + sizeof( U ) ? 0xA5 : keep[ q ] ), "reinterpret-alias", "byte " << q );
    }
  }
  c.nontrivial = bytes > sizeof( U );
}

using P1 = camp::idx_seq< 0 >; using P01 = camp::idx_seq< 0, 1 >; using P10 = camp::idx_seq< 1, 0 >;
using P012 = camp::idx_seq< 0, 1, 2 >; using P021 = camp::idx_seq< 0, 2, 1 >; using P102 = camp::idx_seq< 1, 0, 2 >; using P120 = camp::idx_seq< 1, 2, 0 >; using P201 = camp::idx_seq< 2, 0, 1 >; using P210 = camp::idx_seq< 2, 1, 0 >;
using P0123 = camp::idx_seq< 0, 1, 2, 3 >; using P3120 = camp::idx_seq< 3, 1, 2, 0 >; using P1203 = camp::idx_seq< 1, 2, 0, 3 >;
using L = std::ptrdiff_t;
#if PART == 1
#define TR( NAME, ... ) static Register r_tr_##NAME( "traverse/" #NAME, traverseCase< __VA_ARGS__ > )
TR( l1, long, 1, P1, L ); TR( s1, std::string, 1, P1, int ); TR( l2, long, 2, P01, L ); TR( l2t, long, 2, P10, int ); TR( l3a, long, 3, P012, L ); TR( l3b, long, 3, P120, L ); TR( l3c, std::string, 3, P201, L ); TR( l3d, long, 3, P102, int );
TR( l4a, long, 4, P0123, L ); TR( l4b, long, 4, P3120, L ); TR( l4c, long, 4, P1203, L ); TR( l5, long, 5, camp::idx_seq< 4, 2, 0, 1, 3 >, L );
#define SUM( NAME, ... ) static Register r_su_##NAME( "traverse/sum-" #NAME, Sums< __VA_ARGS__ >::run )
SUM( a, long, 2, P01, P1, L ); SUM( b, double, 2, P10, P1, int ); SUM( c, long, 3, P012, P01, L ); SUM( d, long, 3, P210, P10, L ); SUM( e, int, 3, P102, P10, L ); SUM( f, long, 4, P3120, P102, L );
static Register r_s1( "traverse/sum-one", sumOne< long, L > ); static Register r_s2( "traverse/sum-one-int", sumOne< double, int > );
#endif
#if PART == 2
#define CP( NAME, ... ) static Register r_cp_##NAME( "bulk/copy-" #NAME, copyCase< __VA_ARGS__ >, 2, false )
CP( v, long, 1, 0, P1, L, 1, 0, P1, L ); CP( v2, Pod, 1, 0, P1, int, 1, 0, P1, L ); CP( m, long, 2, 0, P01, L, 2, 0, P01, L ); CP( mt, long, 2, 0, P10, L, 2, 0, P10, int ); CP( row, long, 2, 1, P01, L, 1, 0, P1, L );
CP( rows, long, 2, 1, P01, L, 2, 1, P01, L ); CP( torow, double, 1, 0, P1, L, 3, 2, P012, L ); CP( mats, long, 3, 1, P012, L, 3, 1, P012, L ); CP( matsx, long, 3, 1, P102, L, 3, 1, P012, L ); CP( cube, Pod, 3, 0, P012, L, 3, 0, P102, L );
CP( cube2, long, 3, 0, P210, L, 3, 0, P120, L ); CP( mat3, long, 3, 1, P021, L, 2, 0, P10, L ); CP( deep, long, 4, 2, P0123, L, 3, 1, P012, int ); CP( deepx, long, 4, 1, P1203, L, 3, 0, P102, L ); CP( r4, long, 4, 3, P0123, L, 2, 1, P01, L );
#endif
#if PART == 3
#define ST( NAME, ... ) static Register r_st_##NAME( "bulk/set-" #NAME, setCase< __VA_ARGS__ >, 2, false )
ST( a, long, 1, P1, P1, L ); ST( b, double, 2, P01, P01, int ); ST( c, long, 2, P10, P10, L ); ST( d, Pod, 3, P012, P102, L ); ST( e, long, 3, P210, P120, L ); ST( f, float, 4, P0123, P1203, L );
#define RI( NAME, ... ) static Register r_ri_##NAME( "bulk/reinterpret-" #NAME, reinterpretCase< __VA_ARGS__ >, 1, false )
RI( down1, long, int, 1, P1, L ); RI( up1, int, long, 1, P1, L ); RI( down2, double, short, 2, P01, int ); RI( up2, float, Bytes< 16 >, 2, P10, L ); RI( up3, char, int, 3, P012, L ); RI( down3, Bytes< 12 >, float, 3, P102, L );
RI( up3b, float, Bytes< 12 >, 3, P210, L ); RI( same, int, float, 2, P01, L ); RI( down4, long, char, 4, P3120, L ); RI( up4, short, Bytes< 6 >, 4, P0123, L );
#endif
H_MAIN()
