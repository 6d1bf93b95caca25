// What can be reached and changed through every kind of access to a container (access/): each expression is tried on
// each kind as far as its type admits it, what it does is compared with what the documentation grants.
#include "array_util.hpp"
#include "SortedArray.hpp"
#include "ArrayOfArrays.hpp"
#include "ArrayOfSets.hpp"
#include "SparsityPattern.hpp"
#include "CRSMatrix.hpp"
#ifndef ELEM
  #define ELEM long
#endif
#ifndef ELEM_NAME
  #define ELEM_NAME "long"
#endif
using namespace H;
using T = ELEM;

template< typename F, typename V > auto admit( F && f, V && v, int ) -> decltype( f( std::forward< V >( v ) ), bool() ) { f( std::forward< V >( v ) ); return true; }
template< typename F, typename V > bool admit( F &&, V &&, long ) { return false; }
// Whether it would be, without doing it.
template< typename F, typename V > constexpr auto can( F *, V *, int ) -> decltype( std::declval< F & >()( std::declval< V & >() ), bool() ) { return true; }
template< typename F, typename V > constexpr bool can( F *, V *, long ) { return false; }
// A lambda that exists for the types with which its expression is well formed.
#define FORM( ... ) [&]( auto && v ) -> decltype( void( __VA_ARGS__ ) ) { __VA_ARGS__; }
#define MOVED( ... ) [&]( auto && v ) -> decltype( void( std::move( v ).__VA_ARGS__ ) ) { std::move( v ).__VA_ARGS__; }

enum Grant { NO, YES };

// The observable state of one container as numbers, and which of them an attempt is meant to change.
struct Probe
{
  Ctx & c; std::function< std::vector< long >() > state; std::vector< long > model; char const * kind; long next = 5000;
  Probe( Ctx & ctx, std::function< std::vector< long >() > s ): c( ctx ), state( std::move( s ) ), model( state() ), kind( "" ) { std::string d; for( long x : model ) d += " " + std::to_string( x ); c.op( "state%s", d.substr( 0, 200 ).c_str() ); }
  void verify( char const * what, char const * key )
  {
    std::vector< long > const now = state();
    CHECK_EQ( c, long( now.size() ), long( model.size() ), key, kind << " " << what );
    for( std::size_t q = 0; q < now.size() && q < model.size(); ++q ) CHECK_EQ( c, now[ q ], model[ q ], key, kind << " " << what << " position " << q );
    model = now; ++c.ops;
  }
  // Write through an expression; pos is where its value belongs in the state.
  template< typename V, typename F > void write( char const * what, V && v, Grant g, std::size_t pos, T const & x, F && f )
  {
    c.op( "%s %s", kind, what );
    bool const admitted = admit( f, std::forward< V >( v ), 0 );
    if( g == YES ) { CHECK( c, admitted, "access-denied", kind << " " << what ); if( admitted ) model[ pos ] = bk( x ); c.event( "granted writes" ); verify( what, "write-lost" ); }
    else { c.event( admitted ? "ineffective writes" : "writes refused" ); verify( what, "written-read-only" ); }
  }
  template< typename V, typename F > void read( char const * what, V && v, F && f )
  { c.op( "%s reads %s", kind, what ); CHECK( c, admit( f, std::forward< V >( v ), 0 ), "access-denied", kind << " reads " << what ); c.event( "reads" ); verify( what, "changed-by-reading" ); }
  template< typename V, typename F > void refused( char const * what, V && v, F && f )
  { c.op( "%s %s", kind, what ); CHECK( c, !can( &f, &v, 0 ), "access-granted", kind << " " << what ); c.event( "refused uses" ); verify( what, "written-read-only" ); }
};
// Read through an expression, then try to write through it.
#define BOTH( GRANT, POS, WANT, ... ) do { \
    T got{}; ( void ) got; p.read( #__VA_ARGS__, subject, FORM( keep( __VA_ARGS__ ) ) ); CHECK_EQ( c, s_kept, long( WANT ), "read", p.kind << " " #__VA_ARGS__ ); \
    T const x = mk< T >( ++p.next ); p.write( #__VA_ARGS__ " = x", subject, GRANT, std::size_t( POS ), x, FORM( __VA_ARGS__ = x ) ); } while( 0 )
// The same for indices, which are plain integers.
#define BOTHINT( GRANT, POS, WANT, ... ) do { \
    p.read( #__VA_ARGS__, subject, FORM( keep( __VA_ARGS__ ) ) ); CHECK_EQ( c, s_kept, long( WANT ), "read", p.kind << " " #__VA_ARGS__ ); \
    long const was = long( WANT ); CHECK( c, !admit( FORM( ( __VA_ARGS__ ) = 1 ), subject, 0 ) || ( p.verify( #__VA_ARGS__ " = 1", "written-read-only" ), true ), "read", "" ); ( void ) was; c.event( "structure writes tried" ); } while( 0 )
static long s_kept;
template< typename X > std::enable_if_t< !std::is_integral< X >::value || std::is_same< X, T >::value > keep( X const & x ) { s_kept = bk( x ); }
template< typename X > std::enable_if_t< std::is_integral< X >::value && !std::is_same< X, T >::value > keep( X const & x ) { s_kept = long( x ); }

// ----------------------------------------------------------------------------------------- arrays
template< typename PERM, typename IT > struct Arrays
{
  static constexpr int USD = LvArray::typeManipulation::getStrideOneDimension( PERM{} );
  template< typename U > using View = LvArray::ArrayView< U, 2, USD, IT, LV_BUF >;
  template< typename U > using Slice = LvArray::ArraySlice< U, 2, USD, IT >;
  static Slice< T > writableSlice( Slice< T > s ) { return s; }
  static View< T > const & writable( View< T > const & v ) { return v; }
  static View< T const > readable( View< T const > const & v ) { return v; }
  static Slice< T const > readableSlice( Slice< T const > s ) { return s; }

  template< typename V > static void slices( Ctx & c, Probe & p, V && subject, Grant g, long i, long j, std::size_t l )
  {
    IT const I = IT( i ), J = IT( j );
    BOTH( g, l, p.model[ l ], v[ I ][ J ] );
    BOTH( g, l, p.model[ l ], v( I, J ) );
    BOTH( g, l, p.model[ l ], writableSliceOr( v )( I, J ) );
    BOTH( NO, l, p.model[ l ], readableSlice( v )( I, J ) );
    { T const x = mk< T >( ++p.next ); p.write( "writable slice", subject, g, l, x, FORM( writableSlice( v )( I, J ) = x ) ); }
  }
  template< typename S > static auto writableSliceOr( S const & s ) -> std::decay_t< decltype( s.toSlice() ) > { return s.toSlice(); }
  template< typename U, int N, int USD_ > static LvArray::ArraySlice< U, N, USD_, IT > writableSliceOr( LvArray::ArraySlice< U, N, USD_, IT > const & s ) { return s; }

  template< typename V > static void views( Ctx & c, Probe & p, V && subject, Grant g, long i, long j, std::size_t l, std::size_t n )
  {
    IT const I = IT( i ), J = IT( j );
    slices( c, p, subject, g, i, j, l );
    BOTH( g, l, p.model[ l ], v.data()[ l ] );
    BOTH( g, l, p.model[ l ], *( v.begin() + l ) );
    BOTH( g, 0, p.model[ 0 ], v.front() );
    BOTH( g, n - 1, p.model[ n - 1 ], v.back() );
    BOTH( g, l, p.model[ l ], v.toSlice()[ I ][ J ] );
    BOTH( g, l, p.model[ l ], v.toView()( I, J ) );
    BOTH( NO, l, p.model[ l ], v.toViewConst()( I, J ) );
    BOTH( NO, l, p.model[ l ], v.toSliceConst()( I, J ) );
    BOTH( NO, l, p.model[ l ], readable( v )( I, J ) );
    BOTH( g, l, p.model[ l ], v.toSlice().dataIfContiguous()[ l ] );
    BOTH( NO, l, p.model[ l ], v.toSliceConst().dataIfContiguous()[ l ] );
    { T const x = mk< T >( ++p.next ); p.write( "as writable view", subject, g, l, x, FORM( writable( v )( I, J ) = x ) ); }
    BOTHINT( NO, n, p.model[ n ], v.dims()[ 0 ] );
    BOTHINT( NO, n + 2, p.model[ n + 2 ], v.strides()[ 0 ] );
    BOTHINT( NO, n, p.model[ n ], v.dimsArray()[ 0 ] );
  }
  static void run( Ctx & c )
  {
    using A = LvArray::Array< T, 2, PERM, IT, LV_BUF >;
    Idx< 2 > d{ { c.rng.range( 1, 5 ), c.rng.range( 1, 5 ) } }; c.op( "array %s", showIdx< 2 >( d ).c_str() );
    A a; resizeAll< 2 >( a, d ); for( long q = 0; q < long( a.size() ); ++q ) a.data()[ q ] = mk< T >( 100 + q );
    std::size_t const n = std::size_t( a.size() );
    Probe p( c, [&] { std::vector< long > s; for( long q = 0; q < long( n ); ++q ) s.push_back( bk( a.data()[ q ] ) ); for( int k = 0; k < 2; ++k ) s.push_back( a.size( k ) ); for( int k = 0; k < 2; ++k ) s.push_back( a.strides()[ k ] ); return s; } );
    long const i = c.rng.range( 0, d[ 0 ] - 1 ), j = c.rng.range( 0, d[ 1 ] - 1 ); std::size_t const l = std::size_t( lin< 2 >( a, Idx< 2 >{ { i, j } } ) );
    auto const v = a.toView(); auto const cv = a.toViewConst(); auto const s = a.toSlice(); auto const cs = a.toSliceConst();
    auto const nv = a.toNestedView(); auto const ncv = a.toNestedViewConst(); View< T const > const converted = v;
    p.kind = "Array"; views( c, p, a, YES, i, j, l, n );
    p.kind = "ArrayView"; views( c, p, v, YES, i, j, l, n );
    p.kind = "nested view"; views( c, p, nv, YES, i, j, l, n );
    p.kind = "const view"; views( c, p, cv, NO, i, j, l, n );
    p.kind = "nested const view"; views( c, p, ncv, NO, i, j, l, n );
    p.kind = "converted view"; views( c, p, converted, NO, i, j, l, n );
    p.kind = "slice"; slices( c, p, s, YES, i, j, l );
    p.kind = "const slice"; slices( c, p, cs, NO, i, j, l );
    p.kind = "inner slice"; { auto const subject = a[ IT( i ) ]; BOTH( YES, l, p.model[ l ], v[ IT( j ) ] ); BOTH( YES, l, p.model[ l ], v( IT( j ) ) ); BOTH( NO, l, p.model[ l ], v.toSliceConst()( IT( j ) ) ); }
    p.kind = "inner const slice"; { auto const subject = cv[ IT( i ) ]; BOTH( NO, l, p.model[ l ], v[ IT( j ) ] ); BOTH( NO, l, p.model[ l ], v( IT( j ) ) ); BOTH( NO, l, p.model[ l ], v.toSliceConst()( IT( j ) ) ); }
    // views do not resize
    p.kind = "ArrayView"; p.refused( "resize", v, FORM( v.resize( 3, 3 ) ) ); p.refused( "resize of one dimension", v, FORM( v.resize( 3 ) ) ); p.refused( "clear", v, FORM( v.clear() ) ); p.refused( "reserve", v, FORM( v.reserve( 100 ) ) );
    // temporaries are neither viewed nor sliced
    p.kind = "temporary Array"; A t( a );
    p.refused( "toView", t, MOVED( toView() ) ); p.refused( "toViewConst", t, MOVED( toViewConst() ) ); p.refused( "toNestedView", t, MOVED( toNestedView() ) ); p.refused( "toNestedViewConst", t, MOVED( toNestedViewConst() ) );
    p.refused( "toSlice", t, MOVED( toSlice() ) ); p.refused( "toSliceConst", t, MOVED( toSliceConst() ) ); p.refused( "operator[]", t, FORM( std::move( v )[ IT( 0 ) ] ) );
    p.kind = "temporary view"; auto tv = a.toView();
    p.refused( "toSlice", tv, MOVED( toSlice() ) ); p.refused( "toSliceConst", tv, MOVED( toSliceConst() ) ); p.refused( "operator[]", tv, FORM( std::move( v )[ IT( 0 ) ] ) );
    p.refused( "as a slice", tv, FORM( writableSlice( std::move( v ) ) ) ); p.refused( "as a const slice", tv, FORM( readableSlice( std::move( v ) ) ) );
    p.kind = "temporary Array"; p.refused( "as a slice", t, FORM( writableSlice( std::move( v ) ) ) ); p.refused( "as a const slice", t, FORM( readableSlice( std::move( v ) ) ) ); p.refused( "as a const view", t, FORM( readable( std::move( v ) ) ) );
    c.nontrivial = true;
  }
};

// --------------------------------------------------------------------------------- sorted arrays
template< typename IT > void sortedCase( Ctx & c )
{
  using A = LvArray::SortedArray< T, IT, LV_BUF >;
  A a; long const n = c.rng.range( 1, 8 ); for( long q = 0; q < n; ++q ) a.insert( mk< T >( 100 + 7 * q ) ); c.op( "sorted array of %ld", n );
  Probe p( c, [&] { std::vector< long > s; for( IT q = 0; q < a.size(); ++q ) s.push_back( bk( a[ q ] ) ); return s; } );
  long const i = c.rng.range( 0, n - 1 ); IT const I = IT( i ); std::size_t const l = std::size_t( i );
  auto const go = [&]( char const * kind, auto && subject )
  {
    p.kind = kind;
    BOTH( NO, l, p.model[ l ], v[ I ] ); BOTH( NO, l, p.model[ l ], v( I ) ); BOTH( NO, l, p.model[ l ], v.data()[ I ] ); BOTH( NO, l, p.model[ l ], *( v.begin() + I ) ); BOTH( NO, l, p.model[ l ], *( v.end() - 1 - ( n - 1 - i ) ) );
    BOTH( NO, l, p.model[ l ], v.toSlice()[ I ] ); BOTH( NO, l, p.model[ l ], v.toSlice()( I ) ); BOTH( NO, l, p.model[ l ], v.toSlice().dataIfContiguous()[ I ] ); BOTH( NO, l, p.model[ l ], v.toView()[ I ] ); BOTH( NO, l, p.model[ l ], v.toViewConst().data()[ I ] );
  };
  auto const view = a.toView(); auto const cview = a.toViewConst(); A const & ca = a;
  go( "SortedArray", a ); go( "SortedArray const", ca ); go( "SortedArrayView", view ); go( "SortedArrayView const", cview );
  p.refused( "insert", view, FORM( v.insert( mk< T >( 1 ) ) ) ); p.refused( "remove", view, FORM( v.remove( mk< T >( 100 ) ) ) ); p.refused( "clear", view, FORM( v.clear() ) );
  p.kind = "SortedArray const"; p.refused( "insert", ca, FORM( v.insert( mk< T >( 1 ) ) ) ); p.refused( "remove", ca, FORM( v.remove( mk< T >( 100 ) ) ) ); p.refused( "clear", ca, FORM( v.clear() ) );
  p.kind = "temporary SortedArray"; A t( a ); p.refused( "toView", t, MOVED( toView() ) ); p.refused( "toViewConst", t, MOVED( toViewConst() ) ); p.refused( "toSlice", t, MOVED( toSlice() ) );
  CHECK( c, ( std::is_same< std::decay_t< decltype( a.toView() ) >, LvArray::SortedArrayView< T const, IT, LV_BUF > >::value ), "view-type", "SortedArray" );
  c.nontrivial = true;
}

// ---------------------------------------------------------------------------------------- ragged
template< typename U, typename IT, bool CONST_SIZES > using RView = LvArray::ArrayOfArraysView< U, IT const, CONST_SIZES, LV_BUF >;
template< typename IT > RView< T, IT, false > const & resizable( RView< T, IT, false > const & v ) { return v; }
template< typename IT > RView< T, IT, true > const & writable( RView< T, IT, true > const & v ) { return v; }
template< typename A > std::vector< long > raggedState( A const & a )
{ std::vector< long > s; for( long q = 0; q < long( a.size() ); ++q ) for( long k = 0; k < long( a.sizeOfArray( q ) ); ++k ) s.push_back( bk( a( q, k ) ) ); for( long q = 0; q < long( a.size() ); ++q ) s.push_back( a.sizeOfArray( q ) ); return s; }
template< typename IT > void raggedCase( Ctx & c )
{
  using A = LvArray::ArrayOfArrays< T, IT, LV_BUF >;
  A a; long const n = c.rng.range( 1, 5 ), I0 = c.rng.range( 0, n - 1 ); long v0 = 100, at = 0, J0 = 0; c.op( "ragged %ld", n );
  for( long q = 0; q < n; ++q )
  {
    long const k = c.rng.range( q == I0, 4 ); a.appendArray( IT( 0 ) ); if( c.rng.chance( 50 ) ) a.setCapacityOfArray( IT( q ), IT( k + 4 ) );
    if( q == I0 ) J0 = c.rng.range( 0, k - 1 ); if( q < I0 ) at += k; for( long z = 0; z < k; ++z ) a.emplaceBack( IT( q ), mk< T >( ++v0 ) );
  }
  a.setCapacityOfArray( IT( I0 ), IT( 40 ) );
  Probe p( c, [&] { return raggedState( a ); } );
  IT const I = IT( I0 ), J = IT( J0 ); std::size_t const l = std::size_t( at + J0 ), total = std::size_t( p.model.size() ) - std::size_t( n );
  auto const go = [&]( char const * kind, auto && subject, Grant g )
  {
    p.kind = kind;
    BOTH( g, l, p.model[ l ], v[ I ][ J ] ); BOTH( g, l, p.model[ l ], v( I, J ) ); BOTH( g, l, p.model[ l ], v[ I ]( J ) ); BOTH( g, l, p.model[ l ], v[ I ].dataIfContiguous()[ J ] ); BOTH( g, l, p.model[ l ], *( v[ I ].begin() + J ) );
    BOTH( NO, l, p.model[ l ], v[ I ].toSliceConst()[ J ] ); BOTH( NO, l, p.model[ l ], v.toViewConst()( I, J ) );
  };
  auto const raw = [&]( char const * kind, auto && subject, Grant g )
  {
    go( kind, subject, g );
    BOTH( NO, l, p.model[ l ], v.getValues()[ v.getOffsets()[ I ] + J ] );
    BOTHINT( NO, total, p.model[ total + std::size_t( I0 ) ], v.getSizes()[ I ] ); BOTHINT( NO, 0, 0, v.getOffsets()[ 0 ] );
  };
  auto const view = a.toView(); auto const fixed = a.toViewConstSizes(); auto const cview = a.toViewConst();
  go( "ArrayOfArrays", a, YES ); raw( "ArrayOfArraysView", view, YES ); raw( "view of constant sizes", fixed, YES ); raw( "const view", cview, NO );
  auto const nested = a.toView().toViewConstSizes(); raw( "view of constant sizes of a view", nested, YES ); auto const nestedc = fixed.toViewConst(); raw( "const view of a view", nestedc, NO );
  // growing through the view that may
  p.kind = "ArrayOfArraysView"; p.read( "emplaceBack", view, [&]( auto && v ) -> decltype( void( v.emplaceBack( I, mk< T >( 1 ) ) ) ) { v.emplaceBack( I, mk< T >( 4000 ) ); p.model = p.state(); CHECK_EQ( c, bk( a( I, a.sizeOfArray( I ) - 1 ) ), 4000L, "write-lost", "emplaceBack" ); } );
  p.refused( "resize", view, FORM( v.resize( IT( 2 ) ) ) ); p.refused( "appendArray", view, FORM( v.appendArray( IT( 2 ) ) ) ); p.refused( "setCapacityOfArray", view, FORM( v.setCapacityOfArray( I, IT( 2 ) ) ) ); p.refused( "resizeArray", view, FORM( v.resizeArray( I, IT( 2 ) ) ) ); p.refused( "compress", view, FORM( v.compress() ) );
  p.kind = "view of constant sizes"; p.refused( "as a view that resizes", fixed, FORM( resizable< IT >( v ) ) );
  p.kind = "const view"; p.refused( "as a view that resizes", cview, FORM( resizable< IT >( v ) ) ); p.refused( "as a view that writes", cview, FORM( writable< IT >( v ) ) );
  p.kind = "temporary ArrayOfArrays"; A t( a ); p.refused( "toView", t, MOVED( toView() ) ); p.refused( "toViewConstSizes", t, MOVED( toViewConstSizes() ) ); p.refused( "toViewConst", t, MOVED( toViewConst() ) );
  CHECK( c, ( std::is_same< std::decay_t< decltype( a.toView() ) >, RView< T, IT, false > >::value ), "view-type", "toView" );
  CHECK( c, ( std::is_same< std::decay_t< decltype( a.toViewConstSizes() ) >, RView< T, IT, true > >::value ), "view-type", "toViewConstSizes" );
  CHECK( c, ( std::is_same< std::decay_t< decltype( a.toViewConst() ) >, RView< T const, IT, true > >::value ), "view-type", "toViewConst" );
  CHECK( c, ( std::is_same< std::decay_t< decltype( view.toViewConstSizes() ) >, RView< T, IT, true > >::value ), "view-type", "view toViewConstSizes" );
  CHECK( c, ( std::is_same< std::decay_t< decltype( fixed.toViewConst() ) >, RView< T const, IT, true > >::value ), "view-type", "view toViewConst" );
  c.nontrivial = true;
}

// ------------------------------------------------------------------------------------------ sets
template< typename IT > RView< T, IT, true > const & raggedWritable( RView< T, IT, true > const & v ) { return v; }
template< typename IT > RView< T, IT, false > const & raggedResizable( RView< T, IT, false > const & v ) { return v; }
template< typename IT > void setsCase( Ctx & c )
{
  using A = LvArray::ArrayOfSets< T, IT, LV_BUF >; using V = LvArray::ArrayOfSetsView< T, IT const, LV_BUF >; using VC = LvArray::ArrayOfSetsView< T const, IT const, LV_BUF >;
  A a; long const n = c.rng.range( 1, 5 ), I0 = c.rng.range( 0, n - 1 ); long at = 0, J0 = 0; c.op( "sets %ld", n );
  for( long q = 0; q < n; ++q )
  {
    long const k = c.rng.range( q == I0, 4 ); a.appendSet( IT( k + 3 ) ); if( q == I0 ) J0 = c.rng.range( 0, k - 1 ); if( q < I0 ) at += k;
    for( long z = 0; z < k; ++z ) a.insertIntoSet( IT( q ), mk< T >( 100 + 10 * q + z ) );
  }
  Probe p( c, [&] { std::vector< long > s; for( IT q = 0; q < a.size(); ++q ) for( IT k = 0; k < a.sizeOfSet( q ); ++k ) s.push_back( bk( a( q, k ) ) ); for( IT q = 0; q < a.size(); ++q ) s.push_back( a.sizeOfSet( q ) ); return s; } );
  IT const I = IT( I0 ), J = IT( J0 ); std::size_t const l = std::size_t( at + J0 );
  auto const common = [&]( char const * kind, auto && subject )
  {
    p.kind = kind;
    BOTH( NO, l, p.model[ l ], v[ I ][ J ] ); BOTH( NO, l, p.model[ l ], v( I, J ) ); BOTH( NO, l, p.model[ l ], v[ I ]( J ) ); BOTH( NO, l, p.model[ l ], v[ I ].dataIfContiguous()[ J ] ); BOTH( NO, l, p.model[ l ], *( v[ I ].begin() + J ) );
    p.refused( "getSetValues", subject, FORM( v.getSetValues( I )[ J ] = mk< T >( 1 ) ) ); p.refused( "eraseFromArray", subject, FORM( v.eraseFromArray( I, J ) ) );
    p.refused( "as a ragged view that writes", subject, FORM( raggedWritable< IT >( v ) ) ); p.refused( "as a ragged view that resizes", subject, FORM( raggedResizable< IT >( v ) ) );
  };
  auto const views = [&]( char const * kind, auto && subject )
  {
    common( kind, subject ); long const total = long( p.model.size() ) - n;
    BOTH( NO, l, p.model[ l ], v.getValues()[ v.getOffsets()[ I ] + J ] ); BOTHINT( NO, 0, p.model[ std::size_t( total + I0 ) ], v.getSizes()[ I ] ); BOTHINT( NO, 0, 0, v.getOffsets()[ 0 ] );
    BOTH( NO, l, p.model[ l ], v.toViewConst()( I, J ) ); BOTH( NO, l, p.model[ l ], v.toArrayOfArraysView()( I, J ) );
  };
  auto const view = a.toView(); auto const cview = a.toViewConst(); auto const ragged = a.toArrayOfArraysView(); A const & ca = a;
  common( "ArrayOfSets", a ); common( "ArrayOfSets const", ca ); views( "ArrayOfSetsView", view ); views( "const view", cview );
  auto const take235 = []( V const & ) {};
  p.refused( "as a view that inserts", cview, FORM( take235( v ) ) );
  p.kind = "as a ragged array"; { auto && subject = ragged; BOTH( NO, l, p.model[ l ], v[ I ][ J ] ); BOTH( NO, l, p.model[ l ], v( I, J ) ); p.refused( "as one that writes", ragged, FORM( raggedWritable< IT >( v ) ) ); }
  p.kind = "ArrayOfSetsView";
  p.refused( "emplaceBack", view, FORM( v.emplaceBack( I, mk< T >( 1 ) ) ) ); p.refused( "resizeArray", view, FORM( v.resizeArray( I, IT( 2 ) ) ) ); p.refused( "resize", view, FORM( v.resize( IT( 2 ) ) ) ); p.refused( "appendSet", view, FORM( v.appendSet( IT( 2 ) ) ) ); p.refused( "setCapacityOfSet", view, FORM( v.setCapacityOfSet( I, IT( 2 ) ) ) );
  p.read( "insertIntoSet", view, [&]( auto && v ) -> decltype( void( v.insertIntoSet( I, mk< T >( 1 ) ) ) ) { CHECK( c, v.insertIntoSet( I, mk< T >( 900 ) ), "write-lost", "insertIntoSet" ); p.model = p.state(); CHECK_EQ( c, bk( a( I, a.sizeOfSet( I ) - 1 ) ), 900L, "write-lost", "insertIntoSet" ); } );
  p.kind = "ArrayOfSets const"; p.refused( "insertIntoSet", ca, FORM( v.insertIntoSet( I, mk< T >( 1 ) ) ) );  p.refused( "clear", ca, FORM( v.clear() ) );
  p.kind = "temporary ArrayOfSets"; A t( a ); p.refused( "toView", t, MOVED( toView() ) ); p.refused( "toViewConst", t, MOVED( toViewConst() ) ); p.refused( "toArrayOfArraysView", t, MOVED( toArrayOfArraysView() ) );
  CHECK( c, ( std::is_same< std::decay_t< decltype( a.toView() ) >, V >::value ), "view-type", "toView" ); CHECK( c, ( std::is_same< std::decay_t< decltype( a.toViewConst() ) >, VC >::value ), "view-type", "toViewConst" );
  CHECK( c, ( std::is_same< std::decay_t< decltype( a.toArrayOfArraysView() ) >, RView< T const, IT, true > >::value ), "view-type", "toArrayOfArraysView" );
  CHECK( c, ( std::is_same< std::decay_t< decltype( view.toArrayOfArraysView() ) >, RView< T const, IT, true > >::value ), "view-type", "view toArrayOfArraysView" );
  c.nontrivial = true;
}

// ------------------------------------------------------------------------- patterns and matrices
template< typename COL, typename IT > void matrixCase( Ctx & c )
{
  using SP = LvArray::SparsityPattern< COL, IT, LV_BUF >; using M = LvArray::CRSMatrix< T, COL, IT, LV_BUF >;
  using SV = LvArray::SparsityPatternView< COL, IT const, LV_BUF >; using SVC = LvArray::SparsityPatternView< COL const, IT const, LV_BUF >;
  using MV = LvArray::CRSMatrixView< T, COL, IT const, LV_BUF >; using MVS = LvArray::CRSMatrixView< T, COL const, IT const, LV_BUF >; using MVC = LvArray::CRSMatrixView< T const, COL const, IT const, LV_BUF >;
  long const rows = c.rng.range( 1, 4 ), I0 = c.rng.range( 0, rows - 1 ); SP s( rows, 60, 6 ); M m( rows, 60, 6 ); long at = 0, J0 = 0; c.op( "matrix of %ld rows", rows );
  for( long q = 0; q < rows; ++q )
  {
    long const k = c.rng.range( q == I0, 4 ); if( q == I0 ) J0 = c.rng.range( 0, k - 1 ); if( q < I0 ) at += k;
    for( long z = 0; z < k; ++z ) { COL const col = COL( 3 * z + q ); s.insertNonZero( IT( q ), col ); m.insertNonZero( IT( q ), col, mk< T >( 100 + 10 * q + z ) ); }
  }
  IT const I = IT( I0 ), J = IT( J0 ); std::size_t const l = std::size_t( at + J0 ); COL const one = 1;
  auto const columns = []( auto const & a ) { std::vector< long > r; for( IT q = 0; q < a.numRows(); ++q ) { for( IT k = 0; k < a.numNonZeros( q ); ++k ) r.push_back( long( a.getColumns( q )[ k ] ) ); } for( IT q = 0; q < a.numRows(); ++q ) r.push_back( a.numNonZeros( q ) ); return r; };
  // every kind shows its columns and lets none of them be changed; the state of p is what columns() says
  auto const keys = [&]( Probe & p, auto && subject )
  {
    auto const column = [&]( char const * what, auto && f, auto && g ) { p.read( what, subject, f ); CHECK_EQ( c, s_kept, p.model[ l ], "read", p.kind << " " << what ); c.op( "%s %s = 1", p.kind, what ); bool const admitted = admit( g, subject, 0 ); c.event( admitted ? "ineffective writes" : "writes refused" ); p.verify( what, "written-read-only" ); };
    column( "getColumns( row )[ k ]", FORM( s_kept = long( v.getColumns( I )[ J ] ) ), FORM( v.getColumns( I )[ J ] = one ) );
    column( "getColumns( row )( k )", FORM( s_kept = long( v.getColumns( I )( J ) ) ), FORM( v.getColumns( I )( J ) = one ) );
    column( "getColumns( row ) data", FORM( s_kept = long( v.getColumns( I ).dataIfContiguous()[ J ] ) ), FORM( v.getColumns( I ).dataIfContiguous()[ J ] = one ) );
    column( "getColumns( row ) begin", FORM( s_kept = long( *( v.getColumns( I ).begin() + J ) ) ), FORM( *( v.getColumns( I ).begin() + J ) = one ) );
    column( "getColumns()", FORM( s_kept = long( v.getColumns()[ v.getOffsets()[ I ] + J ] ) ), FORM( v.getColumns()[ v.getOffsets()[ I ] + J ] = one ) );
    column( "getOffsets()", FORM( s_kept = v.getOffsets()[ 0 ] == 0 ? p.model[ l ] : -1 ), FORM( v.getOffsets()[ 0 ] = 1 ) );
    p.refused( "operator[]", subject, FORM( v[ I ][ J ] = one ) ); p.refused( "operator()", subject, FORM( v( I, J ) = one ) ); p.refused( "getSetValues", subject, FORM( v.getSetValues( I )[ J ] = one ) ); p.refused( "insertIntoSet", subject, FORM( v.insertIntoSet( I, one ) ) ); p.refused( "emplaceBack", subject, FORM( v.emplaceBack( I, one ) ) );
    auto const take274 = []( LvArray::ArrayOfSetsView< COL, IT const, LV_BUF > const & ) {};
    p.refused( "as an array of sets", subject, FORM( take274( v ) ) );
  };
  auto const sizes = [&]( Probe & p, auto && subject ) { p.read( "getSizes()", subject, FORM( s_kept = long( v.getSizes()[ I ] ) ) ); CHECK_EQ( c, s_kept, p.model[ p.model.size() - std::size_t( rows - I0 ) ], "read", p.kind << " getSizes()" ); admit( FORM( v.getSizes()[ I ] = 0 ), subject, 0 ); p.verify( "getSizes()[ row ] = 0", "written-read-only" ); };
  {
    Probe p( c, [&] { return columns( s ); } ); auto const view = s.toView(); auto const cview = s.toViewConst(); SP const & cs = s;
    p.kind = "SparsityPattern"; keys( p, s ); p.kind = "SparsityPattern const"; keys( p, cs ); p.refused( "insertNonZero", cs, FORM( v.insertNonZero( I, one ) ) );
    auto const take281 = []( SV const & ) {};
    p.kind = "SparsityPatternView"; keys( p, view ); sizes( p, view ); p.kind = "const pattern view"; keys( p, cview ); sizes( p, cview ); p.refused( "as a view that inserts", cview, FORM( take281( v ) ) );
    p.kind = "SparsityPatternView"; p.refused( "resize", view, FORM( v.resize( IT( 1 ), IT( 1 ), IT( 1 ) ) ) ); p.refused( "setRowCapacity", view, FORM( v.setRowCapacity( I, IT( 1 ) ) ) ); p.refused( "compress", view, FORM( v.compress() ) );
    p.read( "insertNonZero", view, [&]( auto && v ) -> decltype( void( v.insertNonZero( I, one ) ) ) { CHECK( c, v.insertNonZero( I, COL( 59 ) ), "write-lost", "insertNonZero" ); p.model = p.state(); CHECK_EQ( c, long( s.getColumns( I )[ s.numNonZeros( I ) - 1 ] ), 59L, "write-lost", "insertNonZero" ); } );
    SP t( s ); p.kind = "temporary SparsityPattern"; p.refused( "toView", t, MOVED( toView() ) ); p.refused( "toViewConst", t, MOVED( toViewConst() ) );
    CHECK( c, ( std::is_same< std::decay_t< decltype( s.toView() ) >, SV >::value && std::is_same< std::decay_t< decltype( s.toViewConst() ) >, SVC >::value && std::is_same< std::decay_t< decltype( view.toViewConst() ) >, SVC >::value ), "view-type", "SparsityPattern" );
  }
  {
    auto const view = m.toView(); auto const fixed = m.toViewConstSizes(); auto const cview = m.toViewConst(); auto const pattern = m.toSparsityPatternView(); M const & cm = m;
    { Probe p( c, [&] { return columns( m ); } ); p.kind = "CRSMatrix"; keys( p, m ); p.kind = "CRSMatrixView"; keys( p, view ); sizes( p, view ); p.kind = "view of constant sizes"; keys( p, fixed ); sizes( p, fixed ); p.kind = "const matrix view"; keys( p, cview ); sizes( p, cview ); p.kind = "pattern of a matrix"; keys( p, pattern ); }
    Probe p( c, [&] { std::vector< long > r; for( IT q = 0; q < m.numRows(); ++q ) for( IT k = 0; k < m.numNonZeros( q ); ++k ) r.push_back( bk( m.getEntries( q )[ k ] ) ); return r; } );
    auto const entries = [&]( char const * kind, auto && subject, Grant g )
    {
      p.kind = kind;
      BOTH( g, l, p.model[ l ], v.getEntries( I )[ J ] ); BOTH( g, l, p.model[ l ], v.getEntries( I )( J ) ); BOTH( g, l, p.model[ l ], v.getEntries( I ).dataIfContiguous()[ J ] ); BOTH( g, l, p.model[ l ], *( v.getEntries( I ).begin() + J ) );
      BOTH( NO, l, p.model[ l ], v.getEntries( I ).toSliceConst()[ J ] ); BOTH( NO, l, p.model[ l ], v.getEntries()[ v.getOffsets()[ I ] + J ] ); BOTH( NO, l, p.model[ l ], v.toViewConst().getEntries( I )[ J ] );
    };
    entries( "CRSMatrix", m, YES ); entries( "CRSMatrixView", view, YES ); entries( "view of constant sizes", fixed, YES ); entries( "const matrix view", cview, NO );
    auto const again = view.toViewConstSizes(); entries( "view of constant sizes of a view", again, YES ); auto const againc = fixed.toViewConst(); entries( "const view of a view", againc, NO );
    auto const take300 = []( MV const & ) {};
    auto const take301 = []( MV const & ) {};
    auto const take302 = []( MVS const & ) {};
    p.kind = "view of constant sizes"; p.refused( "as a view that inserts", fixed, FORM( take300( v ) ) ); p.kind = "const matrix view"; p.refused( "as a view that inserts", cview, FORM( take301( v ) ) ); p.refused( "as a view that writes", cview, FORM( take302( v ) ) );
    auto const take304 = []( SV const & ) {};
    auto const take305 = []( SV const & ) {};
    p.kind = "pattern of a matrix"; p.refused( "as a pattern that inserts", pattern, FORM( take304( v ) ) ); p.kind = "CRSMatrixView"; p.refused( "as a pattern that inserts", view, FORM( take305( v ) ) );
    p.refused( "resize", view, FORM( v.resize( IT( 1 ), IT( 1 ), IT( 1 ) ) ) ); p.refused( "setRowCapacity", view, FORM( v.setRowCapacity( I, IT( 1 ) ) ) ); p.refused( "compress", view, FORM( v.compress() ) ); p.refused( "insert without an entry", view, FORM( v.insertNonZero( I, one ) ) );
    p.kind = "CRSMatrix const"; p.refused( "insertNonZero", cm, FORM( v.insertNonZero( I, one, mk< T >( 1 ) ) ) );
    p.kind = "CRSMatrixView"; p.read( "insertNonZero", view, [&]( auto && v ) -> decltype( void( v.insertNonZero( I, one, mk< T >( 1 ) ) ) ) { CHECK( c, v.insertNonZero( I, COL( 59 ), mk< T >( 900 ) ), "write-lost", "insertNonZero" ); p.model = p.state(); CHECK_EQ( c, bk( m.getEntries( I )[ m.numNonZeros( I ) - 1 ] ), 900L, "write-lost", "insertNonZero" ); } );
    M t( m ); p.kind = "temporary CRSMatrix"; p.refused( "toView", t, MOVED( toView() ) ); p.refused( "toViewConstSizes", t, MOVED( toViewConstSizes() ) ); p.refused( "toViewConst", t, MOVED( toViewConst() ) ); p.refused( "toSparsityPatternView", t, MOVED( toSparsityPatternView() ) );
    CHECK( c, ( std::is_same< std::decay_t< decltype( m.toView() ) >, MV >::value && std::is_same< std::decay_t< decltype( m.toViewConstSizes() ) >, MVS >::value && std::is_same< std::decay_t< decltype( m.toViewConst() ) >, MVC >::value ), "view-type", "CRSMatrix" );
    CHECK( c, ( std::is_same< std::decay_t< decltype( m.toSparsityPatternView() ) >, SVC >::value && std::is_same< std::decay_t< decltype( view.toSparsityPatternView() ) >, SVC >::value && std::is_same< std::decay_t< decltype( fixed.toViewConst() ) >, MVC >::value ), "view-type", "CRSMatrix" );
  }
  c.nontrivial = true;
}

#define REG( NAME, ID, ... ) static Register r_##ID( std::string( "access/" NAME "/" ) + ELEM_NAME, __VA_ARGS__, 1, false )
REG( "array-ij", a1, Arrays< RAJA::PERM_IJ, std::ptrdiff_t >::run ); REG( "array-ji", a2, Arrays< RAJA::PERM_JI, int >::run );
REG( "sorted", s1, sortedCase< std::ptrdiff_t > ); REG( "sorted-int", s2, sortedCase< int > );
REG( "ragged", r1, raggedCase< std::ptrdiff_t > ); REG( "ragged-int", r2, raggedCase< int > );
REG( "sets", t1, setsCase< std::ptrdiff_t > ); REG( "sets-int", t2, setsCase< int > );
REG( "matrix", m1, matrixCase< int, std::ptrdiff_t > ); REG( "matrix-unsigned", m2, matrixCase< unsigned, int > );
H_MAIN()
