// Helpers to drive Array / ArrayView / ArraySlice of any rank, and the reference layout.
#pragma once
#include <tuple>
#include "common.hpp"
#include <RAJA/RAJA.hpp>
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "StackBuffer.hpp"
// The buffer the containers are built on.
#if defined( WITH_CHAI )
  #include "ChaiBuffer.hpp"
  #define LV_BUF LvArray::ChaiBuffer
#else
  #define LV_BUF LvArray::MallocBuffer
#endif

namespace H
{
template< int N > using Idx = std::array< long, std::size_t( N ) >;

template< typename A, int N, std::size_t... IS >
decltype(auto) atImpl( A && a, Idx< N > const & i, std::index_sequence< IS... > ) { return a( i[ IS ]... ); }
// a( i0, i1, ... )
template< int N, typename A > decltype(auto) at( A && a, Idx< N > const & i ) { return atImpl< A, N >( std::forward< A >( a ), i, std::make_index_sequence< std::size_t( N ) >{} ); }
template< typename A, int N, std::size_t... IS >
long linImpl( A const & a, Idx< N > const & i, std::index_sequence< IS... > ) { return long( a.linearIndex( i[ IS ]... ) ); }
template< int N, typename A > long lin( A const & a, Idx< N > const & i ) { return linImpl< A, N >( a, i, std::make_index_sequence< std::size_t( N ) >{} ); }

// a[ i0 ][ i1 ]...
template< int LEFT > struct Chain
{ template< typename S > static auto & get( S const & s, long const * i ) { return Chain< LEFT - 1 >::get( s[ *i ], i + 1 ); } };
template<> struct Chain< 1 > { template< typename S > static auto & get( S const & s, long const * i ) { return s[ *i ]; } };
// The same with an index type of its own for every dimension.
template< std::size_t K > using Odd = std::tuple_element_t< K % 5, std::tuple< unsigned short, short, std::size_t, unsigned, long long > >;
template< typename A, int N, std::size_t... IS > auto & atOddImpl( A const & a, Idx< N > const & i, std::index_sequence< IS... > ) { return a( Odd< IS >( i[ IS ] )... ); }
template< int N, typename A > auto & atOdd( A const & a, Idx< N > const & i ) { return atOddImpl< A, N >( a, i, std::make_index_sequence< std::size_t( N ) >{} ); }
template< typename A, int N, std::size_t... IS > long linOddImpl( A const & a, Idx< N > const & i, std::index_sequence< IS... > ) { return long( a.linearIndex( Odd< IS + 2 >( i[ IS ] )... ) ); }
template< int N, typename A > long linOdd( A const & a, Idx< N > const & i ) { return linOddImpl< A, N >( a, i, std::make_index_sequence< std::size_t( N ) >{} ); }
template< int N, typename A > auto & chain( A const & a, Idx< N > const & i ) { return Chain< N >::get( a, i.data() ); }

// Calls f( idx ) for every index tuple, last index fastest.
template< int N, typename F > void forAll( Idx< N > const & dims, F && f )
{
  for( long d : dims ) if( d <= 0 ) return;
  Idx< N > i{};
  for(;;)
  {
    f( static_cast< Idx< N > const & >( i ) );
    int d = N - 1;
    while( d >= 0 && ++i[ std::size_t( d ) ] == dims[ std::size_t( d ) ] ) { i[ std::size_t( d ) ] = 0; --d; }
    if( d < 0 ) return;
  }
}
template< int N > std::string showIdx( Idx< N > const & i ) { std::string s = "("; for( long x : i ) s += ( s.size() > 1 ? "," : "" ) + std::to_string( x ); return s + ")"; }

template< typename PERM > struct PermArray;
template< camp::idx_t... IS > struct PermArray< camp::idx_seq< IS... > >
{
  static constexpr int N = sizeof...( IS );
  static std::array< int, sizeof...( IS ) > get() { return { { int( IS )... } }; }
};
// The documented layout: the last entry of the permutation is the dimension with unit stride.
template< typename PERM > Idx< PermArray< PERM >::N > refStrides( Idx< PermArray< PERM >::N > const & dims )
{
  constexpr int N = PermArray< PERM >::N;
  auto const p = PermArray< PERM >::get();
  Idx< N > s{};
  long acc = 1;
  for( int k = N - 1; k >= 0; --k ) { s[ std::size_t( p[ std::size_t( k ) ] ) ] = acc; acc *= dims[ std::size_t( p[ std::size_t( k ) ] ) ]; }
  return s;
}
template< int N > long prod( Idx< N > const & d ) { long r = 1; for( long x : d ) r *= x; return r; }
template< int N > long dot( Idx< N > const & a, Idx< N > const & b ) { long r = 0; for( std::size_t k = 0; k < std::size_t( N ); ++k ) r += a[ k ] * b[ k ]; return r; }

template< int N > Idx< N > randomDims( Rng & rng, long budget, int zeroPercent )
{
  Idx< N > d{};
  long left = budget;
  std::array< int, std::size_t( N ) > order; for( int k = 0; k < N; ++k ) order[ std::size_t( k ) ] = k;
  for( int k = N - 1; k > 0; --k ) std::swap( order[ std::size_t( k ) ], order[ rng.below( std::uint64_t( k ) + 1 ) ] );
  // Now and then one long dimension: thresholds on sizes and lengths well above the usual ones are passed too.
  bool const elongated = budget >= 60 && rng.below( 1000 ) < 25;
  if( elongated ) { left = rng.chance( 20 ) ? 5000 : 1200; }
  for( int k = 0; k < N; ++k )
  {
    if( elongated )
    {
      long const v = k == 0 ? rng.range( 101, std::min( left, 700L ) ) : rng.range( 1, std::max( 1L, std::min( left, 4L ) ) );
      d[ std::size_t( order[ std::size_t( k ) ] ) ] = v; left = std::max( 1L, left / v );
      continue;
    }
    long cap = std::min( left, N == 1 ? 60L : N == 2 ? 14L : N == 3 ? 7L : 5L );
    long v = rng.chance( 25 ) ? 1 : rng.range( 1, std::max( 1L, cap ) );
    if( rng.chance( zeroPercent ) ) v = 0;
    d[ std::size_t( order[ std::size_t( k ) ] ) ] = v;
    left = std::max( 1L, v ? left / v : left );
  }
  return d;
}
template< typename A, int N, std::size_t... IS > void resizeImpl( A & a, Idx< N > const & d, std::index_sequence< IS... > ) { a.resize( d[ IS ]... ); }
template< int N, typename A > void resizeAll( A & a, Idx< N > const & d ) { resizeImpl< A, N >( a, d, std::make_index_sequence< std::size_t( N ) >{} ); }

template< typename A, int N, std::size_t... IS > void resizeOddImpl( A & a, Idx< N > const & d, std::index_sequence< IS... > ) { a.resize( Odd< IS + 1 >( d[ IS ] )... ); }
template< int N, typename A > void resizeOdd( A & a, Idx< N > const & d ) { resizeOddImpl< A, N >( a, d, std::make_index_sequence< std::size_t( N ) >{} ); }
template< typename T, int N, typename PERM, typename IT > using MArray = LvArray::Array< T, N, PERM, IT, LV_BUF >;
}
