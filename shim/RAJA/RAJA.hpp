// Minimal stand-in for the parts of RAJA that LvArray uses: forall over a range (sequential, a real
// multi-threaded policy, a fake device policy), inclusive_scan, atomics, permutations and View/Layout.
// As in RAJA the loop body is copied for the execution, and that copy is what triggers the capture
// hooks of the buffers.
#pragma once
#include <camp/camp.hpp>
#include <camp/resource.hpp>
#include <algorithm>
#include <array>
#include <list>
#include <map>
#include <set>
#include <string>
#include <cstdio>
#include <iostream>
#include <atomic>
#include <cstdint>
#include <cstring>
#include <functional>
#include <numeric>
#include <thread>
#include <vector>
#include <limits>

#define RAJA_VERSION_MAJOR 0
#define RAJA_VERSION_MINOR 13
#define RAJA_VERSION_PATCHLEVEL 0

namespace RAJA
{
using Index_type = std::ptrdiff_t;
// ---- policies
struct seq_exec {};
struct loop_exec {};
struct simd_exec {};
template< int N > struct threads_exec {};      // N std::threads
using omp_parallel_for_exec = threads_exec< 4 >;
template< std::size_t N > struct cuda_exec {}; // "device": runs on the host with the execution space set to device
struct seq_reduce {};
struct omp_reduce {};
struct cuda_reduce {};
struct seq_atomic {};
struct omp_atomic {};
struct builtin_atomic {};
struct auto_atomic {};
struct cuda_atomic {};

template< typename T > struct TypedRangeSegment
{
  T b, e;
  TypedRangeSegment( T b_, T e_ ): b( b_ ), e( e_ ) {}
};
using RangeSegment = TypedRangeSegment< Index_type >;

namespace shim
{
// Called with (1 = host, 2 = device) before the body is captured and with 0 afterwards.
inline std::function< void( int ) > & spaceHook() { static std::function< void( int ) > h; return h; }
// Called with (1 = host, 2 = device) before the iterations run, and with 1 after them.
inline std::function< void( int ) > & sideHook() { static std::function< void( int ) > h; return h; }
// Called by the threads of threads_exec and by the real atomics: schedule perturbation.
inline std::function< void() > & jitterHook() { static std::function< void() > h; return h; }
inline void jitter() { auto & h = jitterHook(); if( h ) h(); }

template< typename POLICY > struct Exec
{
  template< typename T, typename BODY > static void run( TypedRangeSegment< T > const & s, BODY & body )
  { for( std::remove_const_t< T > i = s.b; i < s.e; ++i ) body( i ); }
};
template< int N > struct Exec< threads_exec< N > >
{
  template< typename T, typename BODY > static void run( TypedRangeSegment< T > const & s, BODY & body )
  {
    std::vector< std::thread > threads;
    std::atomic< bool > go( false );
    for( int t = 0; t < N; ++t )
    {
      threads.emplace_back( [&, t]()
      {
        auto priv = body;
        while( !go.load( std::memory_order_acquire ) ) std::this_thread::yield();
        T const n = s.e - s.b;
        T const lo = T( s.b + ( n * t ) / N ), hi = T( s.b + ( n * ( t + 1 ) ) / N );
        for( std::remove_const_t< T > i = lo; i < hi; ++i ) { jitter(); priv( i ); }
      } );
    }
    go.store( true, std::memory_order_release );
    for( auto & t : threads ) t.join();
  }
};
template< typename POLICY > struct Space { static constexpr int value = 1; };
template< std::size_t N > struct Space< cuda_exec< N > > { static constexpr int value = 2; };
}

template< typename POLICY, typename T, typename BODY >
void forall( TypedRangeSegment< T > const & segment, BODY && loopBody )
{
  if( shim::spaceHook() ) shim::spaceHook()( shim::Space< POLICY >::value );
  std::decay_t< BODY > body( loopBody );
  if( shim::spaceHook() ) shim::spaceHook()( 0 );
  if( shim::sideHook() ) shim::sideHook()( shim::Space< POLICY >::value );
  shim::Exec< POLICY >::run( segment, body );
  if( shim::sideHook() ) shim::sideHook()( 1 );
}

template< typename POLICY, typename IN, typename OUT >
void inclusive_scan( IN const begin, IN const end, OUT const out )
{ std::partial_sum( begin, end, out ); }

// ---- atomics
namespace shim
{
template< typename T > std::enable_if_t< std::is_integral< T >::value, T > add( T volatile * p, T v )
{ jitter(); return __atomic_fetch_add( p, v, __ATOMIC_RELAXED ); }
template< typename T > std::enable_if_t< !std::is_integral< T >::value, T > add( T volatile * p, T v )
{
  T expected;
  T * q = const_cast< T * >( p );
  __atomic_load( q, &expected, __ATOMIC_RELAXED );
  T desired = expected + v;
  jitter();
  while( !__atomic_compare_exchange( q, &expected, &desired, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED ) )
  { desired = expected + v; }
  return expected;
}
template< typename POLICY > struct Atomic
{ template< typename T > static T fetchAdd( T volatile * p, T v ) { return add< T >( p, v ); } };
template<> struct Atomic< seq_atomic >
{ template< typename T > static T fetchAdd( T volatile * p, T v ) { T const old = *p; *p = T( old + v ); return old; } };
}
template< typename POLICY, typename T > T atomicAdd( T volatile * p, T v ) { return shim::Atomic< POLICY >::fetchAdd( p, v ); }
template< typename POLICY, typename T > T atomicAdd( T * p, T v ) { return shim::Atomic< POLICY >::fetchAdd( ( T volatile * ) p, v ); }
template< typename POLICY, typename T > T atomicSub( T * p, T v ) { return shim::Atomic< POLICY >::fetchAdd( ( T volatile * ) p, T( -v ) ); }
template< typename POLICY, typename T > T atomicInc( T * p ) { return shim::Atomic< POLICY >::fetchAdd( ( T volatile * ) p, T( 1 ) ); }
template< typename POLICY, typename T > T atomicDec( T * p ) { return shim::Atomic< POLICY >::fetchAdd( ( T volatile * ) p, T( -1 ) ); }

// ---- permutations
using PERM_I = camp::idx_seq< 0 >;
using PERM_IJ = camp::idx_seq< 0, 1 >;
using PERM_JI = camp::idx_seq< 1, 0 >;
using PERM_IJK = camp::idx_seq< 0, 1, 2 >;
using PERM_IKJ = camp::idx_seq< 0, 2, 1 >;
using PERM_JIK = camp::idx_seq< 1, 0, 2 >;
using PERM_JKI = camp::idx_seq< 1, 2, 0 >;
using PERM_KIJ = camp::idx_seq< 2, 0, 1 >;
using PERM_KJI = camp::idx_seq< 2, 1, 0 >;
using PERM_IJKL = camp::idx_seq< 0, 1, 2, 3 >;
using PERM_IJLK = camp::idx_seq< 0, 1, 3, 2 >;
using PERM_IKJL = camp::idx_seq< 0, 2, 1, 3 >;
using PERM_IKLJ = camp::idx_seq< 0, 2, 3, 1 >;
using PERM_ILJK = camp::idx_seq< 0, 3, 1, 2 >;
using PERM_ILKJ = camp::idx_seq< 0, 3, 2, 1 >;
using PERM_JIKL = camp::idx_seq< 1, 0, 2, 3 >;
using PERM_JILK = camp::idx_seq< 1, 0, 3, 2 >;
using PERM_JKIL = camp::idx_seq< 1, 2, 0, 3 >;
using PERM_JKLI = camp::idx_seq< 1, 2, 3, 0 >;
using PERM_JLIK = camp::idx_seq< 1, 3, 0, 2 >;
using PERM_JLKI = camp::idx_seq< 1, 3, 2, 0 >;
using PERM_KIJL = camp::idx_seq< 2, 0, 1, 3 >;
using PERM_KILJ = camp::idx_seq< 2, 0, 3, 1 >;
using PERM_KJIL = camp::idx_seq< 2, 1, 0, 3 >;
using PERM_KJLI = camp::idx_seq< 2, 1, 3, 0 >;
using PERM_KLIJ = camp::idx_seq< 2, 3, 0, 1 >;
using PERM_KLJI = camp::idx_seq< 2, 3, 1, 0 >;
using PERM_LIJK = camp::idx_seq< 3, 0, 1, 2 >;
using PERM_LIKJ = camp::idx_seq< 3, 0, 2, 1 >;
using PERM_LJIK = camp::idx_seq< 3, 1, 0, 2 >;
using PERM_LJKI = camp::idx_seq< 3, 1, 2, 0 >;
using PERM_LKIJ = camp::idx_seq< 3, 2, 0, 1 >;
using PERM_LKJI = camp::idx_seq< 3, 2, 1, 0 >;
using PERM_IJKLM = camp::idx_seq< 0, 1, 2, 3, 4 >;
using PERM_IJKML = camp::idx_seq< 0, 1, 2, 4, 3 >;
using PERM_IJLKM = camp::idx_seq< 0, 1, 3, 2, 4 >;
using PERM_IJLMK = camp::idx_seq< 0, 1, 3, 4, 2 >;
using PERM_IJMKL = camp::idx_seq< 0, 1, 4, 2, 3 >;
using PERM_IJMLK = camp::idx_seq< 0, 1, 4, 3, 2 >;
using PERM_IKJLM = camp::idx_seq< 0, 2, 1, 3, 4 >;
using PERM_IKJML = camp::idx_seq< 0, 2, 1, 4, 3 >;
using PERM_IKLJM = camp::idx_seq< 0, 2, 3, 1, 4 >;
using PERM_IKLMJ = camp::idx_seq< 0, 2, 3, 4, 1 >;
using PERM_IKMJL = camp::idx_seq< 0, 2, 4, 1, 3 >;
using PERM_IKMLJ = camp::idx_seq< 0, 2, 4, 3, 1 >;
using PERM_ILJKM = camp::idx_seq< 0, 3, 1, 2, 4 >;
using PERM_ILJMK = camp::idx_seq< 0, 3, 1, 4, 2 >;
using PERM_ILKJM = camp::idx_seq< 0, 3, 2, 1, 4 >;
using PERM_ILKMJ = camp::idx_seq< 0, 3, 2, 4, 1 >;
using PERM_ILMJK = camp::idx_seq< 0, 3, 4, 1, 2 >;
using PERM_ILMKJ = camp::idx_seq< 0, 3, 4, 2, 1 >;
using PERM_IMJKL = camp::idx_seq< 0, 4, 1, 2, 3 >;
using PERM_IMJLK = camp::idx_seq< 0, 4, 1, 3, 2 >;
using PERM_IMKJL = camp::idx_seq< 0, 4, 2, 1, 3 >;
using PERM_IMKLJ = camp::idx_seq< 0, 4, 2, 3, 1 >;
using PERM_IMLJK = camp::idx_seq< 0, 4, 3, 1, 2 >;
using PERM_IMLKJ = camp::idx_seq< 0, 4, 3, 2, 1 >;
using PERM_JIKLM = camp::idx_seq< 1, 0, 2, 3, 4 >;
using PERM_JIKML = camp::idx_seq< 1, 0, 2, 4, 3 >;
using PERM_JILKM = camp::idx_seq< 1, 0, 3, 2, 4 >;
using PERM_JILMK = camp::idx_seq< 1, 0, 3, 4, 2 >;
using PERM_JIMKL = camp::idx_seq< 1, 0, 4, 2, 3 >;
using PERM_JIMLK = camp::idx_seq< 1, 0, 4, 3, 2 >;
using PERM_JKILM = camp::idx_seq< 1, 2, 0, 3, 4 >;
using PERM_JKIML = camp::idx_seq< 1, 2, 0, 4, 3 >;
using PERM_JKLIM = camp::idx_seq< 1, 2, 3, 0, 4 >;
using PERM_JKLMI = camp::idx_seq< 1, 2, 3, 4, 0 >;
using PERM_JKMIL = camp::idx_seq< 1, 2, 4, 0, 3 >;
using PERM_JKMLI = camp::idx_seq< 1, 2, 4, 3, 0 >;
using PERM_JLIKM = camp::idx_seq< 1, 3, 0, 2, 4 >;
using PERM_JLIMK = camp::idx_seq< 1, 3, 0, 4, 2 >;
using PERM_JLKIM = camp::idx_seq< 1, 3, 2, 0, 4 >;
using PERM_JLKMI = camp::idx_seq< 1, 3, 2, 4, 0 >;
using PERM_JLMIK = camp::idx_seq< 1, 3, 4, 0, 2 >;
using PERM_JLMKI = camp::idx_seq< 1, 3, 4, 2, 0 >;
using PERM_JMIKL = camp::idx_seq< 1, 4, 0, 2, 3 >;
using PERM_JMILK = camp::idx_seq< 1, 4, 0, 3, 2 >;
using PERM_JMKIL = camp::idx_seq< 1, 4, 2, 0, 3 >;
using PERM_JMKLI = camp::idx_seq< 1, 4, 2, 3, 0 >;
using PERM_JMLIK = camp::idx_seq< 1, 4, 3, 0, 2 >;
using PERM_JMLKI = camp::idx_seq< 1, 4, 3, 2, 0 >;
using PERM_KIJLM = camp::idx_seq< 2, 0, 1, 3, 4 >;
using PERM_KIJML = camp::idx_seq< 2, 0, 1, 4, 3 >;
using PERM_KILJM = camp::idx_seq< 2, 0, 3, 1, 4 >;
using PERM_KILMJ = camp::idx_seq< 2, 0, 3, 4, 1 >;
using PERM_KIMJL = camp::idx_seq< 2, 0, 4, 1, 3 >;
using PERM_KIMLJ = camp::idx_seq< 2, 0, 4, 3, 1 >;
using PERM_KJILM = camp::idx_seq< 2, 1, 0, 3, 4 >;
using PERM_KJIML = camp::idx_seq< 2, 1, 0, 4, 3 >;
using PERM_KJLIM = camp::idx_seq< 2, 1, 3, 0, 4 >;
using PERM_KJLMI = camp::idx_seq< 2, 1, 3, 4, 0 >;
using PERM_KJMIL = camp::idx_seq< 2, 1, 4, 0, 3 >;
using PERM_KJMLI = camp::idx_seq< 2, 1, 4, 3, 0 >;
using PERM_KLIJM = camp::idx_seq< 2, 3, 0, 1, 4 >;
using PERM_KLIMJ = camp::idx_seq< 2, 3, 0, 4, 1 >;
using PERM_KLJIM = camp::idx_seq< 2, 3, 1, 0, 4 >;
using PERM_KLJMI = camp::idx_seq< 2, 3, 1, 4, 0 >;
using PERM_KLMIJ = camp::idx_seq< 2, 3, 4, 0, 1 >;
using PERM_KLMJI = camp::idx_seq< 2, 3, 4, 1, 0 >;
using PERM_KMIJL = camp::idx_seq< 2, 4, 0, 1, 3 >;
using PERM_KMILJ = camp::idx_seq< 2, 4, 0, 3, 1 >;
using PERM_KMJIL = camp::idx_seq< 2, 4, 1, 0, 3 >;
using PERM_KMJLI = camp::idx_seq< 2, 4, 1, 3, 0 >;
using PERM_KMLIJ = camp::idx_seq< 2, 4, 3, 0, 1 >;
using PERM_KMLJI = camp::idx_seq< 2, 4, 3, 1, 0 >;
using PERM_LIJKM = camp::idx_seq< 3, 0, 1, 2, 4 >;
using PERM_LIJMK = camp::idx_seq< 3, 0, 1, 4, 2 >;
using PERM_LIKJM = camp::idx_seq< 3, 0, 2, 1, 4 >;
using PERM_LIKMJ = camp::idx_seq< 3, 0, 2, 4, 1 >;
using PERM_LIMJK = camp::idx_seq< 3, 0, 4, 1, 2 >;
using PERM_LIMKJ = camp::idx_seq< 3, 0, 4, 2, 1 >;
using PERM_LJIKM = camp::idx_seq< 3, 1, 0, 2, 4 >;
using PERM_LJIMK = camp::idx_seq< 3, 1, 0, 4, 2 >;
using PERM_LJKIM = camp::idx_seq< 3, 1, 2, 0, 4 >;
using PERM_LJKMI = camp::idx_seq< 3, 1, 2, 4, 0 >;
using PERM_LJMIK = camp::idx_seq< 3, 1, 4, 0, 2 >;
using PERM_LJMKI = camp::idx_seq< 3, 1, 4, 2, 0 >;
using PERM_LKIJM = camp::idx_seq< 3, 2, 0, 1, 4 >;
using PERM_LKIMJ = camp::idx_seq< 3, 2, 0, 4, 1 >;
using PERM_LKJIM = camp::idx_seq< 3, 2, 1, 0, 4 >;
using PERM_LKJMI = camp::idx_seq< 3, 2, 1, 4, 0 >;
using PERM_LKMIJ = camp::idx_seq< 3, 2, 4, 0, 1 >;
using PERM_LKMJI = camp::idx_seq< 3, 2, 4, 1, 0 >;
using PERM_LMIJK = camp::idx_seq< 3, 4, 0, 1, 2 >;
using PERM_LMIKJ = camp::idx_seq< 3, 4, 0, 2, 1 >;
using PERM_LMJIK = camp::idx_seq< 3, 4, 1, 0, 2 >;
using PERM_LMJKI = camp::idx_seq< 3, 4, 1, 2, 0 >;
using PERM_LMKIJ = camp::idx_seq< 3, 4, 2, 0, 1 >;
using PERM_LMKJI = camp::idx_seq< 3, 4, 2, 1, 0 >;
using PERM_MIJKL = camp::idx_seq< 4, 0, 1, 2, 3 >;
using PERM_MIJLK = camp::idx_seq< 4, 0, 1, 3, 2 >;
using PERM_MIKJL = camp::idx_seq< 4, 0, 2, 1, 3 >;
using PERM_MIKLJ = camp::idx_seq< 4, 0, 2, 3, 1 >;
using PERM_MILJK = camp::idx_seq< 4, 0, 3, 1, 2 >;
using PERM_MILKJ = camp::idx_seq< 4, 0, 3, 2, 1 >;
using PERM_MJIKL = camp::idx_seq< 4, 1, 0, 2, 3 >;
using PERM_MJILK = camp::idx_seq< 4, 1, 0, 3, 2 >;
using PERM_MJKIL = camp::idx_seq< 4, 1, 2, 0, 3 >;
using PERM_MJKLI = camp::idx_seq< 4, 1, 2, 3, 0 >;
using PERM_MJLIK = camp::idx_seq< 4, 1, 3, 0, 2 >;
using PERM_MJLKI = camp::idx_seq< 4, 1, 3, 2, 0 >;
using PERM_MKIJL = camp::idx_seq< 4, 2, 0, 1, 3 >;
using PERM_MKILJ = camp::idx_seq< 4, 2, 0, 3, 1 >;
using PERM_MKJIL = camp::idx_seq< 4, 2, 1, 0, 3 >;
using PERM_MKJLI = camp::idx_seq< 4, 2, 1, 3, 0 >;
using PERM_MKLIJ = camp::idx_seq< 4, 2, 3, 0, 1 >;
using PERM_MKLJI = camp::idx_seq< 4, 2, 3, 1, 0 >;
using PERM_MLIJK = camp::idx_seq< 4, 3, 0, 1, 2 >;
using PERM_MLIKJ = camp::idx_seq< 4, 3, 0, 2, 1 >;
using PERM_MLJIK = camp::idx_seq< 4, 3, 1, 0, 2 >;
using PERM_MLJKI = camp::idx_seq< 4, 3, 1, 2, 0 >;
using PERM_MLKIJ = camp::idx_seq< 4, 3, 2, 0, 1 >;
using PERM_MLKJI = camp::idx_seq< 4, 3, 2, 1, 0 >;
template< typename PERM > struct as_array;
template< camp::idx_t... IS > struct as_array< camp::idx_seq< IS... > >
{ static constexpr std::array< Index_type, sizeof...( IS ) > get() { return { { IS... } }; } };

// ---- View / Layout (used by the repository's own unit tests only)
template< std::size_t N, typename IDX = Index_type, std::ptrdiff_t USD = -1 > struct Layout
{
  std::array< IDX, N > sizes, strides;
  template< typename... I > IDX operator()( I const ... is ) const
  { IDX const a[] = { IDX( is )... }; IDX r = 0; for( std::size_t d = 0; d < N; ++d ) r += a[ d ] * strides[ d ]; return r; }
};
template< std::size_t N, typename IDX >
Layout< N, IDX > make_permuted_layout( std::array< IDX, N > sizes, std::array< Index_type, N > perm )
{
  Layout< N, IDX > l; l.sizes = sizes; IDX s = 1;
  for( std::size_t i = N; i-- > 0; ) { l.strides[ perm[ i ] ] = s; s *= sizes[ perm[ i ] ]; }
  return l;
}
template< typename T, typename LAYOUT > struct View
{
  T * data; LAYOUT layout;
  View( T * d, LAYOUT l ): data( d ), layout( l ) {}
  template< typename... I > T & operator()( I const ... is ) const { return data[ layout( is... ) ]; }
};
template< typename POLICY, typename T > struct ReduceSum
{ T * p; T own; T base; bool isCopy; ReduceSum( T v ): p( &own ), own( v ), base( v ), isCopy( false ) {}
  ReduceSum( ReduceSum const & o ): p( o.p ), own( o.own ), base( o.base ), isCopy( true ) {}
  ReduceSum const & operator+=( T v ) const { *p += v; return *this; }
  T get() const { return *p; } operator T() const { return *p; } };
template< typename POLICY, typename T > struct ReduceMax
{ T * p; T own; ReduceMax( T v ): p( &own ), own( v ) {}
  ReduceMax( ReduceMax const & o ): p( o.p ), own( o.own ) {}
  void max( T v ) const { if( v > *p ) *p = v; }
  T get() const { return *p; } operator T() const { return *p; } };
template< typename POLICY, typename T > struct ReduceBitAnd
{ T * p; T own; ReduceBitAnd( T v ): p( &own ), own( v ) {}
  ReduceBitAnd( ReduceBitAnd const & o ): p( o.p ), own( o.own ) {}
  ReduceBitAnd const & operator&=( T v ) const { *p = *p & v; return *this; }
  T get() const { return *p; } operator T() const { return *p; } };
}
