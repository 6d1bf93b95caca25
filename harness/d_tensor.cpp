// C20 fixed size tensor operations, C21 determinants and inverses, C22 symmetric eigenvalue problems.
// ELEM: the element type of the C20 part. PART selects the sizes.
#include "common.hpp"
#include "Array.hpp"
#include "MallocBuffer.hpp"
#include "tensorOps.hpp"
#include "output.hpp"
using namespace H;
namespace to = LvArray::tensorOps;
using IDX = std::ptrdiff_t;
using LD = long double;
#if !defined( VALUE_TOL )
  #define VALUE_TOL 8
  #define ORTHO_TOL 12
  #define RESID_TOL 10
#endif

template< typename T, int NDIM, typename PERM > using Arr = LvArray::Array< T, NDIM, PERM, IDX, LvArray::MallocBuffer >;
using P1 = camp::idx_seq< 0 >;
using P2 = camp::idx_seq< 0, 1 >;
using P2T = camp::idx_seq< 1, 0 >;
using P3 = camp::idx_seq< 0, 1, 2 >;
using P3T = camp::idx_seq< 2, 1, 0 >;
using P3M = camp::idx_seq< 1, 2, 0 >;

// ------------------------------------------------------------------------------------------ operands
// Vectors: 0 C array, 1 array ( view ), 2 contiguous slice, 3 strided slice.
template< typename T, int N, int KIND > struct Vec;
template< typename T, int N > struct Vec< T, N, 0 >
{
  struct { T lo[ 3 ]; T d[ N ]; T hi[ 3 ]; } s;
  using Row = T[ N ];
  Row & get() { return s.d; }
  Row const & cget() const { return s.d; }
  T & at( int i ) { return s.d[ i ]; }
  template< typename F > void each( F && f ) { for( T & x : s.lo ) f( x ); for( T & x : s.d ) f( x ); for( T & x : s.hi ) f( x ); }
};
template< typename T, int N > struct Vec< T, N, 1 >
{
  Arr< T, 1, P1 > a{ N };
  auto get() { return a.toView(); }
  auto cget() const { return a.toViewConst(); }
  T & at( int i ) { return a.data()[ i ]; }
  template< typename F > void each( F && f ) { for( IDX i = 0; i < a.size(); ++i ) f( a.data()[ i ] ); }
};
template< typename T, int N > struct Vec< T, N, 2 >
{
  Arr< T, 2, P2 > a{ 3, N };
  auto get() { return a[ 1 ]; }
  auto cget() const { return a[ 1 ]; }
  T & at( int i ) { return a.data()[ N + i ]; }
  template< typename F > void each( F && f ) { for( IDX i = 0; i < a.size(); ++i ) f( a.data()[ i ] ); }
};
template< typename T, int N > struct Vec< T, N, 3 >
{
  Arr< T, 2, P2T > a{ 4, N };
  auto get() { return a[ 2 ]; }
  auto cget() const { return a[ 2 ]; }
  T & at( int i ) { return a.data()[ 2 + 4 * i ]; }
  template< typename F > void each( F && f ) { for( IDX i = 0; i < a.size(); ++i ) f( a.data()[ i ] ); }
};
// Matrices: 0 C array, 1 transposed array, 2 slice with unit stride in the last index, 3 slice strided in both.
template< typename T, int M, int N, int KIND > struct Mat;
template< typename T, int M, int N > struct Mat< T, M, N, 0 >
{
  struct { T lo[ 3 ]; T d[ M ][ N ]; T hi[ 3 ]; } s;
  using Rows = T[ M ][ N ];
  Rows & get() { return s.d; }
  Rows const & cget() const { return s.d; }
  T & at( int i, int j ) { return s.d[ i ][ j ]; }
  template< typename F > void each( F && f ) { for( T & x : s.lo ) f( x ); for( auto & r : s.d ) for( T & x : r ) f( x ); for( T & x : s.hi ) f( x ); }
};
template< typename T, int M, int N > struct Mat< T, M, N, 1 >
{
  Arr< T, 2, P2T > a{ M, N };
  auto get() { return a.toView(); }
  auto cget() const { return a.toViewConst(); }
  T & at( int i, int j ) { return a.data()[ i + M * j ]; }
  template< typename F > void each( F && f ) { for( IDX i = 0; i < a.size(); ++i ) f( a.data()[ i ] ); }
};
template< typename T, int M, int N > struct Mat< T, M, N, 2 >
{
  Arr< T, 3, P3 > a{ 3, M, N };
  auto get() { return a[ 1 ]; }
  auto cget() const { return a[ 1 ]; }
  T & at( int i, int j ) { return a.data()[ ( M + i ) * N + j ]; }
  template< typename F > void each( F && f ) { for( IDX i = 0; i < a.size(); ++i ) f( a.data()[ i ] ); }
};
template< typename T, int M, int N > struct Mat< T, M, N, 3 >
{
  Arr< T, 3, P3M > a{ 3, M, N };  // index 0 has unit stride, then index 2, then index 1
  auto get() { return a[ 2 ]; }
  auto cget() const { return a[ 2 ]; }
  T & at( int i, int j ) { return a.data()[ 2 + 3 * ( j + N * i ) ]; }
  template< typename F > void each( F && f ) { for( IDX i = 0; i < a.size(); ++i ) f( a.data()[ i ] ); }
};

template< typename V > std::vector< LD > allOf( V & v ) { std::vector< LD > r; v.each( [&]( auto & x ) { r.push_back( LD( x ) ); } ); return r; }
template< typename T, int N, int K > std::vector< LD > logical( Vec< T, N, K > & v ) { std::vector< LD > r; for( int i = 0; i < N; ++i ) r.push_back( LD( v.at( i ) ) ); return r; }
template< typename T, int M, int N, int K > std::vector< LD > logical( Mat< T, M, N, K > & v ) { std::vector< LD > r; for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) r.push_back( LD( v.at( i, j ) ) ); return r; }
template< typename T, int N, int K > void put( Vec< T, N, K > & v, std::vector< LD > const & x ) { for( int i = 0; i < N; ++i ) v.at( i ) = T( x[ std::size_t( i ) ] ); }
template< typename T, int M, int N, int K > void put( Mat< T, M, N, K > & v, std::vector< LD > const & x ) { for( int i = 0; i < M; ++i ) for( int j = 0; j < N; ++j ) v.at( i, j ) = T( x[ std::size_t( i * N + j ) ] ); }
// Small integers, or in floating point multiples of 1/4: everything computed from them is exact.
template< typename T > T small( Rng & r, bool fractions ) { return std::is_floating_point< T >::value && fractions ? T( LD( r.range( -36, 36 ) ) / 4 ) : T( r.range( -9, 9 ) ); }
template< typename V > void scramble( V & v, Rng & r, bool fractions = true ) { fractions = fractions && r.chance( 60 ); v.each( [&]( auto & x ) { x = small< std::decay_t< decltype( x ) > >( r, fractions ); } ); }

// One application: d must become want, nothing else may change.
struct Snap { std::vector< LD > all; };
template< typename V > struct Watch
{
  V & v; std::vector< LD > all, old;
  explicit Watch( V & x ): v( x ), all( allOf( x ) ), old( logical( x ) ) {}
  void became( Ctx & c, std::vector< LD > const & want, char const * op )
  {
    std::vector< LD > const now = logical( v );
    for( std::size_t i = 0; i < want.size(); ++i )
    {
      ++c.checks;
      if( now[ i ] != want[ i ] ) { char b[ 160 ]; std::snprintf( b, sizeof( b ), "%s: entry %zu is %.20Lg, expected %.20Lg", op, i, now[ i ], want[ i ] ); c.fail( std::string( "op-" ) + op, b ); }
    }
    std::vector< LD > const keep = now;
    put( v, old );
    if( allOf( v ) != all ) c.fail( std::string( "stray-" ) + op, std::string( op ) + " wrote outside of its destination" );
    put( v, keep );
    ++c.ops; c.event( op );
  }
  void same( Ctx & c, char const * op )
  {
    ++c.checks;
    if( allOf( v ) != all ) c.fail( std::string( "source-" ) + op, std::string( op ) + " changed one of its sources" );
  }
};
template< typename T > std::enable_if_t< std::is_floating_point< T >::value, bool > closeTo( T a, LD b ) { return std::fabs( LD( a ) - b ) <= 4 * std::numeric_limits< T >::epsilon() * std::fabs( b ); }
inline bool closeTo( long a, LD b ) { return LD( a ) == b; }

// ------------------------------------------------------------------------------------------ C20
template< typename T, int I, int KD, int KA, int KB > struct VecOps
{
  template< typename D > static std::enable_if_t< std::is_floating_point< T >::value && sizeof( D ) != 0 > norm( Ctx & c, D & d )
  {
    scramble( d, c.rng );
    bool zero = true;
    for( int i = 0; i < I; ++i ) zero = zero && d.at( i ) == 0;
    if( zero ) d.at( 0 ) = 3;
    LD sq = 0;
    for( int i = 0; i < I; ++i ) sq += LD( d.at( i ) ) * LD( d.at( i ) );
    Watch< D > w( d );
    to::normalize< I >( d.get() );
    for( int i = 0; i < I; ++i ) CHECK( c, std::fabs( LD( d.at( i ) ) - w.old[ std::size_t( i ) ] / std::sqrt( sq ) ) <= 8 * std::numeric_limits< T >::epsilon(), "op-normalize", "normalize" );
    put( d, w.old );
    CHECK( c, allOf( d ) == w.all, "stray-normalize", "normalize wrote outside of its destination" );
    c.event( "normalize" ); ++c.ops;
  }
  template< typename D > static std::enable_if_t< !std::is_floating_point< T >::value && sizeof( D ) != 0 > norm( Ctx &, D & ) {}
  static void run( Ctx & c )
  {
    Vec< T, I, KD > d; Vec< T, I, KA > a; Vec< T, I, KB > b;
    auto const go = [&]( char const * op, auto && apply, auto && formula )
    {
      scramble( d, c.rng ); scramble( a, c.rng ); scramble( b, c.rng );
      Watch< decltype( d ) > wd( d ); Watch< decltype( a ) > wa( a ); Watch< decltype( b ) > wb( b );
      apply();
      std::vector< LD > want( I );
      for( int i = 0; i < I; ++i ) want[ std::size_t( i ) ] = formula( wd.old[ std::size_t( i ) ], wa.old[ std::size_t( i ) ], wb.old[ std::size_t( i ) ] );
      wd.became( c, want, op ); wa.same( c, op ); wb.same( c, op );
    };
    T const s = std::is_floating_point< T >::value && c.rng.chance( 60 ) ? T( LD( c.rng.range( -10, 10 ) ) / 2 ) : T( c.rng.range( -5, 5 ) );
    LD const S = LD( s );
    go( "fill", [&]() { to::fill< I >( d.get(), s ); }, [&]( LD, LD, LD ) { return S; } );
    go( "scale", [&]() { to::scale< I >( d.get(), s ); }, [&]( LD x, LD, LD ) { return x * S; } );
    go( "addScalar", [&]() { to::addScalar< I >( d.get(), s ); }, [&]( LD x, LD, LD ) { return x + S; } );
    go( "copy", [&]() { to::copy< I >( d.get(), a.cget() ); }, [&]( LD, LD y, LD ) { return y; } );
    go( "scaledCopy", [&]() { to::scaledCopy< I >( d.get(), a.cget(), s ); }, [&]( LD, LD y, LD ) { return S * y; } );
    go( "add", [&]() { to::add< I >( d.get(), a.cget() ); }, [&]( LD x, LD y, LD ) { return x + y; } );
    go( "subtract", [&]() { to::subtract< I >( d.get(), a.cget() ); }, [&]( LD x, LD y, LD ) { return x - y; } );
    go( "scaledAdd", [&]() { to::scaledAdd< I >( d.get(), a.cget(), s ); }, [&]( LD x, LD y, LD ) { return x + S * y; } );
    go( "hadamardProduct", [&]() { to::hadamardProduct< I >( d.get(), a.cget(), b.cget() ); }, [&]( LD, LD y, LD z ) { return y * z; } );
    // reductions
    scramble( a, c.rng ); scramble( b, c.rng );
    Watch< decltype( a ) > wa( a ); Watch< decltype( b ) > wb( b );
    LD dot = 0, sq = 0, mx = 0;
    for( std::size_t i = 0; i < I; ++i ) { dot += wa.old[ i ] * wb.old[ i ]; sq += wa.old[ i ] * wa.old[ i ]; mx = std::max( mx, std::fabs( wa.old[ i ] ) ); }
    CHECK( c, LD( to::AiBi< I >( a.cget(), b.cget() ) ) == dot, "op-AiBi", "AiBi" );
    CHECK( c, LD( to::l2NormSquared< I >( a.cget() ) ) == sq, "op-l2NormSquared", "l2NormSquared" );
    CHECK( c, closeTo( to::l2Norm< I >( a.cget() ), std::sqrt( sq ) ), "op-l2Norm", "l2Norm" );
    CHECK( c, LD( to::maxAbsoluteEntry< I >( a.cget() ) ) == mx, "op-maxAbsoluteEntry", "maxAbsoluteEntry" );
    CHECK( c, LD( to::maxAbsoluteEntry< I >( a.get() ) ) == mx, "op-maxAbsoluteEntry", "maxAbsoluteEntry" );
    wa.same( c, "reduction" ); wb.same( c, "reduction" );
    c.ops += 5; c.event( "reductions", 5 );
    norm( c, d );
  }
};
template< typename T, int KD, int KA, int KB > void crossCase( Ctx & c )
{
  Vec< T, 3, KD > d; Vec< T, 3, KA > a; Vec< T, 3, KB > b;
  scramble( d, c.rng ); scramble( a, c.rng ); scramble( b, c.rng );
  Watch< decltype( d ) > wd( d ); Watch< decltype( a ) > wa( a ); Watch< decltype( b ) > wb( b );
  to::crossProduct( d.get(), a.cget(), b.cget() );
  std::vector< LD > w( 3 );
  for( std::size_t i = 0; i < 3; ++i ) w[ i ] = wa.old[ ( i + 1 ) % 3 ] * wb.old[ ( i + 2 ) % 3 ] - wa.old[ ( i + 2 ) % 3 ] * wb.old[ ( i + 1 ) % 3 ];
  wd.became( c, w, "crossProduct" ); wa.same( c, "crossProduct" ); wb.same( c, "crossProduct" );
}

// D is I x J, the formula is given the old entry and the indices.
template< int I, int J, typename D, typename F > std::vector< LD > matrixOf( D const &, F && f ) { std::vector< LD > w; for( int i = 0; i < I; ++i ) for( int j = 0; j < J; ++j ) w.push_back( f( std::size_t( i ), std::size_t( j ) ) ); return w; }

template< typename T, int I, int J, int K, int KD, int KA, int KB > void matOps( Ctx & c )
{
  T const s = T( c.rng.range( -5, 5 ) );
  LD const S = LD( s );
  { // entrywise
    Mat< T, I, J, KD > d; Mat< T, I, J, KA > a;
    auto const go = [&]( char const * op, auto && apply, auto && formula )
    {
      scramble( d, c.rng ); scramble( a, c.rng );
      Watch< decltype( d ) > wd( d ); Watch< decltype( a ) > wa( a );
      apply();
      std::vector< LD > want( I * J );
      for( std::size_t i = 0; i < want.size(); ++i ) want[ i ] = formula( wd.old[ i ], wa.old[ i ] );
      wd.became( c, want, op ); wa.same( c, op );
    };
    go( "fill2", [&]() { to::fill< I, J >( d.get(), s ); }, [&]( LD, LD ) { return S; } );
    go( "scale2", [&]() { to::scale< I, J >( d.get(), s ); }, [&]( LD x, LD ) { return S * x; } );
    go( "copy2", [&]() { to::copy< I, J >( d.get(), a.cget() ); }, [&]( LD, LD y ) { return y; } );
    go( "scaledCopy2", [&]() { to::scaledCopy< I, J >( d.get(), a.cget(), s ); }, [&]( LD, LD y ) { return S * y; } );
    go( "add2", [&]() { to::add< I, J >( d.get(), a.cget() ); }, [&]( LD x, LD y ) { return x + y; } );
    go( "scaledAdd2", [&]() { to::scaledAdd< I, J >( d.get(), a.cget(), s ); }, [&]( LD x, LD y ) { return x + S * y; } );
  }
  { // transpose and outer products
    Mat< T, I, J, KD > d; Mat< T, J, I, KA > a; Vec< T, I, KB > u; Vec< T, J, KA > v;
    scramble( d, c.rng ); scramble( a, c.rng ); scramble( u, c.rng ); scramble( v, c.rng );
    Watch< decltype( a ) > wa( a ); Watch< decltype( u ) > wu( u ); Watch< decltype( v ) > wv( v );
    { Watch< decltype( d ) > w( d ); to::transpose< I, J >( d.get(), a.cget() ); w.became( c, matrixOf< I, J >( d, [&]( std::size_t i, std::size_t j ) { return wa.old[ j * I + i ]; } ), "transpose" ); }
    { Watch< decltype( d ) > w( d ); to::Rij_eq_AiBj< I, J >( d.get(), u.cget(), v.cget() ); w.became( c, matrixOf< I, J >( d, [&]( std::size_t i, std::size_t j ) { return wu.old[ i ] * wv.old[ j ]; } ), "Rij_eq_AiBj" ); }
    scramble( d, c.rng );
    { Watch< decltype( d ) > w( d ); to::Rij_add_AiBj< I, J >( d.get(), u.cget(), v.cget() ); w.became( c, matrixOf< I, J >( d, [&]( std::size_t i, std::size_t j ) { return w.old[ i * J + j ] + wu.old[ i ] * wv.old[ j ]; } ), "Rij_add_AiBj" ); }
    wa.same( c, "transpose" ); wu.same( c, "Rij_AiBj" ); wv.same( c, "Rij_AiBj" );
  }
  { // matrix times vector
    Vec< T, I, KD > d; Mat< T, I, J, KA > a; Mat< T, J, I, KA > at; Vec< T, J, KB > b;
    scramble( d, c.rng ); scramble( a, c.rng ); scramble( at, c.rng ); scramble( b, c.rng );
    Watch< decltype( a ) > wa( a ); Watch< decltype( at ) > wt( at ); Watch< decltype( b ) > wb( b );
    auto const prod = [&]( std::vector< LD > const * old, bool tr ) { std::vector< LD > w; for( std::size_t i = 0; i < I; ++i ) { LD x = old ? ( *old )[ i ] : 0; for( std::size_t j = 0; j < J; ++j ) x += ( tr ? wt.old[ j * I + i ] : wa.old[ i * J + j ] ) * wb.old[ j ]; w.push_back( x ); } return w; };
    { Watch< decltype( d ) > w( d ); to::Ri_eq_AijBj< I, J >( d.get(), a.cget(), b.cget() ); w.became( c, prod( nullptr, false ), "Ri_eq_AijBj" ); }
    { scramble( d, c.rng ); Watch< decltype( d ) > w( d ); to::Ri_add_AijBj< I, J >( d.get(), a.cget(), b.cget() ); w.became( c, prod( &w.old, false ), "Ri_add_AijBj" ); }
    { scramble( d, c.rng ); Watch< decltype( d ) > w( d ); to::Ri_eq_AjiBj< I, J >( d.get(), at.cget(), b.cget() ); w.became( c, prod( nullptr, true ), "Ri_eq_AjiBj" ); }
    { scramble( d, c.rng ); Watch< decltype( d ) > w( d ); to::Ri_add_AjiBj< I, J >( d.get(), at.cget(), b.cget() ); w.became( c, prod( &w.old, true ), "Ri_add_AjiBj" ); }
    wa.same( c, "Ri_AijBj" ); wt.same( c, "Ri_AjiBj" ); wb.same( c, "Ri_AijBj" );
  }
  { // matrix times matrix
    Mat< T, I, J, KD > d; Mat< T, I, K, KA > a; Mat< T, K, J, KB > b; Mat< T, J, K, KB > bt; Mat< T, K, I, KA > at;
    scramble( a, c.rng ); scramble( b, c.rng ); scramble( bt, c.rng ); scramble( at, c.rng );
    Watch< decltype( a ) > wa( a ); Watch< decltype( b ) > wb( b ); Watch< decltype( bt ) > wbt( bt ); Watch< decltype( at ) > wat( at );
    auto const go = [&]( char const * op, auto && apply, bool add, auto && term )
    {
      scramble( d, c.rng );
      Watch< decltype( d ) > w( d );
      apply();
      w.became( c, matrixOf< I, J >( d, [&]( std::size_t i, std::size_t j ) { LD x = add ? w.old[ i * J + j ] : 0; for( std::size_t k = 0; k < K; ++k ) x += term( i, j, k ); return x; } ), op );
    };
    auto const ikkj = [&]( std::size_t i, std::size_t j, std::size_t k ) { return wa.old[ i * K + k ] * wb.old[ k * J + j ]; };
    auto const ikjk = [&]( std::size_t i, std::size_t j, std::size_t k ) { return wa.old[ i * K + k ] * wbt.old[ j * K + k ]; };
    auto const kikj = [&]( std::size_t i, std::size_t j, std::size_t k ) { return wat.old[ k * I + i ] * wb.old[ k * J + j ]; };
    go( "Rij_eq_AikBkj", [&]() { to::Rij_eq_AikBkj< I, J, K >( d.get(), a.cget(), b.cget() ); }, false, ikkj );
    go( "Rij_add_AikBkj", [&]() { to::Rij_add_AikBkj< I, J, K >( d.get(), a.cget(), b.cget() ); }, true, ikkj );
    go( "Rij_eq_AikBjk", [&]() { to::Rij_eq_AikBjk< I, J, K >( d.get(), a.cget(), bt.cget() ); }, false, ikjk );
    go( "Rij_add_AikBjk", [&]() { to::Rij_add_AikBjk< I, J, K >( d.get(), a.cget(), bt.cget() ); }, true, ikjk );
    go( "Rij_eq_AkiBkj", [&]() { to::Rij_eq_AkiBkj< I, J, K >( d.get(), at.cget(), b.cget() ); }, false, kikj );
    go( "Rij_add_AkiBkj", [&]() { to::Rij_add_AkiBkj< I, J, K >( d.get(), at.cget(), b.cget() ); }, true, kikj );
    wa.same( c, "matmat" ); wb.same( c, "matmat" ); wbt.same( c, "matmat" ); wat.same( c, "matmat" );
  }
  { // a matrix times its own transpose; square matrices
    Mat< T, I, I, KD > d; Mat< T, I, J, KA > a; Mat< T, J, I, KB > at;
    scramble( d, c.rng ); scramble( a, c.rng ); scramble( at, c.rng );
    Watch< decltype( a ) > wa( a ); Watch< decltype( at ) > wat( at );
    { Watch< decltype( d ) > w( d ); to::Rij_add_AikAjk< I, J >( d.get(), a.cget() ); w.became( c, matrixOf< I, I >( d, [&]( std::size_t i, std::size_t j ) { LD x = w.old[ i * I + j ]; for( std::size_t k = 0; k < J; ++k ) x += wa.old[ i * J + k ] * wa.old[ j * J + k ]; return x; } ), "Rij_add_AikAjk" ); }
    { scramble( d, c.rng ); Watch< decltype( d ) > w( d ); to::Rij_eq_AkiAkj< I, J >( d.get(), at.cget() ); w.became( c, matrixOf< I, I >( d, [&]( std::size_t i, std::size_t j ) { LD x = 0; for( std::size_t k = 0; k < J; ++k ) x += wat.old[ k * I + i ] * wat.old[ k * I + j ]; return x; } ), "Rij_eq_AkiAkj" ); }
    wa.same( c, "Rij_add_AikAjk" ); wat.same( c, "Rij_eq_AkiAkj" );
    { scramble( d, c.rng ); Watch< decltype( d ) > w( d ); to::transpose< I >( d.get() ); w.became( c, matrixOf< I, I >( d, [&]( std::size_t i, std::size_t j ) { return w.old[ j * I + i ]; } ), "transposeInPlace" ); }
    { scramble( d, c.rng ); Watch< decltype( d ) > w( d ); to::addIdentity< I >( d.get(), s ); w.became( c, matrixOf< I, I >( d, [&]( std::size_t i, std::size_t j ) { return w.old[ i * I + j ] + ( i == j ? S : 0 ); } ), "addIdentity" ); }
    { scramble( d, c.rng ); Watch< decltype( d ) > w( d ); LD t = 0; for( std::size_t i = 0; i < I; ++i ) t += w.old[ i * I + i ]; CHECK( c, LD( to::trace< I >( d.cget() ) ) == t, "op-trace", "trace" ); w.same( c, "trace" ); }
    constexpr int SS = ( I * ( I + 1 ) ) / 2;
    static_assert( to::SYM_SIZE< I > == SS, "SYM_SIZE" );
    Vec< T, SS, KD > y;
    { scramble( y, c.rng ); Watch< decltype( y ) > w( y ); to::symAddIdentity< I >( y.get(), s ); std::vector< LD > want = w.old; for( std::size_t i = 0; i < I; ++i ) want[ i ] += S; w.became( c, want, "symAddIdentity" ); }
    { scramble( y, c.rng ); Watch< decltype( y ) > w( y ); LD t = 0; for( std::size_t i = 0; i < I; ++i ) t += w.old[ i ]; CHECK( c, LD( to::symTrace< I >( y.cget() ) ) == t, "op-symTrace", "symTrace" ); w.same( c, "symTrace" ); }
  }
}

// packed order
template< int M > std::size_t packed( std::size_t i, std::size_t j )
{
  if( i > j ) std::swap( i, j );
  if( i == j ) return i;
  if( M == 2 ) return 2;
  return i == 1 ? 3 : j == 2 ? 4 : 5;
}
template< int M > std::vector< LD > dense( std::vector< LD > const & s ) { std::vector< LD > r( M * M ); for( std::size_t i = 0; i < M; ++i ) for( std::size_t j = 0; j < M; ++j ) r[ i * M + j ] = s[ packed< M >( i, j ) ]; return r; }
template< int M > std::vector< LD > pack( std::vector< LD > const & d ) { std::vector< LD > r( ( M * ( M + 1 ) ) / 2 ); for( std::size_t i = 0; i < M; ++i ) for( std::size_t j = i; j < M; ++j ) r[ packed< M >( i, j ) ] = d[ i * M + j ]; return r; }
template< typename T, int M, int KD, int KA, int KB > void symOps( Ctx & c )
{
  constexpr int SS = ( M * ( M + 1 ) ) / 2;
  Vec< T, M, KD > dv; Vec< T, M, KB > b; Vec< T, M, KA > b2; Vec< T, SS, KA > s; Vec< T, SS, KD > ds; Mat< T, M, M, KB > m; Mat< T, M, M, KD > dm;
  scramble( dv, c.rng ); scramble( b, c.rng ); scramble( b2, c.rng ); scramble( s, c.rng ); scramble( ds, c.rng ); scramble( m, c.rng ); scramble( dm, c.rng );
  Watch< decltype( b ) > wb( b ); Watch< decltype( b2 ) > wb2( b2 ); Watch< decltype( s ) > ws( s ); Watch< decltype( m ) > wm( m );
  std::vector< LD > const S = dense< M >( ws.old );
  auto const sv = [&]( std::vector< LD > const * old ) { std::vector< LD > w; for( std::size_t i = 0; i < M; ++i ) { LD x = old ? ( *old )[ i ] : 0; for( std::size_t j = 0; j < M; ++j ) x += S[ i * M + j ] * wb.old[ j ]; w.push_back( x ); } return w; };
  { Watch< decltype( dv ) > w( dv ); to::Ri_eq_symAijBj< M >( dv.get(), s.cget(), b.cget() ); w.became( c, sv( nullptr ), "Ri_eq_symAijBj" ); }
  { scramble( dv, c.rng ); Watch< decltype( dv ) > w( dv ); to::Ri_add_symAijBj< M >( dv.get(), s.cget(), b.cget() ); w.became( c, sv( &w.old ), "Ri_add_symAijBj" ); }
  { Watch< decltype( dm ) > w( dm ); to::Rij_eq_symAikBjk< M >( dm.get(), s.cget(), m.cget() ); w.became( c, matrixOf< M, M >( dm, [&]( std::size_t i, std::size_t j ) { LD x = 0; for( std::size_t k = 0; k < M; ++k ) x += S[ i * M + k ] * wm.old[ j * M + k ]; return x; } ), "Rij_eq_symAikBjk" ); }
  { Watch< decltype( ds ) > w( ds ); to::Rij_eq_AikSymBklAjl< M >( ds.get(), m.cget(), s.cget() );
    w.became( c, pack< M >( matrixOf< M, M >( ds, [&]( std::size_t i, std::size_t j ) { LD x = 0; for( std::size_t k = 0; k < M; ++k ) for( std::size_t l = 0; l < M; ++l ) x += wm.old[ i * M + k ] * S[ k * M + l ] * wm.old[ j * M + l ]; return x; } ) ), "Rij_eq_AikSymBklAjl" ); }
  { scramble( ds, c.rng ); Watch< decltype( ds ) > w( ds ); to::symRij_eq_AiAj< M >( ds.get(), b.cget() ); w.became( c, pack< M >( matrixOf< M, M >( ds, [&]( std::size_t i, std::size_t j ) { return wb.old[ i ] * wb.old[ j ]; } ) ), "symRij_eq_AiAj" ); }
  { scramble( ds, c.rng ); Watch< decltype( ds ) > w( ds ); to::symRij_eq_AiBj_plus_AjBi< M >( ds.get(), b.cget(), b2.cget() ); w.became( c, pack< M >( matrixOf< M, M >( ds, [&]( std::size_t i, std::size_t j ) { return wb.old[ i ] * wb2.old[ j ] + wb.old[ j ] * wb2.old[ i ]; } ) ), "symRij_eq_AiBj_plus_AjBi" ); }
  wm.same( c, "symOps" ); wb.same( c, "symOps" ); wb2.same( c, "symOps" );
  { scramble( dm, c.rng ); Watch< decltype( dm ) > w( dm ); to::symmetricToDense< M >( dm.get(), s.cget() ); w.became( c, S, "symmetricToDense" ); }
  ws.same( c, "symOps" );
  { // a symmetric dense matrix
    put( m, S );
    Watch< decltype( m ) > w2( m );
    scramble( ds, c.rng ); Watch< decltype( ds ) > w( ds ); to::denseToSymmetric< M >( ds.get(), m.cget() ); w.became( c, ws.old, "denseToSymmetric" ); w2.same( c, "denseToSymmetric" );
  }
  LD det = 0;
  if( M == 2 ) det = S[ 0 ] * S[ 3 ] - S[ 1 ] * S[ 2 ];
  else for( std::size_t j = 0; j < 3; ++j ) det += S[ j ] * ( S[ 3 + ( j + 1 ) % 3 ] * S[ 6 + ( j + 2 ) % 3 ] - S[ 3 + ( j + 2 ) % 3 ] * S[ 6 + ( j + 1 ) % 3 ] );
  CHECK( c, LD( to::symDeterminant< M >( s.cget() ) ) == det, "op-symDeterminant", "the determinant of a packed matrix of small integers" );
  CHECK( c, LD( to::determinant< M >( m.cget() ) ) == det, "op-determinant", "the determinant of a matrix of small integers" );
  ws.same( c, "symDeterminant" );
  c.ops += 2;
}

// Operands of different element types: the usual conversions apply, nothing is computed in less than the type of the product.
template< typename D, typename A, typename B, int I, int J, int K, int KD, int KA, int KB > void mixedOps( Ctx & c )
{
  Vec< D, I, KD > d; Vec< A, I, KA > a; Vec< B, I, KB > b; Vec< A, J, KA > aj; Vec< B, J, KB > bj; Mat< D, I, J, KD > m; Mat< A, I, J, KA > ma; Mat< B, I, J, KB > mb; Mat< A, I, K, KA > ik; Mat< B, K, J, KB > kj; Mat< B, J, I, KB > ji;
  bool doubled = false;
  auto const go = [&]( char const * op, auto & dst, auto & x, auto & y, auto && apply, auto && formula )
  {
    bool const fractions = std::is_floating_point< D >::value;   // a fraction cannot be stored in an integer
    scramble( dst, c.rng ); scramble( x, c.rng, fractions ); scramble( y, c.rng, fractions );
    if( doubled ) x.each( []( auto & e ) { e = std::decay_t< decltype( e ) >( e * 2 ); } );
    Watch< std::decay_t< decltype( dst ) > > wd( dst ); Watch< std::decay_t< decltype( x ) > > wx( x ); Watch< std::decay_t< decltype( y ) > > wy( y );
    apply();
    std::vector< LD > want( wd.old.size() );
    for( std::size_t q = 0; q < want.size(); ++q ) want[ q ] = formula( wd.old, wx.old, wy.old, q );
    wd.became( c, want, op ); wx.same( c, op ); wy.same( c, op );
  };
  using V = std::vector< LD > const &; using Q = std::size_t;
  A const s = small< A >( c.rng, false ); LD const S = LD( s );
  go( "copy", d, a, b, [&] { to::copy< I >( d.get(), a.cget() ); }, [&]( V, V x, V, Q q ) { return x[ q ]; } );
  go( "scaledCopy", d, a, b, [&] { to::scaledCopy< I >( d.get(), a.cget(), s ); }, [&]( V, V x, V, Q q ) { return x[ q ] * S; } );
  go( "add", d, a, b, [&] { to::add< I >( d.get(), a.cget() ); }, [&]( V o, V x, V, Q q ) { return o[ q ] + x[ q ]; } );
  go( "subtract", d, a, b, [&] { to::subtract< I >( d.get(), a.cget() ); }, [&]( V o, V x, V, Q q ) { return o[ q ] - x[ q ]; } );
  go( "scaledAdd", d, a, b, [&] { to::scaledAdd< I >( d.get(), a.cget(), s ); }, [&]( V o, V x, V, Q q ) { return o[ q ] + S * x[ q ]; } );
  go( "hadamardProduct", d, a, b, [&] { to::hadamardProduct< I >( d.get(), a.cget(), b.cget() ); }, [&]( V, V x, V y, Q q ) { return x[ q ] * y[ q ]; } );
  go( "copy matrix", m, ma, mb, [&] { to::copy< I, J >( m.get(), ma.cget() ); }, [&]( V, V x, V, Q q ) { return x[ q ]; } );
  go( "add matrix", m, ma, mb, [&] { to::add< I, J >( m.get(), ma.cget() ); }, [&]( V o, V x, V, Q q ) { return o[ q ] + x[ q ]; } );
  go( "transpose", m, ma, ji, [&] { to::transpose< I, J >( m.get(), ji.cget() ); }, [&]( V, V, V y, Q q ) { return y[ ( q % J ) * I + q / J ]; } );
  go( "Rij_eq_AiBj", m, a, bj, [&] { to::Rij_eq_AiBj< I, J >( m.get(), a.cget(), bj.cget() ); }, [&]( V, V x, V y, Q q ) { return x[ q / J ] * y[ q % J ]; } );
  go( "Rij_add_AiBj", m, a, bj, [&] { to::Rij_add_AiBj< I, J >( m.get(), a.cget(), bj.cget() ); }, [&]( V o, V x, V y, Q q ) { return o[ q ] + x[ q / J ] * y[ q % J ]; } );
  // The scale is a number of the source's type: halves of even numbers can be stored in an integer.
  A const h = std::is_floating_point< A >::value ? A( LD( 2 * c.rng.range( -4, 3 ) + 1 ) / 2 ) : s; LD const HALF = LD( h );
  doubled = true;
  go( "scaledCopy", d, a, b, [&] { to::scaledCopy< I >( d.get(), a.cget(), h ); }, [&]( V, V x, V, Q q ) { return x[ q ] * HALF; } );
  go( "scaledAdd", d, a, b, [&] { to::scaledAdd< I >( d.get(), a.cget(), h ); }, [&]( V o, V x, V, Q q ) { return o[ q ] + HALF * x[ q ]; } );
  go( "scaledCopy matrix", m, ma, mb, [&] { to::scaledCopy< I, J >( m.get(), ma.cget(), h ); }, [&]( V, V x, V, Q q ) { return x[ q ] * HALF; } );
  go( "scaledAdd matrix", m, ma, mb, [&] { to::scaledAdd< I, J >( m.get(), ma.cget(), h ); }, [&]( V o, V x, V, Q q ) { return o[ q ] + HALF * x[ q ]; } );
  doubled = false;
  auto const row = []( V x, V y, Q i ) { LD r = 0; for( Q j = 0; j < J; ++j ) r += x[ i * J + j ] * y[ j ]; return r; };
  go( "Ri_eq_AijBj", d, ma, bj, [&] { to::Ri_eq_AijBj< I, J >( d.get(), ma.cget(), bj.cget() ); }, [&]( V, V x, V y, Q q ) { return row( x, y, q ); } );
  go( "Ri_add_AijBj", d, ma, bj, [&] { to::Ri_add_AijBj< I, J >( d.get(), ma.cget(), bj.cget() ); }, [&]( V o, V x, V y, Q q ) { return o[ q ] + row( x, y, q ); } );
  auto const prod = []( V x, V y, Q q ) { LD r = 0; for( Q k = 0; k < K; ++k ) r += x[ ( q / J ) * K + k ] * y[ k * J + q % J ]; return r; };
  go( "Rij_eq_AikBkj", m, ik, kj, [&] { to::Rij_eq_AikBkj< I, J, K >( m.get(), ik.cget(), kj.cget() ); }, [&]( V, V x, V y, Q q ) { return prod( x, y, q ); } );
  go( "Rij_add_AikBkj", m, ik, kj, [&] { to::Rij_add_AikBkj< I, J, K >( m.get(), ik.cget(), kj.cget() ); }, [&]( V o, V x, V y, Q q ) { return o[ q ] + prod( x, y, q ); } );
  scramble( a, c.rng ); scramble( b, c.rng ); LD dot = 0; for( int i = 0; i < I; ++i ) dot += LD( a.at( i ) ) * LD( b.at( i ) );
  CHECK( c, LD( to::AiBi< I >( a.cget(), b.cget() ) ) == dot, "op-AiBi", "AiBi" ); ++c.ops; c.event( "operands of different types" );
}

#if defined( ELEM )
template< void ( *F )( Ctx & ) > void wrapped( Ctx & c ) { c.op( "seed %llx", ( unsigned long long ) c.seed ); F( c ); c.nontrivial = true; }
#define REG( NAME, ID, ... ) static Register r_##ID( std::string( "op/" ) + NAME + "/" + ELEM_NAME, wrapped< __VA_ARGS__ > )
#define VEC( I, D, A, B ) REG( "vector-" #I "-" #D #A #B, v##I##D##A##B, VecOps< ELEM, I, D, A, B >::run )
#define MATR( I, J, K, D, A, B ) REG( "matrix-" #I "x" #J "x" #K "-" #D #A #B, m##I##J##K##D##A##B, matOps< ELEM, I, J, K, D, A, B > )
#define SYM( M, D, A, B ) REG( "sym-" #M "-" #D #A #B, s##M##D##A##B, symOps< ELEM, M, D, A, B > )
#define CROSS( D, A, B ) REG( "cross-" #D #A #B, c##D##A##B, crossCase< ELEM, D, A, B > )
#define MIXED( ID, ... ) REG( "mixed-" #ID, x##ID, mixedOps< ELEM, __VA_ARGS__ > )
#if PART == 1
VEC( 1, 0, 1, 2 ); VEC( 2, 0, 0, 0 ); VEC( 2, 1, 2, 3 ); VEC( 3, 0, 3, 1 ); VEC( 3, 2, 0, 3 ); VEC( 3, 3, 1, 0 ); VEC( 4, 3, 3, 3 ); VEC( 5, 1, 0, 2 ); VEC( 6, 2, 3, 0 ); VEC( 9, 3, 2, 1 ); VEC( 6, 0, 1, 1 ); VEC( 8, 1, 3, 0 ); VEC( 12, 2, 1, 3 ); VEC( 24, 0, 2, 2 ); VEC( 27, 3, 0, 1 );
CROSS( 0, 0, 0 ); CROSS( 1, 2, 3 ); CROSS( 2, 3, 0 ); CROSS( 3, 0, 1 ); CROSS( 3, 3, 2 ); CROSS( 0, 1, 3 );
SYM( 2, 0, 0, 0 ); SYM( 2, 1, 2, 3 ); SYM( 2, 3, 1, 2 ); SYM( 2, 2, 3, 1 ); SYM( 2, 3, 3, 0 );
#elif PART == 2
SYM( 3, 0, 0, 0 ); SYM( 3, 1, 2, 3 ); SYM( 3, 2, 3, 1 ); SYM( 3, 3, 1, 2 ); SYM( 3, 3, 0, 3 );
MATR( 1, 1, 1, 1, 0, 2 ); MATR( 2, 2, 2, 0, 1, 3 ); MATR( 3, 3, 3, 3, 2, 0 );
#elif PART == 3
MATR( 2, 3, 4, 0, 0, 0 ); MATR( 3, 2, 1, 1, 2, 3 ); MATR( 4, 3, 2, 2, 3, 1 ); MATR( 3, 6, 2, 3, 1, 2 ); MATR( 8, 3, 3, 0, 2, 1 ); MATR( 3, 3, 8, 2, 1, 3 );
MIXED( 1, int, float, 3, 2, 4, 0, 1, 2 ); MIXED( 2, short, int, 2, 3, 3, 3, 0, 1 ); MIXED( 5, double, ELEM, 3, 2, 2, 1, 0, 2 );
#else
MATR( 1, 4, 3, 3, 0, 1 ); MATR( 3, 3, 3, 0, 3, 2 ); MATR( 5, 1, 2, 2, 1, 0 ); MATR( 2, 5, 3, 1, 3, 3 ); MATR( 3, 8, 3, 3, 2, 2 ); MATR( 7, 7, 2, 2, 3, 0 );
MIXED( 3, ELEM, int, 3, 3, 3, 2, 3, 0 ); MIXED( 4, signed char, ELEM, 6, 1, 5, 1, 2, 3 ); MIXED( 6, float, int, 2, 3, 4, 3, 1, 0 );
#endif
#else

// ------------------------------------------------------------------------------------------ C21
template< typename T > T drawEntry( Rng & r, int style )
{
  switch( style )
  {
    case 0: return T( r.range( -4, 4 ) );
    case 1: return T( ( r.unit() - 0.5 ) * 2 );
    case 2: return T( r.chance( 30 ) ? 0 : ( r.unit() - 0.5 ) * 2 );
    default: return T( ( r.unit() - 0.5 ) * std::pow( 10.0, double( r.range( -2, 2 ) ) ) );
  }
}
// determinant, the sum of the absolute values of its terms, and the inverse in long double
template< int M > void reference( std::vector< LD > const & a, LD & det, LD & mag, std::vector< LD > & inv )
{
  inv.assign( M * M, 0 );
  if( M == 2 )
  {
    det = a[ 0 ] * a[ 3 ] - a[ 1 ] * a[ 2 ]; mag = std::fabs( a[ 0 ] * a[ 3 ] ) + std::fabs( a[ 1 ] * a[ 2 ] );
    inv = { a[ 3 ] / det, -a[ 1 ] / det, -a[ 2 ] / det, a[ 0 ] / det };
    return;
  }
  det = mag = 0;
  auto A = [&]( std::size_t i, std::size_t j ) { return a[ ( i % 3 ) * 3 + j % 3 ]; };
  for( std::size_t j = 0; j < 3; ++j )
  {
    det += A( 0, j ) * ( A( 1, j + 1 ) * A( 2, j + 2 ) - A( 1, j + 2 ) * A( 2, j + 1 ) );
    mag += std::fabs( A( 0, j ) ) * ( std::fabs( A( 1, j + 1 ) * A( 2, j + 2 ) ) + std::fabs( A( 1, j + 2 ) * A( 2, j + 1 ) ) );
  }
  for( std::size_t i = 0; i < 3; ++i ) for( std::size_t j = 0; j < 3; ++j ) inv[ j * 3 + i ] = ( A( i + 1, j + 1 ) * A( i + 2, j + 2 ) - A( i + 1, j + 2 ) * A( i + 2, j + 1 ) ) / det;
}
LD maxAbs( std::vector< LD > const & v ) { LD m = 0; for( LD x : v ) m = std::max( m, std::fabs( x ) ); return m; }
template< int M > void checkInverse( Ctx & c, std::vector< LD > const & x, std::vector< LD > const & inv, LD cond, LD eps, char const * key )
{
  LD const scale = maxAbs( inv );
  for( std::size_t i = 0; i < x.size(); ++i )
  {
    ++c.checks;
    if( !( std::fabs( x[ i ] - inv[ i ] ) <= 40 * eps * cond * scale ) ) { char b[ 160 ]; std::snprintf( b, sizeof( b ), "entry %zu of the inverse is %.15Lg, expected %.15Lg ( condition %.3Lg )", i, x[ i ], inv[ i ], cond ); c.fail( key, b ); }
  }
}
template< typename T, int M, int KD, int KA > void inverseCase( Ctx & c )
{
  LD const eps = std::numeric_limits< T >::epsilon();
  bool const symmetric = c.rng.chance( 50 );
  int const style = int( c.rng.below( 4 ) );
  T const sc = c.rng.chance( 60 ) ? T( 1 ) : T( std::ldexp( 1.0, int( c.rng.range( -20, 20 ) ) ) );
  Mat< T, M, M, KD > d; Mat< T, M, M, KA > a;
  constexpr int SS = ( M * ( M + 1 ) ) / 2;
  Vec< T, SS, KD > ds; Vec< T, SS, KA > as;
  scramble( d, c.rng ); scramble( a, c.rng ); scramble( ds, c.rng ); scramble( as, c.rng );
  LD det = 0, mag = 0, cond = 0; std::vector< LD > inv, dn;
  for( int tries = 0; tries < 50; ++tries )
  {
    if( symmetric ) { std::vector< LD > p; for( int i = 0; i < SS; ++i ) p.push_back( drawEntry< T >( c.rng, style ) * sc ); put( as, p ); dn = dense< M >( logical( as ) ); put( a, dn ); }
    else { dn.clear(); for( int i = 0; i < M * M; ++i ) dn.push_back( drawEntry< T >( c.rng, style ) * sc ); put( a, dn ); dn = logical( a ); }
    reference< M >( dn, det, mag, inv );
    cond = std::fabs( det ) > 0 ? maxAbs( dn ) * maxAbs( inv ) * M : 1e30L;
    // the adjugate formula loses what cancels in the determinant as well
    cond = std::max( cond, std::fabs( det ) > 0 ? mag / std::fabs( det ) : 1e30L );
    if( cond < ( sizeof( T ) == 4 ? 2e3L : 1e8L ) ) break;
  }
  if( cond > ( sizeof( T ) == 4 ? 2e3L : 1e8L ) ) { put( a, M == 2 ? std::vector< LD >{ 2, 1, 1, 3 } : std::vector< LD >{ 2, 1, 0, 1, 3, 1, 0, 1, 4 } ); dn = logical( a ); put( as, pack< M >( dn ) ); reference< M >( dn, det, mag, inv ); cond = 20; }
  c.op( "invert %s condition %.4Lg style %d scale %g seed %llx", symmetric ? "symmetric" : "general", cond, style, double( sc ), ( unsigned long long ) c.seed );
  c.event( cond > 100 ? "condition>100" : "condition<100" );
  auto const detOk = [&]( LD x, char const * key ) { ++c.checks; if( !( std::fabs( x - det ) <= 10 * eps * mag ) ) { char b[ 160 ]; std::snprintf( b, sizeof( b ), "the determinant is %.15Lg, expected %.15Lg", x, det ); c.fail( key, b ); } };
  {
    Watch< decltype( a ) > wa( a ); Watch< decltype( d ) > wd( d );
    detOk( to::determinant< M >( a.cget() ), "determinant" );
    detOk( to::invert< M >( d.get(), a.cget() ), "invert-determinant" );
    checkInverse< M >( c, logical( d ), inv, cond, eps, "invert" );
    wa.same( c, "invert" );
    put( d, wd.old ); CHECK( c, allOf( d ) == wd.all, "stray-invert", "invert wrote outside of its destination" );
    detOk( to::invert< M >( a.get() ), "invert-in-place-determinant" );
    checkInverse< M >( c, logical( a ), inv, cond, eps, "invert-in-place" );
    put( a, wa.old ); CHECK( c, allOf( a ) == wa.all, "stray-invert", "invert wrote outside of its destination" );
    c.ops += 3;
  }
  if( symmetric )
  {
    Watch< decltype( as ) > wa( as ); Watch< decltype( ds ) > wd( ds );
    detOk( to::symDeterminant< M >( as.cget() ), "symDeterminant" );
    detOk( to::symInvert< M >( ds.get(), as.cget() ), "symInvert-determinant" );
    checkInverse< M >( c, dense< M >( logical( ds ) ), inv, cond, eps, "symInvert" );
    wa.same( c, "symInvert" );
    put( ds, wd.old ); CHECK( c, allOf( ds ) == wd.all, "stray-symInvert", "symInvert wrote outside of its destination" );
    detOk( to::symInvert< M >( as.get() ), "symInvert-in-place-determinant" );
    checkInverse< M >( c, dense< M >( logical( as ) ), inv, cond, eps, "symInvert-in-place" );
    put( as, wa.old ); CHECK( c, allOf( as ) == wa.all, "stray-symInvert", "symInvert wrote outside of its destination" );
    c.ops += 3;
  }
  c.nontrivial = true;
}
// sources of an integer type
template< typename T, typename S, int M > void integerSymmetricInverse( Ctx & c )
{
  constexpr int SS = ( M * ( M + 1 ) ) / 2;
  S a[ SS ]; T d[ SS ];
  std::vector< LD > p( SS ), dn, inv; LD det = 0, mag = 0;
  while( det == 0 ) { for( int i = 0; i < SS; ++i ) { a[ i ] = S( c.rng.range( -9, 9 ) ); p[ std::size_t( i ) ] = LD( a[ i ] ); } dn = dense< M >( p ); reference< M >( dn, det, mag, inv ); }
  c.op( "invert symmetric integers det %Lg seed %llx", det, ( unsigned long long ) c.seed );
  CHECK( c, LD( to::symDeterminant< M >( a ) ) == det, "symDeterminant", "an integer determinant is exact" );
  LD const r = LD( to::symInvert< M >( d, a ) );
  CHECK( c, std::fabs( r - det ) <= 10 * LD( std::numeric_limits< T >::epsilon() ) * mag, "symInvert-determinant", "the determinant of the original is returned" );
  std::vector< LD > x; for( T v : d ) x.push_back( LD( v ) );
  checkInverse< M >( c, dense< M >( x ), inv, mag, std::numeric_limits< T >::epsilon(), "symInvert" );
  for( int i = 0; i < SS; ++i ) CHECK( c, LD( a[ i ] ) == p[ std::size_t( i ) ], "source", "the source is not modified" );
  c.ops += 2;
  c.nontrivial = true;
}
template< typename T, int M > void integerInverse( Ctx & c )
{
  if( c.rng.chance( 50 ) ) { if( c.rng.chance( 50 ) ) integerSymmetricInverse< T, int, M >( c ); else integerSymmetricInverse< T, long, M >( c ); return; }
  long a[ M ][ M ]; T d[ M ][ M ];
  std::vector< LD > dn( M * M ), inv; LD det = 0, mag = 0;
  while( det == 0 ) { for( int i = 0; i < M; ++i ) for( int j = 0; j < M; ++j ) { a[ i ][ j ] = c.rng.range( -5, 5 ); dn[ std::size_t( i * M + j ) ] = LD( a[ i ][ j ] ); } reference< M >( dn, det, mag, inv ); }
  c.op( "invert integers det %Lg seed %llx", det, ( unsigned long long ) c.seed );
  CHECK( c, LD( to::determinant< M >( a ) ) == det, "determinant", "an integer determinant is exact" );
  LD const r = LD( to::invert< M >( d, a ) );
  CHECK( c, std::fabs( r - det ) <= 10 * LD( std::numeric_limits< T >::epsilon() ) * mag, "invert-determinant", "the determinant of the original is returned" );
  std::vector< LD > x; for( auto & row : d ) for( T v : row ) x.push_back( LD( v ) );
  checkInverse< M >( c, x, inv, mag, std::numeric_limits< T >::epsilon(), "invert" );
  c.ops += 2;
  c.nontrivial = true;
}
#define INV( T, M, D, A ) static Register r_inv_##T##M##D##A( "inverse/" #T "-" #M "-" #D #A, inverseCase< T, M, D, A > )
INV( double, 2, 0, 0 ); INV( double, 2, 1, 2 ); INV( double, 2, 3, 1 ); INV( float, 2, 2, 3 ); INV( float, 2, 0, 1 );
INV( double, 3, 0, 0 ); INV( double, 3, 1, 3 ); INV( double, 3, 2, 1 ); INV( float, 3, 3, 2 ); INV( float, 3, 0, 0 ); INV( double, 3, 3, 0 );
static Register r_ii2( "inverse/integer-2", integerInverse< double, 2 > );
static Register r_ii3( "inverse/integer-3", integerInverse< double, 3 > );
static Register r_if2( "inverse/integer-2f", integerInverse< float, 2 > );
static Register r_if3( "inverse/integer-3f", integerInverse< float, 3 > );

// ------------------------------------------------------------------------------------------ C22
// cyclic Jacobi in long double
template< int M > void jacobi( std::vector< LD > a, std::vector< LD > & val )
{
  auto A = [&]( int i, int j ) -> LD & { return a[ std::size_t( i * M + j ) ]; };
  for( int sweep = 0; sweep < 60; ++sweep )
  {
    LD off = 0;
    for( int i = 0; i < M; ++i ) for( int j = i + 1; j < M; ++j ) off += A( i, j ) * A( i, j );
    if( off == 0 ) break;
    for( int p = 0; p < M; ++p ) for( int q = p + 1; q < M; ++q )
    {
      if( A( p, q ) == 0 ) continue;
      LD const th = ( A( q, q ) - A( p, p ) ) / ( 2 * A( p, q ) );
      LD const t = ( th >= 0 ? 1 : -1 ) / ( std::fabs( th ) + std::sqrt( th * th + 1 ) );
      LD const cs = 1 / std::sqrt( t * t + 1 ), sn = t * cs;
      for( int k = 0; k < M; ++k ) { LD const x = A( k, p ), y = A( k, q ); A( k, p ) = cs * x - sn * y; A( k, q ) = sn * x + cs * y; }
      for( int k = 0; k < M; ++k ) { LD const x = A( p, k ), y = A( q, k ); A( p, k ) = cs * x - sn * y; A( q, k ) = sn * x + cs * y; }
    }
  }
  val.clear();
  for( int i = 0; i < M; ++i ) val.push_back( A( i, i ) );
  std::sort( val.begin(), val.end() );
}
extern double s_worst[ 8 ];
double s_worst[ 8 ];
template< typename T, int M, int KD, int KA, typename S = T > void eigenCase( Ctx & c )
{
  LD const eps = std::numeric_limits< T >::epsilon();
  constexpr int SS = ( M * ( M + 1 ) ) / 2;
  constexpr bool whole = std::is_integral< S >::value;
  Vec< S, SS, KA > s; Vec< T, M, KD > vals, vals2; Mat< T, M, M, KD > vecs;
  scramble( s, c.rng ); scramble( vals, c.rng ); scramble( vals2, c.rng ); scramble( vecs, c.rng );
  int const style = whole ? int( c.rng.below( 4 ) ) : int( c.rng.below( 9 ) );
  std::vector< LD > p( SS );
  switch( style )
  {
    case 0: for( auto & x : p ) x = LD( c.rng.range( -3, 3 ) ); break;
    case 1: for( auto & x : p ) x = whole ? LD( c.rng.range( -1000, 1000 ) ) : ( c.rng.unit() - 0.5 ) * 2; break;
    case 2: for( int i = 0; i < SS; ++i ) p[ std::size_t( i ) ] = i < M ? LD( c.rng.range( -3, 3 ) ) : 0; break;           // diagonal
    case 3: for( auto & x : p ) x = 0; break;                                                                              // zero
    case 4: for( int i = 0; i < SS; ++i ) p[ std::size_t( i ) ] = i < M ? LD( 1.7 ) : 0; break;                            // a multiple of the identity
    case 5: case 6: case 7:                                                                                                // a chosen spectrum
    {
      LD lam[ 3 ]; LD const base = c.rng.chance( 30 ) ? 0 : ( c.rng.unit() - 0.5 ) * 4;
      LD const gap = style == 5 ? 0 : std::pow( 10.0L, LD( c.rng.range( sizeof( T ) == 4 ? -7 : -16, 0 ) ) );
      lam[ 0 ] = base; lam[ 1 ] = base + gap; lam[ 2 ] = c.rng.chance( 70 ) ? base + 1 : c.rng.chance( 50 ) ? base + 2 * gap : base - 1.5L;
      LD q[ 3 ][ 3 ];
      LD u[ 4 ]; LD n = 0; for( auto & x : u ) { x = c.rng.unit() - 0.5; n += x * x; } n = std::sqrt( n ); if( n == 0 ) { u[ 0 ] = n = 1; } for( auto & x : u ) x /= n;
      if( c.rng.chance( 20 ) ) { u[ 0 ] = 1; u[ 1 ] = 1e-9; u[ 2 ] = u[ 3 ] = 0; }
      LD const w = u[ 0 ], x = u[ 1 ], y = u[ 2 ], z = u[ 3 ];
      LD const Q[ 3 ][ 3 ] = { { 1 - 2 * ( y * y + z * z ), 2 * ( x * y - z * w ), 2 * ( x * z + y * w ) }, { 2 * ( x * y + z * w ), 1 - 2 * ( x * x + z * z ), 2 * ( y * z - x * w ) }, { 2 * ( x * z - y * w ), 2 * ( y * z + x * w ), 1 - 2 * ( x * x + y * y ) } };
      LD const th = c.rng.unit() * 6.28;
      if( M == 2 ) { q[ 0 ][ 0 ] = q[ 1 ][ 1 ] = std::cos( th ); q[ 0 ][ 1 ] = -( q[ 1 ][ 0 ] = std::sin( th ) ); }
      else for( int i = 0; i < 3; ++i ) for( int j = 0; j < 3; ++j ) q[ i ][ j ] = Q[ i ][ j ];
      for( int i = 0; i < M; ++i ) for( int j = i; j < M; ++j ) { LD v = 0; for( int k = 0; k < M; ++k ) v += q[ i ][ k ] * lam[ M == 2 ? k : k ] * q[ j ][ k ]; p[ packed< M >( std::size_t( i ), std::size_t( j ) ) ] = v; }
      break;
    }
    default: for( int i = 0; i < SS; ++i ) p[ std::size_t( i ) ] = ( c.rng.unit() - 0.5 ) * std::pow( 10.0L, LD( c.rng.range( -8, 0 ) ) );           // graded
  }
  LD const sc = whole || c.rng.chance( 60 ) ? 1 : std::ldexp( 1.0L, int( c.rng.range( sizeof( T ) == 4 ? -110 : -950, sizeof( T ) == 4 ? 110 : 950 ) ) );
  for( auto & x : p ) x *= sc;
  put( s, p );
  std::vector< LD > const A = dense< M >( logical( s ) );
  LD norm = 0;
  for( LD x : A ) norm += x * x;
  norm = std::sqrt( norm );
  std::vector< LD > ref;
  jacobi< M >( A, ref );
  Watch< decltype( s ) > wsrc( s ); Watch< decltype( vals ) > wv( vals ); Watch< decltype( vecs ) > wm( vecs );
  to::symEigenvalues< M >( vals.get(), s.cget() );
  to::symEigenvectors< M >( vals2.get(), vecs.get(), s.cget() );
  wsrc.same( c, "symEigen" );
  std::vector< LD > const v1 = logical( vals ), v2 = logical( vals2 ), X = logical( vecs );
  put( vals, wv.old ); put( vecs, wm.old );
  CHECK( c, allOf( vals ) == wv.all && allOf( vecs ) == wm.all, "stray-symEigen", "only the destinations are written" );
  c.op( "eigen style %d entries %.9Lg %.9Lg %.9Lg ( 3 x 3: %.9Lg %.9Lg %.9Lg )", style, p[ 0 ], p[ 1 ], p[ 2 ], p[ SS - 3 ], p[ SS - 2 ], p[ SS - 1 ] );
  c.ops += 2;
  for( LD x : v1 ) CHECK( c, std::isfinite( x ), "eigenvalue-finite", "eigenvalues are finite" );
  for( LD x : v2 ) CHECK( c, std::isfinite( x ), "eigenvalue-finite", "eigenvalues are finite" );
  for( LD x : X ) CHECK( c, std::isfinite( x ), "eigenvector-finite", "eigenvectors are finite" );
  // The closed formula for three dimensions is exact to rounding for separated eigenvalues and to the
  // square root of rounding for ( nearly ) repeated ones, relative to the spread of the spectrum.
  LD const spread = std::max( ref[ M - 1 ] - ref[ 0 ], LD( 0 ) );
  LD gap = spread;
  for( int i = 0; i + 1 < M; ++i ) gap = std::min( gap, ref[ std::size_t( i ) + 1 ] - ref[ std::size_t( i ) ] );
  LD const rel = spread > 0 ? gap / spread : 0;
  LD const amp = M == 2 ? 1 : 1 / std::max( rel, std::sqrt( eps ) );
  LD const denorm = 8 * LD( std::numeric_limits< T >::denorm_min() );  // entries and results may be denormal
  LD const tol = VALUE_TOL * eps * ( norm + spread * amp ) + denorm;
  for( std::size_t i = 0; i < M; ++i )
  {
    LD const e = std::max( std::fabs( v1[ i ] - ref[ i ] ), std::fabs( v2[ i ] - ref[ i ] ) );
    if( tol > 0 ) s_worst[ 0 ] = std::max( s_worst[ 0 ], double( e / tol ) );
    ++c.checks;
    if( !( e <= tol ) ) { char b[ 200 ]; std::snprintf( b, sizeof( b ), "eigenvalue %zu is %.18Lg and %.18Lg, expected %.18Lg, tolerance %.3Lg", i, v1[ i ], v2[ i ], ref[ i ], tol ); c.fail( "eigenvalue", b ); }
    if( i > 0 ) CHECK( c, v1[ i ] >= v1[ i - 1 ] && v2[ i ] >= v2[ i - 1 ], "eigenvalue-order", "eigenvalues are in ascending order" );
    CHECK( c, std::fabs( v1[ i ] - v2[ i ] ) <= tol, "eigenvalue-agreement", "both functions agree" );
  }
  // rows are eigenvectors
  LD const otol = ORTHO_TOL * eps * amp;
  LD const rtol = RESID_TOL * eps * ( norm + spread * amp ) + 4 * denorm;
  for( std::size_t i = 0; i < M; ++i )
  {
    LD len = 0;
    for( std::size_t k = 0; k < M; ++k ) len += X[ i * M + k ] * X[ i * M + k ];
    s_worst[ 1 ] = std::max( s_worst[ 1 ], double( std::fabs( len - 1 ) / ( 16 * eps ) ) );
    CHECK( c, std::fabs( len - 1 ) <= 16 * eps, "eigenvector-unit", "eigenvectors have unit length" );
    for( std::size_t j = 0; j < i; ++j )
    {
      LD d = 0;
      for( std::size_t k = 0; k < M; ++k ) d += X[ i * M + k ] * X[ j * M + k ];
      s_worst[ 2 ] = std::max( s_worst[ 2 ], double( std::fabs( d ) / otol ) );
      if( std::fabs( d ) > otol ) { char b[ 200 ]; std::snprintf( b, sizeof( b ), "eigenvectors %zu and %zu have product %.6Lg, relative gap %.4Lg", i, j, d, rel ); c.fail( "eigenvector-orthogonal", b ); }
    }
    LD res = 0;
    for( std::size_t r = 0; r < M; ++r ) { LD y = -v2[ i ] * X[ i * M + r ]; for( std::size_t k = 0; k < M; ++k ) y += A[ r * M + k ] * X[ i * M + k ]; res += y * y; }
    res = std::sqrt( res );
    if( rtol > 0 ) s_worst[ 3 ] = std::max( s_worst[ 3 ], double( res / rtol ) );
    ++c.checks;
    if( !( res <= rtol ) ) { char b[ 200 ]; std::snprintf( b, sizeof( b ), "A v - lambda v is %.6Lg for eigenvector %zu, tolerance %.6Lg, relative gap %.4Lg", res, i, rtol, rel ); c.fail( "eigenvector-residual", b ); }
  }
  c.event( rel < std::sqrt( eps ) ? "repeated-or-nearly" : "separated" );
  c.nontrivial = true;
}
#define EIG( T, M, D, A ) static Register r_eig_##T##M##D##A( "eigen/" #T "-" #M "-" #D #A, eigenCase< T, M, D, A > )
EIG( double, 2, 0, 0 ); EIG( double, 2, 3, 1 ); EIG( float, 2, 1, 2 );
EIG( double, 3, 0, 0 ); EIG( double, 3, 3, 2 ); EIG( double, 3, 1, 3 ); EIG( float, 3, 2, 1 ); EIG( float, 3, 0, 3 );
static Register r_eig_i2( "eigen/integer-2", eigenCase< double, 2, 0, 1, int > );
static Register r_eig_i3( "eigen/integer-3", eigenCase< double, 3, 2, 0, long > );
static Register r_eig_f3( "eigen/integer-3f", eigenCase< float, 3, 0, 3, int > );
#if defined( CALIBRATE )
struct AtEnd { ~AtEnd() { std::fprintf( stderr, "worst %g %g %g %g\n", s_worst[ 0 ], s_worst[ 1 ], s_worst[ 2 ], s_worst[ 3 ] ); } } s_atEnd;
#endif
#endif
H_MAIN()
