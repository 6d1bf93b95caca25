// Run-time sizes of the operands of tensor operations in bounds-checked builds ( bounds/tensor ): each operation is
// called with operands of the expected sizes and with one operand of another size.
#include "array_util.hpp"
#include "tensorOps.hpp"
using namespace H;
namespace to = LvArray::tensorOps;
using IDX = std::ptrdiff_t;
template< typename T, int NDIM, typename PERM > using Arr = LvArray::Array< T, NDIM, PERM, IDX, LvArray::MallocBuffer >;
using P1 = camp::idx_seq< 0 >;
using P2 = camp::idx_seq< 0, 1 >;
using P2T = camp::idx_seq< 1, 0 >;

template< typename T, typename PERM > struct Sizes
{
  static constexpr int USD = LvArray::typeManipulation::getStrideOneDimension( PERM{} );
  Ctx & c;
  Arr< T, 1, P1 > v[ 3 ];
  Arr< T, 2, PERM > m[ 3 ];
  // Operand q is v[ q ] when one size is expected of it, m[ q ] when two are.
  template< typename F > void op( char const * name, std::initializer_list< std::vector< long > > expected, F && f )
  {
    if( !c.rng.chance( 60 ) ) return;
    std::vector< std::vector< long > > dims( expected );
    bool right = c.rng.chance( 25 );
    if( !right )
    {
      std::vector< long > & d = dims[ std::size_t( c.rng.range( 0, long( dims.size() ) - 1 ) ) ];
      std::vector< long > const was = d;
      switch( c.rng.below( 5 ) )
      {
        case 0: std::reverse( d.begin(), d.end() ); break;
        case 1: d[ std::size_t( c.rng.range( 0, long( d.size() ) - 1 ) ) ] -= 1; break;
        case 2: d[ std::size_t( c.rng.range( 0, long( d.size() ) - 1 ) ) ] += c.rng.range( 2, 5 ); break;
        default: d[ std::size_t( c.rng.range( 0, long( d.size() ) - 1 ) ) ] += 1; break;
      }
      right = d == was;
    }
    std::string shown = name;
    for( std::size_t q = 0; q < dims.size(); ++q )
    {
      if( dims[ q ].size() == 1 ) { v[ q ].resize( IDX( dims[ q ][ 0 ] ) ); for( IDX k = 0; k < v[ q ].size(); ++k ) v[ q ].data()[ k ] = T( c.rng.range( 1, 9 ) ); shown += " " + std::to_string( dims[ q ][ 0 ] ); }
      else { m[ q ].resize( IDX( dims[ q ][ 0 ] ), IDX( dims[ q ][ 1 ] ) ); for( IDX k = 0; k < m[ q ].size(); ++k ) m[ q ].data()[ k ] = T( c.rng.range( 1, 9 ) ); shown += " " + std::to_string( dims[ q ][ 0 ] ) + "x" + std::to_string( dims[ q ][ 1 ] ); }
    }
    c.op( "%s%s", shown.c_str(), right ? "" : " (wrong)" ); c.nontrivial = true; ++c.ops;
    if( right ) { f(); c.event( "operands of the expected sizes" ); return; }
#ifdef LVARRAY_BOUNDS_CHECK
    auto const snap = [&] { std::vector< T > s; for( std::size_t q = 0; q < dims.size(); ++q ) if( dims[ q ].size() == 1 ) s.insert( s.end(), v[ q ].data(), v[ q ].data() + v[ q ].size() ); else s.insert( s.end(), m[ q ].data(), m[ q ].data() + m[ q ].size() ); return s; };
    std::vector< T > const before = snap();
    bool const reported = reportsError( f );
    c.event( "operands of another size" );
    CHECK( c, reported, "size-not-reported", shown );
    CHECK( c, snap() == before, "changed", shown << " changed an operand before reporting it" );
#else
    c.event( "operands of another size not tried without bounds checking" );
#endif
  }
  auto V( int q ) { return v[ q ].toView(); }
  auto CV( int q ) const { return v[ q ].toViewConst(); }
  auto M( int q ) { return m[ q ].toView(); }
  auto CM( int q ) const { return m[ q ].toViewConst(); }

  // Views are kept in variables: those of temporaries cannot be sliced.
#define OP( NAME, SIZES, ... ) op( NAME, SIZES, [&] { auto const v0 = V( 0 ); auto const v1 = CV( 1 ); auto const v2 = CV( 2 ); auto const m0 = M( 0 ); auto const m1 = CM( 1 ); auto const m2 = CM( 2 ); ( void ) v0; ( void ) v1; ( void ) v2; ( void ) m0; ( void ) m1; ( void ) m2; __VA_ARGS__; } )
  template< int I, int J, int K > void generic()
  {
    using Z = std::initializer_list< std::vector< long > >; using D = std::vector< long >;
    D const i{ I }, j{ J }, ij{ I, J }, ji{ J, I }, ik{ I, K }, ki{ K, I }, kj{ K, J }, jk{ J, K }, ii{ I, I };
    T const s = T( 2 );
    OP( "maxAbsoluteEntry", Z( { i } ), to::maxAbsoluteEntry< I >( v0 ) );
    OP( "fill", Z( { i } ), to::fill< I >( v0, s ) ); OP( "fill matrix", Z( { ij } ), ( to::fill< I, J >( m0, s ) ) );
    OP( "copy", Z( { i, i } ), to::copy< I >( v0, v1 ) ); OP( "copy matrix", Z( { ij, ij } ), ( to::copy< I, J >( m0, m1 ) ) );
    OP( "scale", Z( { i } ), to::scale< I >( v0, s ) ); OP( "scale matrix", Z( { ij } ), ( to::scale< I, J >( m0, s ) ) );
    OP( "scaledCopy", Z( { i, i } ), to::scaledCopy< I >( v0, v1, s ) ); OP( "scaledCopy matrix", Z( { ij, ij } ), ( to::scaledCopy< I, J >( m0, m1, s ) ) );
    OP( "addScalar", Z( { i } ), to::addScalar< I >( v0, s ) );
    OP( "add", Z( { i, i } ), to::add< I >( v0, v1 ) ); OP( "add matrix", Z( { ij, ij } ), ( to::add< I, J >( m0, m1 ) ) );
    OP( "subtract", Z( { i, i } ), to::subtract< I >( v0, v1 ) );
    OP( "scaledAdd", Z( { i, i } ), to::scaledAdd< I >( v0, v1, s ) ); OP( "scaledAdd matrix", Z( { ij, ij } ), ( to::scaledAdd< I, J >( m0, m1, s ) ) );
    OP( "hadamardProduct", Z( { i, i, i } ), to::hadamardProduct< I >( v0, v1, v2 ) );
    OP( "l2NormSquared", Z( { i } ), to::l2NormSquared< I >( v0 ) ); OP( "l2Norm", Z( { i } ), to::l2Norm< I >( v0 ) ); OP( "normalize", Z( { i } ), to::normalize< I >( v0 ) );
    OP( "AiBi", Z( { i, i } ), to::AiBi< I >( v0, v1 ) );
    OP( "Rij_eq_AiBj", Z( { ij, i, j } ), ( to::Rij_eq_AiBj< I, J >( m0, v1, v2 ) ) ); OP( "Rij_add_AiBj", Z( { ij, i, j } ), ( to::Rij_add_AiBj< I, J >( m0, v1, v2 ) ) );
    OP( "Ri_eq_AijBj", Z( { i, ij, j } ), ( to::Ri_eq_AijBj< I, J >( v0, m1, v2 ) ) ); OP( "Ri_add_AijBj", Z( { i, ij, j } ), ( to::Ri_add_AijBj< I, J >( v0, m1, v2 ) ) );
    OP( "Ri_eq_AjiBj", Z( { i, ji, j } ), ( to::Ri_eq_AjiBj< I, J >( v0, m1, v2 ) ) ); OP( "Ri_add_AjiBj", Z( { i, ji, j } ), ( to::Ri_add_AjiBj< I, J >( v0, m1, v2 ) ) );
    OP( "transpose", Z( { ij, ji } ), ( to::transpose< I, J >( m0, m1 ) ) ); OP( "transpose in place", Z( { ii } ), to::transpose< I >( m0 ) );
    OP( "Rij_eq_AikBkj", Z( { ij, ik, kj } ), ( to::Rij_eq_AikBkj< I, J, K >( m0, m1, m2 ) ) ); OP( "Rij_add_AikBkj", Z( { ij, ik, kj } ), ( to::Rij_add_AikBkj< I, J, K >( m0, m1, m2 ) ) );
    OP( "Rij_eq_AikBjk", Z( { ij, ik, jk } ), ( to::Rij_eq_AikBjk< I, J, K >( m0, m1, m2 ) ) ); OP( "Rij_add_AikBjk", Z( { ij, ik, jk } ), ( to::Rij_add_AikBjk< I, J, K >( m0, m1, m2 ) ) );
    OP( "Rij_eq_AkiBkj", Z( { ij, ki, kj } ), ( to::Rij_eq_AkiBkj< I, J, K >( m0, m1, m2 ) ) ); OP( "Rij_add_AkiBkj", Z( { ij, ki, kj } ), ( to::Rij_add_AkiBkj< I, J, K >( m0, m1, m2 ) ) );
    OP( "Rij_add_AikAjk", Z( { ii, ij } ), ( to::Rij_add_AikAjk< I, J >( m0, m1 ) ) ); OP( "Rij_eq_AkiAkj", Z( { ii, ji } ), ( to::Rij_eq_AkiAkj< I, J >( m0, m1 ) ) );
    OP( "addIdentity", Z( { ii } ), to::addIdentity< I >( m0, s ) ); OP( "trace", Z( { ii } ), to::trace< I >( m0 ) );
  }
  template< int N > void square()
  {
    using Z = std::initializer_list< std::vector< long > >; using D = std::vector< long >;
    D const n{ N }, nn{ N, N }, y{ N * ( N + 1 ) / 2 };
    T const s = T( 2 );
    OP( "determinant", Z( { nn } ), to::determinant< N >( m0 ) );
    OP( "symDeterminant", Z( { y } ), to::symDeterminant< N >( v0 ) );
    OP( "symAddIdentity", Z( { y } ), to::symAddIdentity< N >( v0, s ) ); OP( "symTrace", Z( { y } ), to::symTrace< N >( v0 ) );
    OP( "Ri_eq_symAijBj", Z( { n, y, n } ), to::Ri_eq_symAijBj< N >( v0, v1, v2 ) ); OP( "Ri_add_symAijBj", Z( { n, y, n } ), to::Ri_add_symAijBj< N >( v0, v1, v2 ) );
    OP( "Rij_eq_symAikBjk", Z( { nn, y, nn } ), to::Rij_eq_symAikBjk< N >( m0, v1, m2 ) ); OP( "Rij_eq_AikSymBklAjl", Z( { y, nn, y } ), to::Rij_eq_AikSymBklAjl< N >( v0, m1, v2 ) );
    OP( "symRij_eq_AiAj", Z( { y, n } ), to::symRij_eq_AiAj< N >( v0, v1 ) ); OP( "symRij_eq_AiBj_plus_AjBi", Z( { y, n, n } ), to::symRij_eq_AiBj_plus_AjBi< N >( v0, v1, v2 ) );
    OP( "denseToSymmetric", Z( { y, nn } ), to::denseToSymmetric< N >( v0, m1 ) ); OP( "symmetricToDense", Z( { nn, y } ), to::symmetricToDense< N >( m0, v1 ) );
    floating< N >( std::is_floating_point< T >{}, n, nn, y );
  }
  template< int N > void floating( std::false_type, std::vector< long > const &, std::vector< long > const &, std::vector< long > const & ) {}
  template< int N > void floating( std::true_type, std::vector< long > const & n, std::vector< long > const & nn, std::vector< long > const & y )
  {
    using Z = std::initializer_list< std::vector< long > >;
    OP( "invert", Z( { nn, nn } ), to::invert< N >( m0, m1 ) ); OP( "invert in place", Z( { nn } ), to::invert< N >( m0 ) );
    OP( "symInvert", Z( { y, y } ), to::symInvert< N >( v0, v1 ) ); OP( "symInvert in place", Z( { y } ), to::symInvert< N >( v0 ) );
    OP( "symEigenvalues", Z( { n, y } ), to::symEigenvalues< N >( v0, v1 ) ); OP( "symEigenvectors", Z( { n, nn, y } ), to::symEigenvectors< N >( v0, M( 1 ), v2 ) );
  }
  static void run( Ctx & c )
  {
    Sizes s{ c, {}, {} };
    s.template generic< 2, 3, 4 >(); s.template generic< 3, 2, 3 >(); s.template generic< 1, 3, 2 >();
    s.template square< 2 >(); s.template square< 3 >();
    if( c.rng.chance( 50 ) ) { std::vector< long > const three{ 3 }; using Z = std::initializer_list< std::vector< long > >; s.op( "crossProduct", Z( { three, three, three } ), [&] { to::crossProduct( s.V( 0 ), s.CV( 1 ), s.CV( 2 ) ); } ); }
  }
};
static Register r1( "bounds/tensor-double", Sizes< double, P2 >::run, 1, false ), r2( "bounds/tensor-double-transposed", Sizes< double, P2T >::run, 1, false ), r3( "bounds/tensor-int", Sizes< int, P2 >::run, 1, false );
H_MAIN()
