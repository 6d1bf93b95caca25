// C29: the Python bindings, driven through an embedded interpreter.
//
// Every exposed object is compared, after every step, with a C++ twin or model: what Python sees (shape,
// strides, address, values, writability), what the C++ object holds, what calls return or raise, and what
// happens to reference counts and memory.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include "common.hpp"
#include "array_util.hpp"
#include "python/python.hpp"
#include "MallocBuffer.hpp"

using namespace H;
namespace lp = LvArray::python;

extern "C" PyObject * PyInit_pylvarray();

namespace
{
PyObject * globals = nullptr;
bool scipy = false;

[[noreturn]] void bad( char const * what ) { PyErr_Print(); std::fprintf( stderr, "harness: %s\n", what ); std::_Exit( 3 ); }

void init()
{
  if( globals != nullptr ) return;
  setenv( "OPENBLAS_NUM_THREADS", "1", 1 );
  PyPreConfig pre;
  PyPreConfig_InitIsolatedConfig( &pre );
  pre.allocator = PYMEM_ALLOCATOR_MALLOC; // so that AddressSanitizer sees every Python object
  if( PyStatus_Exception( Py_PreInitialize( &pre ) ) ) bad( "preinitialize" );
  PyImport_AppendInittab( "pylvarray", PyInit_pylvarray );
  PyConfig cfg;
  PyConfig_InitIsolatedConfig( &cfg );
  cfg.install_signal_handlers = 0;
  cfg.write_bytecode = 0;
  cfg.site_import = 0;
  PyConfig_SetString( &cfg, &cfg.program_name, L"/usr/bin/python3" );
  if( PyStatus_Exception( Py_InitializeFromConfig( &cfg ) ) ) bad( "initialize" );
  PyConfig_Clear( &cfg );
  globals = PyDict_New();
  PyDict_SetItemString( globals, "__builtins__", PyEval_GetBuiltins() );
  PyObject * r = PyRun_String( "import sys\nsys.path.append('" PYSITE "')\nimport numpy as np\nimport pylvarray\nimport gc, weakref\nclass Boom(Exception): pass\n", Py_file_input, globals, globals );
  if( r == nullptr ) bad( "importing numpy and pylvarray" );
  Py_DECREF( r );
  r = PyRun_String( "import scipy.sparse\n", Py_file_input, globals, globals );
  scipy = r != nullptr;
  Py_XDECREF( r );
  PyErr_Clear();
  r = PyRun_String( "gc.collect()\ngc.disable()\ngc.freeze()\n", Py_file_input, globals, globals );
  Py_XDECREF( r );
}

// An owned reference.
struct Ref
{
  PyObject * p = nullptr;
  Ref() = default;
  explicit Ref( PyObject * q ): p( q ) {}
  Ref( Ref && o ): p( o.p ) { o.p = nullptr; }
  Ref & operator=( Ref && o ) { if( this != &o ) { Py_XDECREF( p ); p = o.p; o.p = nullptr; } return *this; }
  ~Ref() { Py_XDECREF( p ); }
  long count() const { return long( Py_REFCNT( p ) ); }
};

struct Result { Ref v; std::string exc; bool ok() const { return v.p != nullptr; } };

struct Var { char const * name; PyObject * obj; };

// Evaluates a Python expression. Says which exception was raised, if any; SystemError means that a binding
// broke the rules of the C API.
Result eval( Ctx & ctx, std::string const & expr, std::vector< Var > const & vars, bool statement = false )
{
  Ref locals( PyDict_New() );
  for( auto const & v : vars ) PyDict_SetItemString( locals.p, v.name, v.obj );
  Result r;
  r.v = Ref( PyRun_String( expr.c_str(), statement ? Py_file_input : Py_eval_input, globals, locals.p ) );
  if( r.v.p == nullptr )
  {
    PyObject * e = PyErr_GetRaisedException();
    if( e == nullptr ) ctx.fail( "no-exception", expr + " failed without raising an exception" );
    r.exc = Py_TYPE( e )->tp_name;
    Ref s( PyObject_Str( e ) );
    std::string text = s.p && PyUnicode_Check( s.p ) ? PyUnicode_AsUTF8( s.p ) : "";
    PyErr_Clear();
    Py_DECREF( e );
    if( r.exc == "SystemError" ) ctx.fail( "api-misuse", expr + ": " + text );
    if( r.exc == "SyntaxError" || r.exc == "NameError" ) ctx.fail( "harness", expr + ": " + text );
    ctx.event( "exceptions-raised" );
  }
  else if( PyErr_Occurred() != nullptr )
  { PyErr_Clear(); ctx.fail( "stale-exception", expr + " returned a value and left an exception behind" ); }
  return r;
}
Result exec( Ctx & ctx, std::string const & text, std::vector< Var > const & vars ) { return eval( ctx, text, vars, true ); }

long asLong( Ctx & ctx, Result const & r )
{
  CHECK( ctx, r.ok(), "raised", "raised " << r.exc );
  CHECK( ctx, PyLong_Check( r.v.p ), "type", "expected an integer" );
  return PyLong_AsLong( r.v.p );
}

std::string num( long v ) { return std::to_string( v ); }

template< typename T > struct Ty;
#define TY( T, C ) template<> struct Ty< T > { static constexpr char c = C; }
TY( char, 'b' ); TY( signed char, 'b' ); TY( unsigned char, 'B' ); TY( short, 'h' ); TY( unsigned short, 'H' ); TY( int, 'i' ); TY( unsigned int, 'I' ); TY( long, 'l' ); TY( unsigned long, 'L' );
TY( long long, 'q' ); TY( unsigned long long, 'Q' ); TY( float, 'f' ); TY( double, 'd' ); TY( long double, 'g' );

// Small values that every element type represents exactly.
long smallValue( Rng & rng, bool sgn ) { return rng.range( sgn ? -60 : 0, 60 ); }
template< typename T > constexpr bool hasSign = std::is_signed< T >::value;

// A view of Python's buffer of an object.
struct Buf
{
  Py_buffer b;
  bool ok = false;
  Buf( PyObject * o ) { ok = PyObject_GetBuffer( o, &b, PyBUF_STRIDES | PyBUF_FORMAT ) == 0; if( !ok ) PyErr_Clear(); }
  ~Buf() { if( ok ) PyBuffer_Release( &b ); }
};

// Compares a NumPy view with an LvArray range.
template< typename T, int N, typename DIMS, typename STRIDES, typename AT >
void checkView( Ctx & ctx, PyObject * view, T const * data, DIMS const & dims, STRIDES const & strides, bool writable, AT && at )
{
  Buf b( view );
  CHECK( ctx, b.ok, "view", "not a buffer" );
  CHECK_EQ( ctx, b.b.ndim, N, "view-shape", "" );
  long size = 1;
  for( int i = 0; i < N; ++i ) { CHECK_EQ( ctx, long( b.b.shape[ i ] ), long( dims[ i ] ), "view-shape", "" ); size *= long( dims[ i ] ); }
  CHECK_EQ( ctx, long( b.b.itemsize ), long( sizeof( T ) ), "view-type", "" );
  char const f = b.b.format[ std::strlen( b.b.format ) - 1 ];
  CHECK( ctx, f == Ty< T >::c || ( f == 'l' && Ty< T >::c == 'q' ) || ( f == 'L' && Ty< T >::c == 'Q' ), "view-type", "format " << b.b.format );
  if( size > 0 )
  {
    CHECK( ctx, b.b.buf == static_cast< void const * >( data ), "view-address", "" );
    for( int i = 0; i < N; ++i ) if( dims[ i ] > 1 ) CHECK_EQ( ctx, long( b.b.strides[ i ] ), long( strides[ i ] ) * long( sizeof( T ) ), "view-strides", "" );
    CHECK( ctx, !b.b.readonly == writable, "view-access", "writable: " << !b.b.readonly );
    std::array< long, N > idx{};
    for( long k = 0; k < size; ++k )
    {
      char const * p = static_cast< char const * >( b.b.buf );
      for( int i = 0; i < N; ++i ) p += idx[ std::size_t( i ) ] * b.b.strides[ i ];
      T x; std::memcpy( &x, p, sizeof( T ) );
      CHECK( ctx, x == at( idx ), "view-value", "" );
      for( int i = N - 1; i >= 0; --i ) { if( ++idx[ std::size_t( i ) ] < long( dims[ i ] ) ) break; idx[ std::size_t( i ) ] = 0; }
    }
    ctx.event( "view-elements-compared", size );
  }
}

// ---------------------------------------------------------------------------------- access and arguments
struct Access { int level = 0; };

void accessOps( Ctx & ctx, PyObject * o, Access & acc, bool hasSpace )
{
  Rng & rng = ctx.rng;
  switch( rng.below( 5 ) )
  {
    case 0: CHECK_EQ( ctx, asLong( ctx, eval( ctx, "o.get_access_level()", { { "o", o } } ) ), acc.level, "access-level", "" ); break;
    case 1:
    {
      if( !hasSpace ) break;
      char const * const e[] = { "o.set_access_level(2, pylvarray.CPU + 7)", "o.set_access_level(1, 'x')", "o.set_access_level(2, 1.5)", "o.set_access_level(1, None)" };
      Result r = eval( ctx, e[ rng.below( 4 ) ], { { "o", o } } );
      CHECK( ctx, !r.ok(), "bad-accepted", "bad memory space accepted" );
      break;
    }
    case 2:
    {
      char const * const e[] = { "o.set_access_level()", "o.set_access_level('2')", "o.set_access_level(None)", "o.set_access_level(2.5)", "o.set_access_level(1, 0, 0)", "o.set_access_level(2**70)" };
      Result r = eval( ctx, e[ rng.below( 6 ) ], { { "o", o } } );
      CHECK( ctx, !r.ok(), "bad-accepted", "bad access level accepted" );
      break;
    }
    default:
    {
      int const l = rng.chance( 60 ) ? 2 : int( rng.below( 3 ) );
      char const * const names[] = { "READ_ONLY", "MODIFIABLE", "RESIZEABLE" };
      ctx.op( "set_access_level(%s)", names[ l ] );
      Result r = eval( ctx, std::string( "o.set_access_level(pylvarray." ) + names[ l ] + ( hasSpace && rng.chance( 30 ) ? ", pylvarray.CPU)" : ")" ), { { "o", o } } );
      CHECK( ctx, r.ok() && r.v.p == Py_None, "raised", r.exc );
      acc.level = l;
    }
  }
}

enum Expect { GOOD, MAYBE, BAD };
struct Arg { Ref obj; Expect expect; std::vector< long > values; std::string text; };

// A container of integral values to hand to a binding whose elements have type T. n < 0: any length.
template< typename T >
Arg makeArg( Ctx & ctx, std::vector< long > values, int badPercent )
{
  Rng & rng = ctx.rng;
  Arg a;
  a.expect = GOOD;
  std::string list = "[";
  for( std::size_t i = 0; i < values.size(); ++i ) list += ( i ? "," : "" ) + num( values[ i ] );
  list += "]";
  a.values = values;
  if( rng.chance( badPercent ) )
  {
    char const * const e[] = { "None", "'foobar'", "[[1,2],[3,4]]", "{}", "[None]", "[[1],[2,3]]", "['a','b']", "object()", "np.zeros((1,1),'%c')", "1j", "[1+2j]", "lambda: 0", "np.zeros((2,2,2),'%c')", "[[]]", "np.array(['x'])",
                               "np.zeros(3,[('a','%c')])" };
    std::string s = e[ rng.below( 16 ) ];
    std::size_t const q = s.find( "%c" );
    if( q != std::string::npos ) s.replace( q, 2, 1, Ty< T >::c );
    a.text = s; a.expect = BAD;
  }
  else if( rng.chance( 55 ) ) a.text = "np.array(" + list + ",'" + Ty< T >::c + "')";
  else if( rng.chance( 15 ) )
  {
    // not contiguous, byte swapped, read only or misaligned: taken with the right values, or refused
    std::string const c( 1, Ty< T >::c );
    std::string const n = num( long( values.size() ) );
    std::string const e[] = { "np.array(((" + list + "),(" + list + ")),'" + c + "').T.reshape(-1)[::2]", "np.array(" + list + ",'" + c + "').astype(np.dtype('" + c + "').newbyteorder())", "np.array(" + list + ",'" + c + "')[::-1][::-1]",
                              "np.frombuffer(np.array(" + list + ",'" + c + "').tobytes(),'" + c + "')", "np.array((0,)+tuple(" + list + "),'" + c + "')[1:]" };
    a.text = values.empty() ? "np.array([],'" + c + "')" : e[ rng.below( 5 ) ];
    a.expect = MAYBE;
    ( void ) n;
  }
  else
  {
    bool neg = false;
    for( long v : values ) neg = neg || v < 0;
    char const types[] = "bBhHiIlLqQfdg?";
    char c = types[ rng.below( 13 ) ];
    if( neg && ( c == 'B' || c == 'H' || c == 'I' || c == 'L' || c == 'Q' ) ) c = 'h';
    a.text = rng.chance( 30 ) ? ( rng.chance( 50 ) ? list : "tuple(" + list + ")" ) : values.size() == 1 && rng.chance( 50 ) ? "np.dtype('" + std::string( 1, c ) + "').type(" + num( values[ 0 ] ) + ")" : "np.array(" + list + ",'" + c + "')";
    if( values.empty() && a.text[ 0 ] != 'n' ) a.text = "np.array([],'" + std::string( 1, c ) + "')";
    Result r = eval( ctx, "bool(np.can_cast(np.asarray(" + a.text + ").dtype, '" + std::string( 1, Ty< T >::c ) + "'))", {} );
    a.expect = r.v.p == Py_True ? GOOD : BAD;
  }
  Result r = eval( ctx, a.text, {} );
  if( !r.ok() ) { r = eval( ctx, "None", {} ); a.text = "None"; a.expect = BAD; }
  a.obj = std::move( r.v );
  return a;
}

// Runs o.METHOD( ... ) and watches the reference counts of everything handed over.
Result call( Ctx & ctx, PyObject * o, std::string const & expr, std::vector< Arg const * > const & args = {} )
{
  std::vector< Var > vars{ { "o", o } };
  char const * const names[] = { "x", "y" };
  std::vector< long > before;
  long const self = long( Py_REFCNT( o ) );
  for( std::size_t i = 0; i < args.size(); ++i ) { vars.push_back( { names[ i ], args[ i ]->obj.p } ); before.push_back( args[ i ]->obj.count() ); }
  Result r = eval( ctx, expr, vars );
  CHECK_EQ( ctx, long( Py_REFCNT( o ) ), self, "refcount", "" );
  for( std::size_t i = 0; i < args.size(); ++i ) CHECK_EQ( ctx, args[ i ]->obj.count(), before[ i ], "refcount", "" );
  ctx.event( "binding-calls" );
  return r;
}

// What the outcome of a call has to be. Returns true if it took place.
bool judge( Ctx & ctx, Result const & r, Expect e )
{
  if( e == GOOD ) CHECK( ctx, r.ok(), "raised", "a legal call raised " << r.exc );
  if( e == BAD ) CHECK( ctx, !r.ok(), "bad-accepted", "an illegal call did not raise" );
  if( !r.ok() ) { ctx.event( "refusals" ); CHECK( ctx, r.exc == "TypeError" || r.exc == "RuntimeError" || r.exc == "ValueError" || r.exc == "IndexError" || r.exc == "OverflowError", "exception-type", r.exc ); }
  return r.ok();
}
Expect worst( Expect a, Expect b ) { return a > b ? a : b; }

std::vector< long > someValues( Rng & rng, bool sgn, long n ) { std::vector< long > v; for( long i = 0; i < n; ++i ) v.push_back( smallValue( rng, sgn ) ); return v; }

template< typename T > void checkDtype( Ctx & ctx, PyObject * o )
{
  Result r = eval( ctx, std::string( "np.dtype(o.dtype) == np.dtype('" ) + Ty< T >::c + "')", { { "o", o } } );
  CHECK( ctx, r.v.p == Py_True, "dtype", "" );
  Result w = exec( ctx, "o.dtype = 3", { { "o", o } } );
  CHECK( ctx, !w.ok(), "bad-accepted", "dtype can be replaced" );
}

// ---------------------------------------------------------------------------------- arrays
template< typename T, int N, typename PERM, typename IT > using Arr = LvArray::Array< T, N, PERM, IT, LvArray::MallocBuffer >;

template< typename A > void fill( Rng & rng, A & a, A & b )
{
  using T = std::remove_reference_t< decltype( *a.data() ) >;
  for( long i = 0; i < long( a.size() ); ++i ) { T const v = T( smallValue( rng, hasSign< T > ) ); a.data()[ i ] = v; b.data()[ i ] = v; }
}

template< typename T, int N, typename PERM, typename IT >
void compareArray( Ctx & ctx, PyObject * o, Arr< T, N, PERM, IT > & a, Arr< T, N, PERM, IT > & b, Access const & acc )
{
  for( int i = 0; i < N; ++i ) CHECK_EQ( ctx, long( a.size( i ) ), long( b.size( i ) ), "twin-shape", "" );
  for( long i = 0; i < long( a.size() ); ++i ) CHECK( ctx, a.data()[ i ] == b.data()[ i ], "twin-value", "" );
  CHECK_EQ( ctx, a.getSingleParameterResizeIndex(), b.getSingleParameterResizeIndex(), "twin-index", "" );
  CHECK_EQ( ctx, asLong( ctx, call( ctx, o, "o.get_single_parameter_resize_index()" ) ), long( b.getSingleParameterResizeIndex() ), "resize-index", "" );
  Result v = call( ctx, o, "o.to_numpy()" );
  CHECK( ctx, v.ok(), "raised", v.exc );
  checkView< T, N >( ctx, v.v.p, a.data(), b.dims(), b.strides(), acc.level >= 1, [&]( std::array< long, N > const & idx )
  { long k = 0; for( int i = 0; i < N; ++i ) k += idx[ std::size_t( i ) ] * long( b.strides()[ i ] ); return b.data()[ k ]; } );
}

template< typename T, int N, typename PERM, typename IT >
void arrayCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  Arr< T, N, PERM, IT > a, b;
  Ref obj( lp::create( a ) );
  PyObject * const o = obj.p;
  CHECK( ctx, o != nullptr, "create", "" );
  checkDtype< T >( ctx, o );
  Access acc;
  for( int step = 0; step < 25; ++step )
  {
    switch( rng.below( 9 ) )
    {
      case 0: case 1: accessOps( ctx, o, acc, true ); break;
      case 2:
      {
        long const n = rng.chance( 15 ) ? -rng.range( 1, 4 ) : rng.small( 7 );
        ctx.op( "resize(%ld)", n );
        if( judge( ctx, call( ctx, o, "o.resize(" + num( n ) + ")" ), n < 0 || acc.level < 2 ? BAD : GOOD ) ) b.resize( IT( n ) );
        break;
      }
      case 3:
      {
        std::vector< long > dims;
        long const n = rng.chance( 15 ) ? rng.range( 0, 5 ) : N;
        for( long i = 0; i < n; ++i ) dims.push_back( rng.chance( 4 ) ? -rng.range( 1, 3 ) : rng.small( 5 ) );
        bool neg = false; for( long d : dims ) neg = neg || d < 0;
        Arg x = makeArg< long long >( ctx, dims, 10 );
        ctx.op( "resize_all(%s)", x.text.c_str() );
        if( judge( ctx, call( ctx, o, "o.resize_all(x)", { &x } ), acc.level < 2 || n != N || neg ? BAD : x.expect ) )
        {
          IT d[ N ]; for( int i = 0; i < N; ++i ) d[ i ] = IT( dims[ std::size_t( i ) ] );
          b.resize( N, d );
        }
        break;
      }
      case 4:
      {
        long const i = rng.range( -2, N + 1 );
        ctx.op( "set_single_parameter_resize_index(%ld)", i );
        if( judge( ctx, call( ctx, o, "o.set_single_parameter_resize_index(" + num( i ) + ")" ), acc.level < 2 || i < 0 || i >= N ? BAD : GOOD ) ) b.setSingleParameterResizeIndex( int( i ) );
        break;
      }
      case 5:
      {
        char const * const e[] = { "o.resize()", "o.resize('3')", "o.resize(None)", "o.resize(2**80)", "o.resize(1, 2)", "o.resize_all()", "o.resize_all(1, 2)", "o.set_single_parameter_resize_index(None)", "o.set_single_parameter_resize_index()",
                                   "o.resize(1.5)", "o.nothing", "o[0]" };
        char const * const x = e[ rng.below( 12 ) ];
        ctx.op( "%s", x );
        Result r = call( ctx, o, x );
        CHECK( ctx, !r.ok(), "bad-accepted", x );
        break;
      }
      case 6: ctx.op( "C++ writes" ); if( a.size() == b.size() ) fill( rng, a, b ); break;
      case 7: case 8:
      {
        // Python writes through the view, which is refused if the access level does not allow it.
        if( b.size() == 0 ) break;
        std::string idx;
        long k = 0;
        for( int i = 0; i < N; ++i ) { long const d = rng.range( 0, long( b.size( i ) ) - 1 ); k += d * long( b.strides()[ i ] ); idx += ( i ? "," : "" ) + num( d ); }
        long const v = smallValue( rng, hasSign< T > );
        ctx.op( "to_numpy()[%s] = %ld", idx.c_str(), v );
        Result r = exec( ctx, "o.to_numpy()[" + idx + "] = " + num( v ), { { "o", o } } );
        CHECK_EQ( ctx, r.ok(), acc.level >= 1, "access-enforced", "" );
        if( r.ok() ) b.data()[ k ] = T( v );
        break;
      }
    }
    compareArray( ctx, o, a, b, acc );
  }
  Result rep = call( ctx, o, "repr(o)" );
  CHECK( ctx, rep.ok(), "raised", rep.exc );
  CHECK( ctx, LvArray::system::demangleType( a ) == PyUnicode_AsUTF8( rep.v.p ), "repr", "" );
  ctx.nontrivial = true;
}

void stringArrayCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  using A = LvArray::Array< std::string, 1, camp::idx_seq< 0 >, long, LvArray::MallocBuffer >;
  A a;
  std::vector< std::string > m;
  Ref obj( lp::create( a ) );
  PyObject * const o = obj.p;
  CHECK( ctx, o != nullptr, "create", "" );
  Access acc;
  for( int step = 0; step < 15; ++step )
  {
    switch( rng.below( 4 ) )
    {
      case 0: accessOps( ctx, o, acc, true ); break;
      case 1:
      {
        long const n = rng.small( 6 );
        ctx.op( "resize(%ld)", n );
        if( judge( ctx, call( ctx, o, "o.resize(" + num( n ) + ")" ), acc.level < 2 ? BAD : GOOD ) ) m.resize( std::size_t( n ) );
        break;
      }
      default:
        if( !m.empty() ) { std::size_t const i = rng.below( m.size() ); m[ i ] = mk< std::string >( rng.range( 1, 500 ) ); a[ long( i ) ] = m[ i ]; ctx.op( "a[%zu] = ...", i ); }
    }
    Result r = call( ctx, o, "o.to_numpy()" );
    CHECK( ctx, r.ok() && PyList_Check( r.v.p ), "raised", r.exc );
    CHECK_EQ( ctx, long( PyList_Size( r.v.p ) ), long( m.size() ), "list-size", "" );
    for( std::size_t i = 0; i < m.size(); ++i ) CHECK( ctx, m[ i ] == PyUnicode_AsUTF8( PyList_GetItem( r.v.p, Py_ssize_t( i ) ) ), "list-value", "" );
  }
  ctx.nontrivial = true;
}

// A view of the container itself as an argument. Views that cannot be written to are refused.
template< typename C >
Arg viewArg( Ctx & ctx, PyObject * o, std::string const & text, C const & values, bool writable )
{
  Arg a;
  a.text = text;
  Result r = eval( ctx, text, { { "o", o } } );
  CHECK( ctx, r.ok(), "raised", text << " raised " << r.exc );
  a.obj = std::move( r.v );
  a.expect = writable ? GOOD : MAYBE;
  for( auto const & v : values ) a.values.push_back( long( v ) );
  ctx.event( "own-views-passed" );
  return a;
}

// ---------------------------------------------------------------------------------- sorted arrays
template< typename T, typename IT >
void sortedCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  LvArray::SortedArray< T, IT, LvArray::MallocBuffer > s;
  std::set< T > m;
  Ref obj( lp::create( s ) );
  PyObject * const o = obj.p;
  CHECK( ctx, o != nullptr, "create", "" );
  checkDtype< T >( ctx, o );
  Access acc;
  for( int step = 0; step < 25; ++step )
  {
    unsigned const k = unsigned( rng.below( 8 ) );
    if( k == 0 ) accessOps( ctx, o, acc, true );
    else if( k < 6 )
    {
      bool const ins = rng.chance( 60 );
      Arg x = makeArg< T >( ctx, someValues( rng, hasSign< T >, rng.chance( 20 ) ? 1 : rng.small( 12 ) ), 10 );
      if( rng.chance( 5 ) ) x = viewArg( ctx, o, "o.to_numpy()", m, false );
      ctx.op( "%s(%s)", ins ? "insert" : "remove", x.text.c_str() );
      Result r = call( ctx, o, ins ? "o.insert(x)" : "o.remove(x)", { &x } );
      if( judge( ctx, r, acc.level < 2 ? BAD : x.expect ) )
      {
        long n = 0;
        for( long v : x.values ) n += ins ? long( m.insert( T( v ) ).second ) : long( m.erase( T( v ) ) );
        CHECK_EQ( ctx, asLong( ctx, r ), n, "count", "" );
      }
    }
    else if( k == 6 )
    {
      T const v = T( smallValue( rng, hasSign< T > ) );
      ctx.op( "C++ insert or remove" );
      if( rng.chance( 50 ) ) { s.insert( v ); m.insert( v ); } else { s.remove( v ); m.erase( v ); }
    }
    else
    {
      char const * const e[] = { "o.insert()", "o.remove()", "o.insert(1, 2)", "o.remove(o, o)", "o.insert(o)", "o[0]", "len(o)", "o.remove(o.insert)" };
      char const * const x = e[ rng.below( 8 ) ];
      ctx.op( "%s", x );
      Result r = call( ctx, o, x );
      CHECK( ctx, !r.ok(), "bad-accepted", x );
    }
    CHECK_EQ( ctx, long( s.size() ), long( m.size() ), "set-size", "" );
    { std::size_t i = 0; for( T v : m ) { CHECK( ctx, s[ IT( i ) ] == v, "set-value", "" ); ++i; } }
    Result v = call( ctx, o, "o.to_numpy()" );
    CHECK( ctx, v.ok(), "raised", v.exc );
    long const dims[] = { long( m.size() ) }, strides[] = { 1 };
    std::vector< T > flat( m.begin(), m.end() );
    checkView< T, 1 >( ctx, v.v.p, s.data(), dims, strides, false, [&]( std::array< long, 1 > const & i ) { return flat[ std::size_t( i[ 0 ] ) ]; } );
    if( !m.empty() && rng.chance( 20 ) )
    {
      Result w = exec( ctx, "o.to_numpy()[0] = 3", { { "o", o } } );
      CHECK( ctx, !w.ok(), "access-enforced", "a sorted array could be written to" );
    }
  }
  Result rep = call( ctx, o, "repr(o)" );
  CHECK( ctx, rep.ok() && LvArray::system::demangleType( s ) == PyUnicode_AsUTF8( rep.v.p ), "repr", "" );
  ctx.nontrivial = true;
}

// ---------------------------------------------------------------------------------- arrays of arrays
long const BIG = 1L << 40;

template< typename T, typename IT >
void aoaCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  LvArray::ArrayOfArrays< T, IT, LvArray::MallocBuffer > a;
  std::vector< std::vector< T > > m;
  Ref obj( lp::create( a ) );
  PyObject * const o = obj.p;
  CHECK( ctx, o != nullptr, "create", "" );
  checkDtype< T >( ctx, o );
  Access acc;
  for( int step = 0; step < 30; ++step )
  {
    long const n = long( m.size() );
    long const i = rng.chance( 6 ) ? BIG : rng.range( -1, n + ( rng.chance( 15 ) ? 2 : 0 ) );
    bool const inRange = i >= 0 && i < n;
    switch( rng.below( 11 ) )
    {
      case 0: accessOps( ctx, o, acc, false ); break;
      case 1: case 2:
      {
        Arg x = makeArg< T >( ctx, someValues( rng, hasSign< T >, rng.small( 6 ) ), 10 );
        if( n > 0 && rng.chance( 15 ) ) { long const j = rng.range( 0, n - 1 ); x = viewArg( ctx, o, "o[" + num( j ) + "]", m[ std::size_t( j ) ], acc.level >= 1 ); }
        ctx.op( "insert(%ld, %s)", i, x.text.c_str() );
        if( judge( ctx, call( ctx, o, "o.insert(" + num( i ) + ", x)", { &x } ), acc.level < 2 || i < 0 || i > n ? BAD : x.expect ) )
          m.insert( m.begin() + i, std::vector< T >( x.values.begin(), x.values.end() ) );
        break;
      }
      case 3: case 4: case 5:
      {
        Arg x = makeArg< T >( ctx, someValues( rng, hasSign< T >, rng.small( 6 ) ), 10 );
        if( n > 0 && rng.chance( 15 ) ) { long const j = rng.range( 0, n - 1 ); x = viewArg( ctx, o, "o[" + num( j ) + "]" + ( rng.chance( 30 ) ? "[0:]" : "" ), m[ std::size_t( j ) ], acc.level >= 1 ); }
        long const size = inRange ? long( m[ std::size_t( i ) ].size() ) : 0;
        long const p = rng.chance( 6 ) ? BIG : rng.range( rng.chance( 20 ) ? -1 : 0, size + ( rng.chance( 20 ) ? rng.range( 1, 2 ) : 0 ) );
        ctx.op( "insert_into(%ld, %ld, %s)", i, p, x.text.c_str() );
        if( judge( ctx, call( ctx, o, "o.insert_into(" + num( i ) + ", " + num( p ) + ", x)", { &x } ), acc.level < 2 || !inRange || p < 0 || p > size ? BAD : x.expect ) )
          m[ std::size_t( i ) ].insert( m[ std::size_t( i ) ].begin() + p, x.values.begin(), x.values.end() );
        break;
      }
      case 6:
      {
        long const size = inRange ? long( m[ std::size_t( i ) ].size() ) : 0;
        long const p = rng.chance( 6 ) ? BIG : rng.range( rng.chance( 20 ) ? -1 : 0, std::max( 0L, size - ( rng.chance( 80 ) ? 1 : 0 ) ) );
        ctx.op( "erase_from(%ld, %ld)", i, p );
        if( judge( ctx, call( ctx, o, "o.erase_from(" + num( i ) + ", " + num( p ) + ")" ), acc.level < 2 || !inRange || p < 0 || p >= size ? BAD : GOOD ) )
          m[ std::size_t( i ) ].erase( m[ std::size_t( i ) ].begin() + p );
        break;
      }
      case 7:
      {
        long const j = rng.chance( 10 ) ? BIG : rng.range( -n - 1, n );
        bool const ok = acc.level >= 2 && j >= -n && j < n;
        ctx.op( "del o[%ld]", j );
        Result r = exec( ctx, "del o[" + num( j ) + "]", { { "o", o } } );
        if( judge( ctx, r, ok ? GOOD : BAD ) ) m.erase( m.begin() + ( j < 0 ? j + n : j ) );
        break;
      }
      case 8:
      {
        char const * const e[] = { "o.insert()", "o.insert(0)", "o.insert('0', [1])", "o.insert_into(0, 0)", "o.insert_into(0, None, [1])", "o.erase_from(0)", "o.erase_from(0.5, 0)", "o['a']", "o[0:1]", "o + o", "o * 2", "2 * o", "o + [1]",
                                   "o.insert(2**70, [1])", "o[2**70]" };
        char const * const x = e[ rng.below( 15 ) ];
        ctx.op( "%s", x );
        Result r = call( ctx, o, x );
        CHECK( ctx, !r.ok(), "bad-accepted", x );
        if( n > 0 ) { Result w = exec( ctx, "o[0] = [1]", { { "o", o } } ); CHECK( ctx, !w.ok(), "bad-accepted", "item assignment" ); }
        break;
      }
      case 9:
        if( inRange )
        {
          ctx.op( "C++ emplaceBack(%ld)", i );
          T const v = T( smallValue( rng, hasSign< T > ) );
          a.emplaceBack( IT( i ), v ); m[ std::size_t( i ) ].push_back( v );
        }
        break;
      case 10:
        if( inRange && !m[ std::size_t( i ) ].empty() )
        {
          long const p = rng.range( 0, long( m[ std::size_t( i ) ].size() ) - 1 ), v = smallValue( rng, hasSign< T > );
          ctx.op( "o[%ld][%ld] = %ld", i, p, v );
          Result r = exec( ctx, "o[" + num( i ) + "][" + num( p ) + "] = " + num( v ), { { "o", o } } );
          CHECK_EQ( ctx, r.ok(), acc.level >= 1, "access-enforced", "" );
          if( r.ok() ) m[ std::size_t( i ) ][ std::size_t( p ) ] = T( v );
        }
        break;
    }
    CHECK_EQ( ctx, long( a.size() ), long( m.size() ), "sizes", "" );
    CHECK_EQ( ctx, asLong( ctx, call( ctx, o, "len(o)" ) ), long( m.size() ), "len", "" );
    bool const neg = rng.chance( 20 );
    for( std::size_t j = 0; j < m.size(); ++j )
    {
      CHECK_EQ( ctx, long( a.sizeOfArray( IT( j ) ) ), long( m[ j ].size() ), "sizes", "" );
      for( std::size_t k = 0; k < m[ j ].size(); ++k ) CHECK( ctx, a( IT( j ), IT( k ) ) == m[ j ][ k ], "values", "" );
      Result v = call( ctx, o, "o[" + num( neg ? long( j ) - long( m.size() ) : long( j ) ) + "]" );
      CHECK( ctx, v.ok(), "raised", v.exc );
      long const dims[] = { long( m[ j ].size() ) }, strides[] = { 1 };
      checkView< T, 1 >( ctx, v.v.p, m[ j ].empty() ? nullptr : &a( IT( j ), 0 ), dims, strides, acc.level >= 1, [&]( std::array< long, 1 > const & q ) { return m[ j ][ std::size_t( q[ 0 ] ) ]; } );
    }
    long const out = rng.chance( 50 ) ? long( m.size() ) + rng.range( 0, 2 ) : -long( m.size() ) - 1 - rng.range( 0, 2 );
    Result w = call( ctx, o, "o[" + num( out ) + "]" );
    CHECK( ctx, !w.ok() && w.exc == "IndexError", "bad-accepted", "o[" << out << "] " << w.exc );
    if( rng.chance( 10 ) )
    {
      Result it = call( ctx, o, "[len(x) for x in o]" );
      CHECK( ctx, it.ok() && long( PyList_Size( it.v.p ) ) == long( m.size() ), "iteration", it.exc );
    }
  }
  Result rep = call( ctx, o, "repr(o)" );
  CHECK( ctx, rep.ok() && LvArray::system::demangleType( a ) == PyUnicode_AsUTF8( rep.v.p ), "repr", "" );
  ctx.nontrivial = true;
}

// ---------------------------------------------------------------------------------- arrays of sets
template< typename T, typename IT >
void aosCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  LvArray::ArrayOfSets< T, IT, LvArray::MallocBuffer > a;
  std::vector< std::set< T > > m;
  Ref obj( lp::create( a ) );
  PyObject * const o = obj.p;
  CHECK( ctx, o != nullptr, "create", "" );
  checkDtype< T >( ctx, o );
  Access acc;
  for( int step = 0; step < 30; ++step )
  {
    long const n = long( m.size() );
    long const i = rng.chance( 6 ) ? BIG : rng.range( rng.chance( 30 ) ? -1 : 0, std::max( 0L, n - ( rng.chance( 70 ) ? 1 : 0 ) ) );
    bool const inRange = i >= 0 && i < n;
    switch( rng.below( 9 ) )
    {
      case 0: accessOps( ctx, o, acc, false ); break;
      case 1:
      {
        long const c = rng.chance( 50 ) ? -1 : rng.range( 0, 4 );
        bool const negative = rng.chance( 8 );
        long const at = rng.chance( 10 ) ? rng.range( -2, n + 2 ) : rng.range( 0, n );
        ctx.op( "insert(%ld, %ld)", at, negative ? -1L : c );
        if( judge( ctx, call( ctx, o, "o.insert(" + num( at ) + ( negative ? std::string( ", -1)" ) : c < 0 ? std::string( ")" ) : ", " + num( c ) + ")" ) ), acc.level < 2 || at < 0 || at > n || negative ? BAD : GOOD ) )
          m.insert( m.begin() + at, std::set< T >() );
        break;
      }
      case 2: case 3: case 4: case 5:
      {
        bool const ins = rng.chance( 60 );
        Arg x = makeArg< T >( ctx, someValues( rng, hasSign< T >, rng.chance( 20 ) ? 1 : rng.small( 10 ) ), 10 );
        if( n > 0 && rng.chance( 8 ) ) { long const j = rng.range( 0, n - 1 ); x = viewArg( ctx, o, "o[" + num( j ) + "]", m[ std::size_t( j ) ], false ); }
        ctx.op( "%s(%ld, %s)", ins ? "insert_into" : "erase_from", i, x.text.c_str() );
        Result r = call( ctx, o, std::string( ins ? "o.insert_into(" : "o.erase_from(" ) + num( i ) + ", x)", { &x } );
        if( judge( ctx, r, acc.level < 2 || !inRange ? BAD : x.expect ) )
        {
          long k = 0;
          for( long v : x.values ) k += ins ? long( m[ std::size_t( i ) ].insert( T( v ) ).second ) : long( m[ std::size_t( i ) ].erase( T( v ) ) );
          CHECK_EQ( ctx, asLong( ctx, r ), k, "count", "" );
        }
        break;
      }
      case 6:
      {
        if( rng.chance( 50 ) ) break;
        long const j = rng.chance( 10 ) ? BIG : rng.range( -n - 1, n );
        bool const ok = acc.level >= 2 && j >= -n && j < n;
        ctx.op( "del o[%ld]", j );
        Result r = exec( ctx, "del o[" + num( j ) + "]", { { "o", o } } );
        if( judge( ctx, r, ok ? GOOD : BAD ) ) m.erase( m.begin() + ( j < 0 ? j + n : j ) );
        break;
      }
      case 7:
      {
        char const * const e[] = { "o.insert()", "o.insert(None)", "o.insert(0, 'x')", "o.insert_into(0)", "o.insert_into(None, [1])", "o.erase_from(0)", "o.erase_from(0.5, [1])", "o['a']", "o[0:1]", "o + o", "o * 2", "o.insert(2**70)",
                                   "o.erase_from(2**70, [1])" };
        char const * const x = e[ rng.below( 13 ) ];
        ctx.op( "%s", x );
        Result r = call( ctx, o, x );
        CHECK( ctx, !r.ok(), "bad-accepted", x );
        if( n > 0 ) { Result w = exec( ctx, "o[0] = [1]", { { "o", o } } ); CHECK( ctx, !w.ok(), "bad-accepted", "item assignment" ); }
        break;
      }
      case 8:
        if( inRange )
        {
          T const v = T( smallValue( rng, hasSign< T > ) );
          ctx.op( "C++ insertIntoSet(%ld)", i );
          a.insertIntoSet( IT( i ), v ); m[ std::size_t( i ) ].insert( v );
        }
        break;
    }
    CHECK_EQ( ctx, long( a.size() ), long( m.size() ), "sizes", "" );
    CHECK_EQ( ctx, asLong( ctx, call( ctx, o, "len(o)" ) ), long( m.size() ), "len", "" );
    for( std::size_t j = 0; j < m.size(); ++j )
    {
      std::vector< T > flat( m[ j ].begin(), m[ j ].end() );
      CHECK_EQ( ctx, long( a.sizeOfSet( IT( j ) ) ), long( flat.size() ), "sizes", "" );
      for( std::size_t k = 0; k < flat.size(); ++k ) CHECK( ctx, a( IT( j ), IT( k ) ) == flat[ k ], "values", "" );
      Result v = call( ctx, o, "o[" + num( long( j ) ) + "]" );
      CHECK( ctx, v.ok(), "raised", v.exc );
      long const dims[] = { long( flat.size() ) }, strides[] = { 1 };
      checkView< T, 1 >( ctx, v.v.p, flat.empty() ? nullptr : &a( IT( j ), 0 ), dims, strides, false, [&]( std::array< long, 1 > const & q ) { return flat[ std::size_t( q[ 0 ] ) ]; } );
    }
    long const out = rng.chance( 50 ) ? long( m.size() ) + rng.range( 0, 2 ) : -long( m.size() ) - 1 - rng.range( 0, 2 );
    Result w = call( ctx, o, "o[" + num( out ) + "]" );
    CHECK( ctx, !w.ok() && w.exc == "IndexError", "bad-accepted", "o[" << out << "] " << w.exc );
  }
  Result rep = call( ctx, o, "repr(o)" );
  CHECK( ctx, rep.ok() && LvArray::system::demangleType( a ) == PyUnicode_AsUTF8( rep.v.p ), "repr", "" );
  ctx.nontrivial = true;
}

// ---------------------------------------------------------------------------------- sparse matrices
// SciPy builds caches of its own as it goes, so that only the histories without it are checked for leaks.
template< typename T, typename COL, typename IT, bool SCIPY >
void crsCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  LvArray::CRSMatrix< T, COL, IT, LvArray::MallocBuffer > a;
  std::vector< std::map< long, T > > m;
  long nc = 0;
  Ref obj( lp::create( a ) );
  PyObject * const o = obj.p;
  CHECK( ctx, o != nullptr, "create", "" );
  checkDtype< T >( ctx, o );
  Access acc;
  for( int step = 0; step < 30; ++step )
  {
    long const n = long( m.size() );
    long const i = rng.chance( 6 ) ? BIG : rng.range( rng.chance( 20 ) ? -1 : 0, std::max( 0L, n - ( rng.chance( 80 ) ? 1 : 0 ) ) );
    bool const inRange = i >= 0 && i < n;
    switch( step == 1 ? 1 : rng.below( 11 ) )
    {
      case 0: accessOps( ctx, o, acc, true ); break;
      case 1:
      {
        if( n > 0 && rng.chance( 60 ) ) break;
        long most = 0; for( auto const & row : m ) if( !row.empty() ) most = std::max( most, row.rbegin()->first + 1 );
        // shrinking keeps the entries: it is up to the caller that none is beyond the new width
        long const r = rng.range( rng.chance( 10 ) ? -1 : 0, 6 ), c = std::max( most, rng.range( rng.chance( 10 ) ? -1 : rng.chance( 10 ) ? 0 : 1, 12 ) ), cap = rng.range( rng.chance( 10 ) ? -1 : 0, 3 );
        bool const three = rng.chance( 50 );
        ctx.op( "resize(%ld, %ld, %ld)", r, c, three ? cap : 0L );
        Result res = call( ctx, o, "o.resize(" + num( r ) + ", " + num( c ) + ( three ? ", " + num( cap ) + ")" : std::string( ")" ) ) );
        if( judge( ctx, res, acc.level < 2 || r < 0 || c < 0 || ( three && cap < 0 ) ? BAD : GOOD ) )
        {
          m.resize( std::size_t( r ) );
          nc = c;
        }
        break;
      }
      case 2: case 3: case 4: case 5:
      {
        std::vector< long > cols, vals;
        long const k = rng.small( 8 );
        std::set< long > used;
        bool const outside = rng.chance( 8 );
        bool isOutside = false;
        for( long j = 0; j < k; ++j )
        {
          long c = rng.range( 0, std::max( 0L, nc - 1 ) );
          if( outside && rng.chance( 40 ) ) c = rng.chance( 50 ) && hasSign< COL > ? -rng.range( 1, 3 ) : nc + rng.range( 0, 3 );
          isOutside = isOutside || c < 0 || c >= nc;
          if( !used.insert( c ).second && rng.chance( 80 ) ) continue;
          cols.push_back( c );
        }
        long const nv = long( cols.size() ) + ( rng.chance( 8 ) ? rng.range( -1, 2 ) : 0 );
        vals = someValues( rng, hasSign< T >, std::max( 0L, nv ) );
        Arg x = makeArg< COL >( ctx, cols, 6 ), y = makeArg< T >( ctx, vals, 6 );
        if( n > 0 && rng.chance( 12 ) )
        {
          // entries ( and columns ) of a row of the very same matrix
          long const j = rng.range( 0, n - 1 );
          std::vector< long > have; std::vector< T > entries;
          for( auto const & p : m[ std::size_t( j ) ] ) { have.push_back( p.first ); entries.push_back( p.second ); }
          y = viewArg( ctx, o, "o.get_entries(" + num( j ) + ")", entries, acc.level >= 1 ); vals = y.values;
          isOutside = false;
          if( rng.chance( 40 ) ) { x = viewArg( ctx, o, "o.get_columns(" + num( j ) + ")", have, false ); cols = have; }
          else
          {
            cols.clear();
            for( std::size_t q = 0; q < vals.size(); ++q ) cols.push_back( rng.range( 0, nc - 1 ) );
            x = makeArg< COL >( ctx, cols, 3 );
          }
        }
        Expect e = worst( x.expect, y.expect );
        if( acc.level < 2 || !inRange || cols.size() != vals.size() || isOutside ) e = BAD;
        if( rng.chance( 70 ) )
        {
          // columns given twice: the first one counts, as if inserted one after the other
          ctx.op( "insert_nonzeros(%ld, %s, %s)", i, x.text.c_str(), y.text.c_str() );
          Result r = call( ctx, o, "o.insert_nonzeros(" + num( i ) + ", x, y)", { &x, &y } );
          if( judge( ctx, r, e ) )
          {
            long cnt = 0;
            for( std::size_t j = 0; j < cols.size(); ++j ) cnt += long( m[ std::size_t( i ) ].emplace( cols[ j ], T( vals[ j ] ) ).second );
            CHECK_EQ( ctx, asLong( ctx, r ), cnt, "count", "" );
          }
        }
        else
        {
          if( inRange && rng.chance( 85 ) && x.expect != BAD )
          {
            // mostly columns that are there
            std::vector< long > have; for( auto const & p : m[ std::size_t( i ) ] ) have.push_back( p.first );
            cols.clear();
            if( !have.empty() ) for( long j = 0; j < k; ++j ) cols.push_back( have[ rng.below( have.size() ) ] );
            vals = someValues( rng, hasSign< T >, long( cols.size() ) + ( rng.chance( 8 ) ? rng.range( -1, 2 ) : 0 ) );
            x = makeArg< COL >( ctx, cols, 3 ); y = makeArg< T >( ctx, vals, 3 );
          }
          bool present = inRange;
          if( inRange ) for( long c : cols ) present = present && m[ std::size_t( i ) ].count( c ) != 0;
          ctx.op( "add_to_row(%ld, %s, %s)", i, x.text.c_str(), y.text.c_str() );
          e = worst( x.expect, y.expect );
          if( acc.level < 2 || !inRange || cols.size() != vals.size() || !present ) e = BAD;
          if( judge( ctx, call( ctx, o, "o.add_to_row(" + num( i ) + ", x, y)", { &x, &y } ), e ) )
            for( std::size_t j = 0; j < cols.size(); ++j ) m[ std::size_t( i ) ][ cols[ j ] ] = T( m[ std::size_t( i ) ][ cols[ j ] ] + T( vals[ j ] ) );
        }
        break;
      }
      case 6: case 7:
      {
        std::vector< long > cols;
        long const k = rng.small( 6 );
        bool isOutside = false, outside = rng.chance( 8 );
        for( long j = 0; j < k; ++j )
        {
          long c = rng.range( 0, std::max( 0L, nc - 1 ) );
          if( outside && rng.chance( 40 ) ) c = rng.chance( 50 ) && hasSign< COL > ? -rng.range( 1, 3 ) : nc + rng.range( 0, 3 );
          isOutside = isOutside || c < 0 || c >= nc;
          cols.push_back( c );
        }
        Arg x = makeArg< COL >( ctx, cols, 8 );
        ctx.op( "remove_nonzeros(%ld, %s)", i, x.text.c_str() );
        Result r = call( ctx, o, "o.remove_nonzeros(" + num( i ) + ", x)", { &x } );
        if( judge( ctx, r, acc.level < 2 || !inRange || isOutside ? BAD : x.expect ) )
        {
          long cnt = 0;
          for( long c : cols ) cnt += long( m[ std::size_t( i ) ].erase( c ) );
          CHECK_EQ( ctx, asLong( ctx, r ), cnt, "count", "" );
        }
        break;
      }
      case 8:
        ctx.op( "compress()" );
        judge( ctx, call( ctx, o, "o.compress()" ), acc.level < 2 ? BAD : GOOD );
        break;
      case 9:
      {
        char const * const e[] = { "o.resize()", "o.resize(1)", "o.resize('1', 2)", "o.resize(1, 2, None)", "o.insert_nonzeros(0)", "o.insert_nonzeros('a', [0], [1])", "o.get_columns()", "o.get_columns('a')", "o.get_entries(None)", "o.get_entries(-1)",
                                   "o.get_columns(-1)", "o.add_to_row(0)", "o.remove_nonzeros(0)", "o.remove_nonzeros(0, 1, 2)", "o[0]", "len(o)", "o.get_entries(2**70)", "o.num_rows(1)", "o.insert_nonzeros(0, None, [1])" };
        char const * const x = e[ rng.below( 19 ) ];
        ctx.op( "%s", x );
        Result r = call( ctx, o, x );
        CHECK( ctx, !r.ok(), "bad-accepted", x );
        break;
      }
      case 10:
        if( inRange && !m[ std::size_t( i ) ].empty() )
        {
          long const p = rng.range( 0, long( m[ std::size_t( i ) ].size() ) - 1 ), v = smallValue( rng, hasSign< T > );
          ctx.op( "get_entries(%ld)[%ld] = %ld", i, p, v );
          Result r = exec( ctx, "o.get_entries(" + num( i ) + ")[" + num( p ) + "] = " + num( v ), { { "o", o } } );
          CHECK_EQ( ctx, r.ok(), acc.level >= 1, "access-enforced", "" );
          if( r.ok() ) { auto it = m[ std::size_t( i ) ].begin(); std::advance( it, p ); it->second = T( v ); }
          Result w = exec( ctx, "o.get_columns(" + num( i ) + ")[" + num( p ) + "] = 0", { { "o", o } } );
          CHECK( ctx, !w.ok(), "access-enforced", "columns could be written to" );
        }
        break;
    }
    CHECK_EQ( ctx, long( a.numRows() ), long( m.size() ), "rows", "" );
    CHECK_EQ( ctx, long( a.numColumns() ), nc, "columns", "" );
    CHECK_EQ( ctx, asLong( ctx, call( ctx, o, "o.num_rows()" ) ), long( m.size() ), "rows", "" );
    CHECK_EQ( ctx, asLong( ctx, call( ctx, o, "o.num_columns()" ) ), nc, "columns", "" );
    bool compressed = true;
    for( std::size_t j = 0; j < m.size(); ++j )
    {
      std::vector< COL > cs; std::vector< T > vs;
      for( auto const & p : m[ j ] ) { cs.push_back( COL( p.first ) ); vs.push_back( p.second ); }
      CHECK_EQ( ctx, long( a.numNonZeros( IT( j ) ) ), long( cs.size() ), "nnz", "" );
      compressed = compressed && a.numNonZeros( IT( j ) ) == a.nonZeroCapacity( IT( j ) );
      long const dims[] = { long( cs.size() ) }, strides[] = { 1 };
      Result c = call( ctx, o, "o.get_columns(" + num( long( j ) ) + ")" ), e = call( ctx, o, "o.get_entries(" + num( long( j ) ) + ")" );
      CHECK( ctx, c.ok() && e.ok(), "raised", c.exc << e.exc );
      COL const * const cp = cs.empty() ? nullptr : &a.getColumns( IT( j ) )[ 0 ];
      T const * const ep = cs.empty() ? nullptr : &a.getEntries( IT( j ) )[ 0 ];
      checkView< COL, 1 >( ctx, c.v.p, cp, dims, strides, false, [&]( std::array< long, 1 > const & q ) { return cs[ std::size_t( q[ 0 ] ) ]; } );
      checkView< T, 1 >( ctx, e.v.p, ep, dims, strides, acc.level >= 1, [&]( std::array< long, 1 > const & q ) { return vs[ std::size_t( q[ 0 ] ) ]; } );
    }
    Result w = call( ctx, o, "o.get_columns(" + num( long( m.size() ) ) + ")" );
    CHECK( ctx, !w.ok(), "bad-accepted", "get_columns past the end" );
    if( SCIPY && scipy && rng.chance( 25 ) )
    {
      Result s = call( ctx, o, "o.to_scipy()" );
      CHECK_EQ( ctx, s.ok(), compressed && !m.empty(), "to-scipy", "" );
      if( s.ok() )
      {
        Result shape = eval( ctx, "s.shape[0] * 1000 + s.shape[1]", { { "s", s.v.p } } );
        CHECK_EQ( ctx, asLong( ctx, shape ), long( m.size() ) * 1000 + nc, "to-scipy", "" );
        Result nnz = eval( ctx, "int(s.nnz)", { { "s", s.v.p } } );
        long total = 0; for( auto const & row : m ) total += long( row.size() );
        CHECK_EQ( ctx, asLong( ctx, nnz ), total, "to-scipy", "" );
        // every stored entry, in order
        Result data = eval( ctx, "[(int(r), int(c), int(v)) for r in range(s.shape[0]) for c, v in zip(s.indices[s.indptr[r]:s.indptr[r+1]], s.data[s.indptr[r]:s.indptr[r+1]])]", { { "s", s.v.p } } );
        std::string want = "[";
        for( std::size_t j = 0; j < m.size(); ++j ) for( auto const & p : m[ j ] ) want += ( want.size() > 1 ? ", (" : "(" ) + num( long( j ) ) + ", " + num( p.first ) + ", " + num( long( p.second ) ) + ")";
        want += "]";
        Result rep = eval( ctx, "repr(d)", { { "d", data.v.p } } );
        CHECK( ctx, rep.ok() && want == PyUnicode_AsUTF8( rep.v.p ), "to-scipy", want );
        if( total > 0 )
        {
          Result wr = eval( ctx, "bool(s.data.flags.writeable)", { { "s", s.v.p } } );
          CHECK_EQ( ctx, wr.v.p == Py_True, acc.level >= 1, "to-scipy-access", "" );
          Result dat = eval( ctx, "s.data", { { "s", s.v.p } } );
          Buf b( dat.v.p );
          long first = 0; while( m[ std::size_t( first ) ].empty() ) ++first;
          CHECK( ctx, b.ok && b.b.buf == static_cast< void const * >( &a.getEntries( IT( first ) )[ 0 ] ), "to-scipy-view", "the SciPy matrix is not a view" );
        }
        // the arrays the matrix was made from go with it ( s is held once here and once by the list )
        Result refs = eval( ctx, "[weakref.ref(x) for a in (s.data, s.indices, s.indptr) for x in (a, a.base) if isinstance(x, np.ndarray)]", { { "s", s.v.p } } );
        CHECK( ctx, refs.ok() && PyList_Size( refs.v.p ) >= 3, "to-scipy", "" );
        data.v = Ref(); s.v = Ref();
        Result live = eval( ctx, "(gc.collect(), sum(x() is not None for x in r))[1]", { { "r", refs.v.p } } );
        CHECK_EQ( ctx, asLong( ctx, live ), 0, "to-scipy-leak", "" );
        ctx.event( "scipy-matrices-compared" );
      }
    }
  }
  Result rep = call( ctx, o, "repr(o)" );
  CHECK( ctx, rep.ok() && LvArray::system::demangleType( a ) == PyUnicode_AsUTF8( rep.v.p ), "repr", "" );
  ctx.nontrivial = true;
}

// ---------------------------------------------------------------------------------- the rest
void scalarCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  auto const one = [&]( auto init )
  {
    using T = decltype( init );
    T x = T( smallValue( rng, hasSign< T > ) );
    Ref o( lp::create( x ) );
    long const dims[] = { 1 }, strides[] = { 1 };
    ctx.op( "create %c", Ty< T >::c );
    CHECK( ctx, o.p != nullptr, "create", "" );
    checkView< T, 1 >( ctx, o.p, &x, dims, strides, true, [&]( std::array< long, 1 > const & ) { return x; } );
    long const v = smallValue( rng, hasSign< T > );
    Result r = exec( ctx, "o[0] = " + num( v ), { { "o", o.p } } );
    CHECK( ctx, r.ok() && x == T( v ), "scalar-write", "" );
    T const c = T( 3 );
    Ref oc( lp::create( c ) );
    CHECK( ctx, oc.p != nullptr, "create", "" );
    checkView< T, 1 >( ctx, oc.p, &c, dims, strides, false, [&]( std::array< long, 1 > const & ) { return T( 3 ); } );
    Result w = exec( ctx, "o[0] = 9", { { "o", oc.p } } );
    CHECK( ctx, !w.ok() && c == T( 3 ), "access-enforced", "a constant could be written to" );
    // parseNumPyArray on its own
    Arg a = makeArg< T >( ctx, someValues( rng, hasSign< T >, rng.small( 5 ) ), 20 );
    long const before = a.obj.count();
    {
      auto t = lp::parseNumPyArray( a.obj.p, typeid( T ) );
      bool const ok = std::get< 0 >( t ).get() != nullptr;
      if( a.expect == GOOD ) CHECK( ctx, ok, "parse", a.text );
      if( a.expect == BAD ) CHECK( ctx, !ok, "parse", a.text );
      CHECK_EQ( ctx, ok, PyErr_Occurred() == nullptr, "parse-error", a.text );
      PyErr_Clear();
      if( ok )
      {
        CHECK_EQ( ctx, long( std::get< 2 >( t ) ), long( a.values.size() ), "parse-size", a.text );
        for( std::size_t i = 0; i < a.values.size(); ++i ) CHECK( ctx, static_cast< T const * >( std::get< 1 >( t ) )[ i ] == T( a.values[ i ] ), "parse-value", a.text );
      }
    }
    CHECK_EQ( ctx, a.obj.count(), before, "refcount", "" );
    // The type tables agree with NumPy.
    Ref ty( lp::getNumPyTypeObject( typeid( T ) ) );
    CHECK( ctx, ty.p != nullptr, "type-object", "" );
    Result n = eval( ctx, "np.dtype(t).num", { { "t", ty.p } } );
    int const code = int( asLong( ctx, n ) );
    Result nm = eval( ctx, std::string( "np.dtype('" ) + Ty< T >::c + "').num", {} );
    CHECK_EQ( ctx, code, asLong( ctx, nm ), "type-object", "" );
    using Back = std::conditional_t< std::is_same< T, char >::value, signed char, T >;
    CHECK( ctx, lp::getTypeIndexFromNumPy( code ) == std::type_index( typeid( Back ) ), "type-table", "" );
  };
  switch( rng.below( 14 ) )
  {
    case 0: one( char() ); break; case 1: one( ( signed char ) 0 ); break; case 2: one( ( unsigned char ) 0 ); break; case 3: one( short() ); break; case 4: one( ( unsigned short ) 0 ); break;
    case 5: one( int() ); break; case 6: one( 0u ); break; case 7: one( 0L ); break; case 8: one( 0UL ); break; case 9: one( 0LL ); break; case 10: one( 0ULL ); break; case 11: one( 0.f ); break;
    case 12: one( 0. ); break; default: one( 0.L );
  }
  // A type NumPy does not know
  bool flag = true;
  Ref nb( lp::create( flag ) );
  CHECK( ctx, nb.p == nullptr && PyErr_Occurred() != nullptr && PyErr_ExceptionMatches( PyExc_TypeError ), "unsupported-type", "" );
  PyErr_Clear();
  LvArray::Array< bool, 1, camp::idx_seq< 0 >, long, LvArray::MallocBuffer > flags( 3 );
  Ref na( lp::create( flags ) );
  CHECK( ctx, na.p == nullptr && PyErr_Occurred() != nullptr, "unsupported-type", "" );
  PyErr_Clear();
  ctx.nontrivial = true;
}

void stringCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  std::vector< std::string > v;
  long const n = rng.small( 6 );
  for( long i = 0; i < n; ++i )
  {
    std::string s;
    long const len = rng.small( 20 );
    for( long k = 0; k < len; ++k ) { char const * const parts[] = { "a", "Z", " ", "\n", "\xc3\xa9", "\xe2\x82\xac", "0", "%", "\\", "\xf0\x9f\x98\x80" }; s += parts[ rng.below( 10 ) ]; }
    if( rng.chance( 10 ) ) s.insert( s.size() / 2 > 0 ? 0 : 0, 1, '\0' );
    v.push_back( s );
  }
  ctx.op( "%ld strings", n );
  auto const same = [&]( PyObject * o, std::string const & s )
  {
    Py_ssize_t len = 0;
    char const * const p = PyUnicode_Check( o ) ? PyUnicode_AsUTF8AndSize( o, &len ) : nullptr;
    return p != nullptr && std::string( p, std::size_t( len ) ) == s;
  };
  Ref l( lp::create( v ) );
  CHECK( ctx, l.p != nullptr && PyList_Check( l.p ) && long( PyList_Size( l.p ) ) == n, "string-list", "" );
  for( long i = 0; i < n; ++i ) CHECK( ctx, same( PyList_GetItem( l.p, i ), v[ std::size_t( i ) ] ), "string-list", "" );
  for( auto const & s : v ) { Ref o( lp::create( s ) ); CHECK( ctx, o.p != nullptr && same( o.p, s ), "string", "" ); }
  // Not UTF-8: an exception, and nothing half made
  std::vector< std::string > w = v;
  w.insert( w.begin() + long( rng.below( w.size() + 1 ) ), "ab\xff\xfe" );
  Ref bl( lp::create( w ) );
  CHECK( ctx, bl.p == nullptr && PyErr_Occurred() != nullptr, "bad-string", "" );
  PyErr_Clear();
  ctx.nontrivial = true;
}

void refCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  using R = lp::PyObjectRef<>;
  std::vector< Ref > objs;
  for( int i = 0; i < 3; ++i ) objs.emplace_back( PyList_New( 0 ) );
  std::vector< std::unique_ptr< R > > refs( 5 );
  std::vector< int > m( 5, -1 ); // which object each reference holds
  for( auto & r : refs ) r = std::make_unique< R >();
  for( int step = 0; step < 30; ++step )
  {
    std::size_t const i = rng.below( 5 ), j = rng.below( 5 ), k = rng.below( 3 );
    switch( rng.below( 9 ) )
    {
      case 0: ctx.op( "%zu = new reference to %zu", i, k ); Py_INCREF( objs[ k ].p ); *refs[ i ] = objs[ k ].p; m[ i ] = int( k ); break;
      case 1: ctx.op( "%zu = %zu", i, j ); *refs[ i ] = *refs[ j ]; m[ i ] = m[ j ]; break;
      case 2: ctx.op( "%zu = move(%zu)", i, j ); *refs[ i ] = std::move( *refs[ j ] ); if( i != j ) { m[ i ] = m[ j ]; m[ j ] = -1; } break;
      case 3: ctx.op( "%zu copied from %zu", i, j ); if( i != j ) { refs[ i ] = std::make_unique< R >( *refs[ j ] ); m[ i ] = m[ j ]; } break;
      case 4: ctx.op( "%zu moved from %zu", i, j ); if( i != j ) { refs[ i ] = std::make_unique< R >( std::move( *refs[ j ] ) ); m[ i ] = m[ j ]; m[ j ] = -1; } break;
      case 5: ctx.op( "%zu destroyed", i ); refs[ i ] = std::make_unique< R >(); m[ i ] = -1; break;
      case 6: ctx.op( "%zu released", i ); { PyObject * p = refs[ i ]->release(); CHECK( ctx, p == ( m[ i ] < 0 ? nullptr : objs[ std::size_t( m[ i ] ) ].p ), "release", "" ); Py_XDECREF( p ); m[ i ] = -1; } break;
      case 7: ctx.op( "%zu constructed on %zu", i, k ); Py_INCREF( objs[ k ].p ); refs[ i ] = std::make_unique< R >( objs[ k ].p ); m[ i ] = int( k ); break;
      case 8: ctx.op( "%zu = null", i ); *refs[ i ] = static_cast< PyObject * >( nullptr ); m[ i ] = -1; break;
    }
    for( std::size_t q = 0; q < 5; ++q )
      CHECK( ctx, refs[ q ]->get() == ( m[ q ] < 0 ? nullptr : objs[ std::size_t( m[ q ] ) ].p ) && *refs[ q ]->getAddress() == refs[ q ]->get(), "ref-target", "" );
    for( std::size_t q = 0; q < 3; ++q ) CHECK_EQ( ctx, objs[ q ].count(), 1 + long( std::count( m.begin(), m.end(), int( q ) ) ), "refcount", "" );
  }
  ctx.nontrivial = true;
}

// Objects that Python code made itself are not attached to anything.
void detachedCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  char const * const types[] = { "Array", "SortedArray", "ArrayOfArrays", "ArrayOfSets", "CRSMatrix" };
  char const * const uses[] = { "repr(o)", "o.dtype", "o.get_access_level()", "o.set_access_level(2)", "o.resize(1)", "o.resize_all([1])", "o.to_numpy()", "o.set_single_parameter_resize_index(0)", "o.get_single_parameter_resize_index()",
                                "o.insert([1])", "o.insert(0)", "o.insert(0, [1])", "o.insert_into(0, [1])", "o.insert_into(0, 0, [1])", "o.erase_from(0, 0)", "o.erase_from(0, [1])", "o.remove([1])", "len(o)", "o[0]", "o[-1]", "[x for x in o]",
                                "o.num_rows()", "o.num_columns()", "o.get_columns(0)", "o.get_entries(0)", "o.to_scipy()", "o.resize(1, 1)", "o.compress()", "o.insert_nonzeros(0, [0], [1])", "o.remove_nonzeros(0, [0])", "o.add_to_row(0, [0], [1])",
                                "o.insert()", "o.erase_from()" };
  for( int k = 0; k < 12; ++k )
  {
    char const * const t = types[ rng.below( 5 ) ];
    Result o = eval( ctx, std::string( "pylvarray." ) + t + "()", {} );
    if( !o.ok() ) { ctx.event( "construction-refused" ); continue; }
    char const * const u = uses[ rng.below( sizeof( uses ) / sizeof( uses[ 0 ] ) ) ];
    ctx.op( "%s(): %s", t, u );
    Result r = eval( ctx, u, { { "o", o.v.p } } );
    CHECK( ctx, !r.ok(), "bad-accepted", u );
    if( rng.chance( 30 ) )
    {
      ctx.op( "%s(): del o[0]", t );
      Result d = exec( ctx, "del o[0]", { { "o", o.v.p } } );
      CHECK( ctx, !d.ok(), "bad-accepted", "del" );
    }
  }
  ctx.nontrivial = true;
}

// Python functions called from C++.
void functionCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  using A = Arr< double, 1, camp::idx_seq< 0 >, long >;
  A a;
  long const n = rng.range( 1, 6 );
  a.resize( n );
  std::vector< double > m;
  for( long i = 0; i < n; ++i ) { a[ i ] = double( rng.range( -9, 9 ) ); m.push_back( a[ i ] ); }
  int const kind = int( rng.below( 5 ) );
  char const * const src[] = { "lambda o, s, k: (o.set_access_level(pylvarray.MODIFIABLE), o.to_numpy().__imul__(2), out.append((s, int(k[0]))))", "lambda o, s, k: 1 // 0", "lambda o, s: 0", "lambda o, s, k: out.append(o.to_numpy().tolist())",
                               "lambda o, s, k: o.to_numpy().__setitem__(0, 5)" };
  Ref out( PyList_New( 0 ) );
  Ref loc( PyDict_New() );
  PyDict_SetItemString( globals, "out", out.p );
  Result f = eval( ctx, src[ kind ], {} );
  CHECK( ctx, f.ok(), "harness", f.exc );
  long const before = f.v.count();
  {
    lp::PythonFunction< A &, std::string const &, int > fn( f.v.p );
    CHECK_EQ( ctx, f.v.count(), before + 1, "refcount", "" );
    auto copy = std::make_unique< lp::PythonFunction< A &, std::string const &, int > >( fn );
    CHECK_EQ( ctx, f.v.count(), before + 2, "refcount", "" );
    int const times = int( rng.range( 1, 3 ) );
    for( int t = 0; t < times; ++t )
    {
      std::string const s = "word" + num( rng.range( 0, 99 ) );
      int const k = int( rng.range( -50, 50 ) );
      ctx.op( "call %d with %s %d", kind, s.c_str(), k );
      bool threw = false;
      try { if( rng.chance( 50 ) ) fn( a, s, k ); else ( *copy )( a, s, k ); }
      catch( lp::PythonError const & ) { threw = true; }
      bool const pending = PyErr_Occurred() != nullptr;
      char const * const want[] = { "", "ZeroDivisionError", "TypeError", "", "ValueError" };
      if( pending )
      {
        PyObject * e = PyErr_GetRaisedException();
        CHECK( ctx, std::string( Py_TYPE( e )->tp_name ) == want[ kind ], "callback-exception", Py_TYPE( e )->tp_name );
        Py_DECREF( e );
      }
      CHECK_EQ( ctx, threw, want[ kind ][ 0 ] != 0, "callback-exception", "" );
      CHECK_EQ( ctx, pending, threw, "callback-exception", "" );
      if( kind == 0 )
      {
        for( auto & x : m ) x *= 2;
        PyObject * last = PyList_GetItem( out.p, PyList_Size( out.p ) - 1 );
        CHECK( ctx, s == PyUnicode_AsUTF8( PyTuple_GetItem( last, 0 ) ) && PyLong_AsLong( PyTuple_GetItem( last, 1 ) ) == k, "callback-arguments", "" );
      }
      if( kind == 3 ) CHECK_EQ( ctx, long( PyList_Size( PyList_GetItem( out.p, PyList_Size( out.p ) - 1 ) ) ), n, "callback-arguments", "" );
      for( long i = 0; i < n; ++i ) CHECK( ctx, a[ i ] == m[ std::size_t( i ) ], "callback-effect", "" );
      ctx.event( "callbacks" );
    }
    copy.reset();
    CHECK_EQ( ctx, f.v.count(), before + 1, "refcount", "" );
  }
  CHECK_EQ( ctx, f.v.count(), before, "refcount", "" );
  PyDict_DelItemString( globals, "out" );
  ctx.nontrivial = true;
}

void moduleCase( Ctx & ctx )
{
  Rng & rng = ctx.rng;
  Result c = eval( ctx, "pylvarray.READ_ONLY == 0 and pylvarray.MODIFIABLE == 1 and pylvarray.RESIZEABLE == 2", {} );
  CHECK( ctx, c.v.p == Py_True, "constants", "" );
  Ref mod( PyImport_ImportModule( "pylvarray" ) );
  long const before = mod.count();
  {
    std::vector< Ref > hosts;
    int const n = int( rng.range( 1, 4 ) );
    for( int i = 0; i < n; ++i )
    {
      hosts.emplace_back( PyModule_New( "host" ) );
      ctx.op( "addPyLvArrayModule" );
      CHECK( ctx, lp::addPyLvArrayModule( hosts.back().p ) && PyErr_Occurred() == nullptr, "add-module", "" );
      CHECK_EQ( ctx, mod.count(), before + i + 1, "refcount", "" );
      Result r = eval( ctx, "h.pylvarray is pylvarray", { { "h", hosts.back().p } } );
      CHECK( ctx, r.v.p == Py_True, "add-module", "" );
    }
  }
  CHECK_EQ( ctx, mod.count(), before, "refcount", "" );
  // Not a module: refused
  Ref list( PyList_New( 0 ) );
  ctx.op( "addPyLvArrayModule(list)" );
  CHECK( ctx, !lp::addPyLvArrayModule( list.p ) && PyErr_Occurred() != nullptr, "add-module", "" );
  PyErr_Clear();
  CHECK_EQ( ctx, mod.count(), before, "refcount", "" );
  // The wrong type of object is not converted.
  LvArray::SortedArray< int, long, LvArray::MallocBuffer > s;
  Ref so( lp::create( s ) );
  CHECK( ctx, lp::convert< PyObject >( so.p, lp::getPySortedArrayType() ) == so.p && PyErr_Occurred() == nullptr, "convert", "" );
  CHECK( ctx, lp::convert< PyObject >( so.p, lp::getPyArrayType() ) == nullptr && PyErr_Occurred() != nullptr, "convert", "" );
  PyErr_Clear();
  CHECK( ctx, lp::convert< PyObject >( nullptr, lp::getPyArrayType() ) == nullptr && PyErr_Occurred() != nullptr, "convert", "" );
  PyErr_Clear();
  ctx.nontrivial = true;
}

using P1 = camp::idx_seq< 0 >;
using P2 = camp::idx_seq< 0, 1 >;
using P2T = camp::idx_seq< 1, 0 >;
using P3 = camp::idx_seq< 2, 0, 1 >;
using P4 = camp::idx_seq< 3, 1, 0, 2 >;

// An LvArray error leaves the interpreter in the middle of a call: nothing can run in it any more.
void reg( std::string const & name, void ( *f )( Ctx & ), int weight, bool leak = true )
{ Register( name, [f]( Ctx & ctx ) { if( G().errorsSeen > 0 ) return; init(); f( ctx ); }, weight, leak ); }
template< typename T, int N, typename PERM, typename IT > void regArray( char const * name ) { reg( std::string( "py/array/" ) + name, arrayCase< T, N, PERM, IT >, 2 ); }

struct All
{
  All()
  {
    regArray< int, 1, P1, long >( "int1" );
    regArray< double, 2, P2, int >( "double2" );
    regArray< float, 2, P2T, long >( "float2t" );
    regArray< long, 3, P3, int >( "long3" );
    regArray< short, 4, P4, long >( "short4" );
    regArray< unsigned char, 1, P1, int >( "uchar1" );
    regArray< long double, 2, P2T, int >( "ldouble2t" );
    reg( "py/array/string", stringArrayCase, 1 );
    reg( "py/set/int", sortedCase< int, long >, 3 );
    reg( "py/set/long", sortedCase< long, int >, 3 );
    reg( "py/set/double", sortedCase< double, long >, 2 );
    reg( "py/aoa/double", aoaCase< double, long >, 4 );
    reg( "py/aoa/int", aoaCase< int, int >, 4 );
    reg( "py/aoa/ushort", aoaCase< unsigned short, long >, 2 );
    reg( "py/aos/long", aosCase< long, int >, 4 );
    reg( "py/aos/short", aosCase< short, long >, 4 );
    reg( "py/crs/double-int", crsCase< double, int, int, false >, 4 );
    reg( "py/scipy/double-int", crsCase< double, int, int, true >, 1, false );
    reg( "py/scipy/int-long", crsCase< int, long, long, true >, 1, false );
    reg( "py/crs/int-long", crsCase< int, long, long, false >, 4 );
    reg( "py/crs/float-uint", crsCase< float, unsigned int, long, false >, 3 );
    reg( "py/scalar", scalarCase, 3 );
    reg( "py/string", stringCase, 1 );
    reg( "py/ref", refCase, 2 );
    reg( "py/detached", detachedCase, 3 );
    reg( "py/function", functionCase, 2 );
    reg( "py/module", moduleCase, 1 );
  }
} all;
}

H_MAIN()
