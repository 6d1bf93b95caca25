// Minimal stand-in for Umpire: named allocators over malloc, in two memory spaces. "Device" memory is
// ordinary host memory that ASan-poisons itself outside device kernels (and host-managed memory is
// poisoned inside them), so that touching the wrong copy is observed.
#pragma once
#include <camp/resource.hpp>
#include <cstdlib>
#include <cstring>
#include <map>
#include <string>
#include <vector>
#include <memory>
#include <stdexcept>
#include <functional>
#if defined( __SANITIZE_ADDRESS__ )
  #define SHIM_ASAN 1
#elif defined( __has_feature )
  #if __has_feature( address_sanitizer )
    #define SHIM_ASAN 1
  #endif
#endif
#if defined( SHIM_ASAN )
  #include <sanitizer/asan_interface.h>
  #define SHIM_POISON( P, N ) __asan_poison_memory_region( P, N )
  #define SHIM_UNPOISON( P, N ) __asan_unpoison_memory_region( P, N )
#else
  #define SHIM_POISON( P, N ) ( ( void ) 0 )
  #define SHIM_UNPOISON( P, N ) ( ( void ) 0 )
#endif

namespace umpire
{
class ResourceManager;
class Allocator
{
public:
  Allocator() = default;
  Allocator( int id, std::string name, int space ): m_id( id ), m_name( std::move( name ) ), m_space( space ) {}
  int getId() const { return m_id; }
  std::string getName() const { return m_name; }
  int space() const { return m_space; }
  inline void * allocate( std::size_t n );
  inline void deallocate( void * p );
private:
  int m_id = -1;
  std::string m_name;
  int m_space = 1; // 1 host, 2 device
};

namespace strategy { struct DynamicPool {}; struct QuickPool {}; }

class ResourceManager
{
public:
  struct Block { std::size_t size; int allocator; };
  static ResourceManager & getInstance() { static ResourceManager * rm = new ResourceManager; return *rm; }
  Allocator getAllocator( std::string const & name )
  { for( auto const & a : m_allocators ) if( a.getName() == name ) return a; throw std::runtime_error( "no allocator " + name ); }
  Allocator getAllocator( char const * name ) { return getAllocator( std::string( name ) ); }
  Allocator getAllocator( int const id ) { return m_allocators.at( std::size_t( id ) ); }
  Allocator getAllocator( void * p ) { return m_allocators.at( std::size_t( find( p )->second.allocator ) ); }
  bool hasAllocator( void * p ) { return find( p ) != m_blocks.end(); }
  template< typename STRATEGY > Allocator makeAllocator( std::string const & name, Allocator const & base )
  { m_allocators.emplace_back( int( m_allocators.size() ), name, base.space() ); return m_allocators.back(); }
  void copy( void * dst, void * src, std::size_t n = 0 )
  {
    auto s = find( src ), d = find( dst );
    if( s == m_blocks.end() || d == m_blocks.end() ) throw std::runtime_error( "copy of unknown memory" );
    if( n == 0 ) n = s->second.size;
    if( left( d, dst ) < n || left( s, src ) < n ) throw std::runtime_error( "umpire copy out of range" );
    unpoisonAll();
    std::memcpy( dst, src, n );
    applyPoison();
    ++copies; if( onCopy ) onCopy( dst, src, n );
  }
  camp::resources::Event copy( void * dst, void * src, camp::resources::Resource &, std::size_t n = 0 )
  { copy( dst, src, n ); return camp::resources::Event{}; }
  void memset( void * p, int v, std::size_t n = 0 )
  {
    auto b = find( p );
    if( b == m_blocks.end() ) throw std::runtime_error( "memset of unknown memory" );
    if( n == 0 ) n = left( b, p );
    if( left( b, p ) < n ) throw std::runtime_error( "umpire memset out of range" );
    unpoisonAll(); std::memset( p, v, n ); applyPoison();
    ++memsets;
  }
  void * allocate( int id, std::size_t n )
  {
    void * p = std::malloc( n ? n : 1 );
    std::memset( p, 0xA5, n ? n : 1 );
    m_blocks[ p ] = Block{ n, id };
    ++allocations;
    applyPoison();
    return p;
  }
  void deallocate( void * p )
  {
    auto it = m_blocks.find( p );
    if( it == m_blocks.end() ) throw std::runtime_error( "umpire deallocate of unknown memory" );
    SHIM_UNPOISON( p, it->second.size );
    m_blocks.erase( it );
    std::free( p );
  }
  // Which side is executing: 1 host, 2 device.
  void setSide( int side ) { m_side = side; applyPoison(); }
  int spaceOf( void * p ) { auto it = find( p ); return it == m_blocks.end() ? 0 : m_allocators.at( std::size_t( it->second.allocator ) ).space(); }
  std::size_t liveBlocks() const { return m_blocks.size(); }
  std::size_t liveBlocks( int space ) const { std::size_t n = 0; for( auto const & b : m_blocks ) n += m_allocators[ std::size_t( b.second.allocator ) ].space() == space; return n; }
  std::size_t copies = 0, memsets = 0, allocations = 0;
  std::function< void( void const *, void const *, std::size_t ) > onCopy;
private:
  std::map< void *, Block > m_blocks;
  std::vector< Allocator > m_allocators;
  int m_side = 1;
  ResourceManager() { m_allocators.emplace_back( 0, "HOST", 1 ); m_allocators.emplace_back( 1, "DEVICE", 2 ); }
  std::map< void *, Block >::iterator find( void * p )
  {
    auto it = m_blocks.upper_bound( p );
    if( it == m_blocks.begin() ) return m_blocks.end();
    --it;
    if( static_cast< char * >( p ) < static_cast< char * >( it->first ) + ( it->second.size ? it->second.size : 1 ) ) return it;
    return m_blocks.end();
  }
  std::size_t left( std::map< void *, Block >::iterator it, void * p )
  { return it->second.size - std::size_t( static_cast< char * >( p ) - static_cast< char * >( it->first ) ); }
  void unpoisonAll() { for( auto const & b : m_blocks ) SHIM_UNPOISON( b.first, b.second.size ); }
  void applyPoison()
  {
    for( auto const & b : m_blocks )
    {
      if( m_allocators[ std::size_t( b.second.allocator ) ].space() == m_side ) SHIM_UNPOISON( b.first, b.second.size );
      else SHIM_POISON( b.first, b.second.size );
    }
  }
};
inline void * Allocator::allocate( std::size_t n ) { return ResourceManager::getInstance().allocate( m_id, n ); }
inline void Allocator::deallocate( void * p ) { ResourceManager::getInstance().deallocate( p ); }
}
