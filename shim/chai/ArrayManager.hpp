// Minimal stand-in for CHAI's ArrayManager, following the semantics of CHAI 2.x: a move copies the data
// only if the space it was last used in was touched since the last copy.
#pragma once
#include <umpire/ResourceManager.hpp>
#include <functional>
#include <cstddef>
namespace chai
{
enum ExecutionSpace { NONE = 0, CPU, GPU, NUM_EXECUTION_SPACES };
enum Action { ACTION_ALLOC, ACTION_FREE, ACTION_MOVE, ACTION_CAPTURED, ACTION_FOUND_ABANDONED, ACTION_LEAKED };
struct PointerRecord;
using UserCallback = std::function< void( PointerRecord const *, Action, ExecutionSpace ) >;
struct PointerRecord
{
  std::size_t m_size = 0;
  void * m_pointers[ NUM_EXECUTION_SPACES ] = { nullptr, nullptr, nullptr };
  bool m_touched[ NUM_EXECUTION_SPACES ] = { false, false, false };
  ExecutionSpace m_last_space = NONE;
  bool m_owned[ NUM_EXECUTION_SPACES ] = { true, true, true };
  int m_allocators[ NUM_EXECUTION_SPACES ] = { 0, 0, 0 };
  UserCallback m_user_callback = []( PointerRecord const *, Action, ExecutionSpace ) {};
  PointerRecord() { ++liveRecords(); }
  ~PointerRecord() { --liveRecords(); }
  PointerRecord( PointerRecord const & ) = delete;
  static long & liveRecords() { static long n = 0; return n; }
};
class ArrayManager
{
public:
  static ArrayManager * getInstance() { static ArrayManager * a = new ArrayManager; return a; }
  int getAllocatorId( ExecutionSpace s ) const { return s == GPU ? 1 : 0; }
  void setExecutionSpace( ExecutionSpace s ) { m_current = s; }
  ExecutionSpace getExecutionSpace() const { return m_current; }
  void allocate( PointerRecord * r, ExecutionSpace s )
  {
    r->m_pointers[ s ] = umpire::ResourceManager::getInstance().getAllocator( r->m_allocators[ s ] ).allocate( r->m_size );
    r->m_user_callback( r, ACTION_ALLOC, s );
  }
  void free( PointerRecord * r )
  {
    if( !r ) return;
    for( int s = CPU; s < NUM_EXECUTION_SPACES; ++s )
      if( r->m_pointers[ s ] )
      {
        r->m_user_callback( r, ACTION_FREE, ExecutionSpace( s ) );
        umpire::ResourceManager::getInstance().getAllocator( r->m_allocators[ s ] ).deallocate( r->m_pointers[ s ] );
      }
    delete r;
  }
  void * move( void * pointer, PointerRecord * r, ExecutionSpace s )
  {
    if( s == NONE ) s = m_current;
    if( s == NONE ) return pointer;
    move( r, s );
    return r->m_pointers[ s ];
  }
private:
  ExecutionSpace m_current = NONE;
  void move( PointerRecord * r, ExecutionSpace s )
  {
    if( s == r->m_last_space ) return;
    void * src = r->m_pointers[ r->m_last_space ];
    if( !r->m_pointers[ s ] ) allocate( r, s );
    void * dst = r->m_pointers[ s ];
    if( !r->m_touched[ r->m_last_space ] || !src ) return;
    if( dst != src )
    {
      umpire::ResourceManager::getInstance().copy( dst, src );
      r->m_user_callback( r, ACTION_MOVE, s );
    }
    for( int i = CPU; i < NUM_EXECUTION_SPACES; ++i ) r->m_touched[ i ] = false;
  }
};
}
