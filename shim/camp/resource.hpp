// Minimal stand-in for camp's resources.
#pragma once
#include <camp/camp.hpp>
namespace camp { namespace resources {
enum class Platform { undefined = 0, host = 1, cuda = 2, omp_target = 4, hip = 8, sycl = 16 };
struct Event { bool check() const { return true; } void wait() const {} };
struct Host { Event get_event() { return Event{}; } Platform get_platform() { return Platform::host; } void wait() {} };
// A fake asynchronous device: everything runs on the host.
struct Cuda { Event get_event() { return Event{}; } Platform get_platform() { return Platform::cuda; } void wait() {} };
class Resource
{
public:
  Resource( Host h ): m_platform( Platform::host ), m_host( h ) {}
  Resource( Cuda ): m_platform( Platform::cuda ) {}
  template< typename R > R * try_get() { return ( std::is_same< R, Host >::value && m_platform == Platform::host ) ? reinterpret_cast< R * >( &m_host ) : nullptr; }
  Event get_event() { return Event{}; }
  Event get_event_erased() { return Event{}; }
  Platform get_platform() const { return m_platform; }
  void wait() {}
  void wait_for( Event * ) {}
private:
  Platform m_platform;
  Host m_host;
};
} }
