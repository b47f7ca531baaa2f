#if defined(VF_NATIVE)
#include_next <boost/flyweight/simple_locking.hpp>
#else
#ifndef VF_SHIM_FW_simple_locking
#define VF_SHIM_FW_simple_locking
#include <functional>
namespace boost::flyweights { struct simple_locking; }
#endif
#endif
