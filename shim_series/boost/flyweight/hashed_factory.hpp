#if defined(VF_NATIVE)
#include_next <boost/flyweight/hashed_factory.hpp>
#else
#ifndef VF_SHIM_FW_hashed_factory
#define VF_SHIM_FW_hashed_factory
#include <functional>
namespace boost::flyweights { template <typename...> struct hashed_factory; }
#endif
#endif
