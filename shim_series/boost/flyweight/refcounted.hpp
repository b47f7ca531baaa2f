#if defined(VF_NATIVE)
#include_next <boost/flyweight/refcounted.hpp>
#else
#ifndef VF_SHIM_FW_refcounted
#define VF_SHIM_FW_refcounted
#include <functional>
namespace boost::flyweights { struct refcounted; }
#endif
#endif
