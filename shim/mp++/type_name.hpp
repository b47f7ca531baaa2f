#ifndef MPPP_TYPE_NAME_HPP
#define MPPP_TYPE_NAME_HPP
#include <string>
#include <typeinfo>
namespace mppp
{
template <typename T>
inline ::std::string type_name()
{
    return typeid(T).name();
}
} // namespace mppp
#endif
