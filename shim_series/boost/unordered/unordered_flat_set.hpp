// Assumed contract of boost::unordered_flat_set for the verifier (see /verif/DESIGN.md). Obake uses it only to
// estimate how many distinct terms a product has, an estimate which may be anything: whether an element is new is
// therefore up to the proof (vf_uset::dup), not to the elements. Native replays use boost's own header.
#if defined(VF_NATIVE)
#include_next <boost/unordered/unordered_flat_set.hpp>
#else
#ifndef VF_SHIM_UNORDERED_FLAT_SET_HPP
#define VF_SHIM_UNORDERED_FLAT_SET_HPP
#include <cstddef>
#include <functional>
#include <utility>

namespace vf_uset
{
// every element beyond the dup-th is a duplicate
inline std::size_t dup = static_cast<std::size_t>(-1);
} // namespace vf_uset

namespace boost
{
namespace unordered
{
template <typename K, typename Hash = std::hash<K>, typename Pred = std::equal_to<K>, typename A = void>
class unordered_flat_set
{
    std::size_t n = 0;

public:
    using key_type = K;
    using value_type = K;
    using size_type = std::size_t;
    using iterator = const K *;
    unordered_flat_set() = default;
    explicit unordered_flat_set(size_type) {}
    void reserve(size_type) {}
    void rehash(size_type) {}
    std::pair<iterator, bool> insert(const K &)
    {
        const bool f = n < vf_uset::dup;
        n += f;
        return {nullptr, f};
    }
    // as a new element would be, if this one were inserted next
    bool contains(const K &) const
    {
        return n >= vf_uset::dup;
    }
    size_type count(const K &) const
    {
        return n >= vf_uset::dup;
    }
    template <typename... Args>
    std::pair<iterator, bool> emplace(Args &&...args)
    {
        return insert(K(std::forward<Args>(args)...));
    }
    size_type size() const
    {
        return n;
    }
    bool empty() const
    {
        return n == 0;
    }
    void clear()
    {
        n = 0;
    }
};
} // namespace unordered
using unordered::unordered_flat_set;
} // namespace boost
#endif
#endif
