// Assumed contract of boost::flyweight for the verifier: an immutable shared value, equal exactly when the values are.
// (Values that are variants are not shared, so that the verifier need not compare them when they are created.)
#if defined(VF_NATIVE)
#include_next <boost/flyweight/flyweight.hpp>
#else
#ifndef VF_SHIM_FLYWEIGHT_HPP
#define VF_SHIM_FLYWEIGHT_HPP
#include <type_traits>
#include <utility>
#include <variant>
namespace boost
{
template <typename T>
struct vf_is_variant : std::false_type {
};
template <typename... T>
struct vf_is_variant<std::variant<T...>> : std::true_type {
};
template <typename T, typename...>
class flyweight
{
    struct node {
        T v;
        node *next;
    };
    static inline node *pool = nullptr;
    const node *n;
    template <typename U>
    static const node *intern(U &&v)
    {
        T t(std::forward<U>(v));
        if constexpr (vf_is_variant<T>::value) {
            return new node{std::move(t), nullptr};
        } else {
            for (node *p = pool; p != nullptr; p = p->next) {
                if (p->v == t) {
                    return p;
                }
            }
            pool = new node{std::move(t), pool};
            return pool;
        }
    }

public:
    flyweight() : n(intern(T{})) {}
    flyweight(const flyweight &) = default;
    template <typename U, std::enable_if_t<std::is_constructible_v<T, U> && !std::is_same_v<std::decay_t<U>, flyweight>, int> = 0>
    explicit flyweight(U &&v) : n(intern(std::forward<U>(v)))
    {
    }
    flyweight &operator=(const flyweight &) = default;
    flyweight &operator=(const T &v)
    {
        n = intern(v);
        return *this;
    }
    const T &get() const
    {
        return n->v;
    }
    operator const T &() const
    {
        return n->v;
    }
    void swap(flyweight &o)
    {
        std::swap(n, o.n);
    }
    friend void swap(flyweight &a, flyweight &b)
    {
        a.swap(b);
    }
    friend bool operator==(const flyweight &a, const flyweight &b)
    {
        if constexpr (vf_is_variant<T>::value) {
            return a.n == b.n || a.n->v == b.n->v;
        } else {
            return a.n == b.n;
        }
    }
    friend bool operator!=(const flyweight &a, const flyweight &b)
    {
        return !(a == b);
    }
};
} // namespace boost
#endif
#endif
