// Assumed contract of oneTBB, as far as obake uses it: a range is split into
// disjoint consecutive pieces covering it, the body is applied once to each
// piece in some order; in a reduction, a piece starts from the identity or from
// the result of the piece before it, and results that did not flow into the
// next piece are joined left to right. The splits and orders tried are chosen by
// vf_tbb::mode and vf_tbb::joins; preemption between the pieces is not represented (pieces of
// obake's loops share data only through the fw locks).
#ifndef VF_TBB_HPP
#define VF_TBB_HPP
#include <algorithm>
#include <cstddef>
#include <functional>
#include <iterator>
#include <type_traits>
#include <utility>

namespace vf_tbb
{
// 0: one piece; 1: halves, recursively, left to right; 2: the same, right to left;
// 3: the last element and the one before are split off, left to right
inline int mode = 1;
// bit i: at levels of splits of parity i, reductions of the halves are joined, otherwise the second one continues
// from the result of the first
inline int joins = 1;
inline int min_piece = 1;
} // namespace vf_tbb

namespace tbb
{
struct split {
};
template <typename V>
class blocked_range
{
    V b, e;
    std::size_t g;

public:
    using const_iterator = V;
    using size_type = std::size_t;
    blocked_range(V b_, V e_, std::size_t g_ = 1) : b(b_), e(e_), g(g_) {}
    const_iterator begin() const
    {
        return b;
    }
    const_iterator end() const
    {
        return e;
    }
    size_type size() const
    {
        return static_cast<size_type>(e - b);
    }
    size_type grainsize() const
    {
        return g;
    }
    bool empty() const
    {
        return !(b < e);
    }
    bool is_divisible() const
    {
        return g < size();
    }
};
class simple_partitioner
{
};
class auto_partitioner
{
};
class static_partitioner
{
};
class affinity_partitioner
{
};
namespace vf_detail
{
template <typename R>
inline bool splits(const R &r)
{
    return vf_tbb::mode != 0 && r.size() > r.grainsize() && r.size() > static_cast<std::size_t>(vf_tbb::min_piece)
           && (vf_tbb::mode != 3 || r.size() > 1u);
}
template <typename R>
inline std::pair<R, R> halves(const R &r)
{
    auto m = r.begin();
    m += static_cast<decltype(r.end() - r.begin())>(vf_tbb::mode == 3 ? r.size() - 1u : r.size() / 2u);
    return std::pair<R, R>(R(r.begin(), m, r.grainsize()), R(m, r.end(), r.grainsize()));
}
} // namespace vf_detail
template <typename R, typename B>
inline void parallel_for(const R &r, const B &body)
{
    if (r.empty()) {
        return;
    }
    if (vf_detail::splits(r)) {
        const auto h = vf_detail::halves(r);
        if (vf_tbb::mode == 2) {
            parallel_for(h.second, body);
            parallel_for(h.first, body);
        } else {
            parallel_for(h.first, body);
            parallel_for(h.second, body);
        }
        return;
    }
    body(r);
}
namespace vf_detail
{
inline bool joins(int level)
{
    return vf_tbb::mode == 2 || (vf_tbb::joins >> (level & 1) & 1) != 0;
}
// the result of the reduction of r that starts from cur
template <typename R, typename V, typename F, typename J>
inline V reduce(const R &r, const V &identity, const V &cur, const F &f, const J &join, int level)
{
    if (splits(r)) {
        const auto h = halves(r);
        if (vf_tbb::mode == 2) {
            V y = reduce(h.second, identity, identity, f, join, level + 1);
            V x = reduce(h.first, identity, cur, f, join, level + 1);
            return join(x, y);
        }
        V x = reduce(h.first, identity, cur, f, join, level + 1);
        if (joins(level)) {
            V y = reduce(h.second, identity, identity, f, join, level + 1);
            return join(x, y);
        }
        return reduce(h.second, identity, x, f, join, level + 1);
    }
    return f(r, cur);
}
template <typename R, typename B>
inline void reduce_body(const R &r, B &body, int level)
{
    if (splits(r)) {
        const auto h = halves(r);
        if (joins(level)) {
            B rhs(body, split{});
            if (vf_tbb::mode == 2) {
                reduce_body(h.second, rhs, level + 1);
                reduce_body(h.first, body, level + 1);
            } else {
                reduce_body(h.first, body, level + 1);
                reduce_body(h.second, rhs, level + 1);
            }
            body.join(rhs);
        } else {
            reduce_body(h.first, body, level + 1);
            reduce_body(h.second, body, level + 1);
        }
        return;
    }
    body(r);
}
} // namespace vf_detail
template <typename R, typename V, typename F, typename J>
inline V parallel_reduce(const R &r, const V &identity, const F &f, const J &join)
{
    return r.empty() ? identity : vf_detail::reduce(r, identity, identity, f, join, 0);
}
template <typename R, typename B,
          typename P, std::enable_if_t<std::is_empty<P>::value && !std::is_integral<R>::value, int> = 0,
          typename = decltype(std::declval<const R &>().begin())>
inline void parallel_for(const R &r, const B &body, P &&)
{
    parallel_for(r, body);
}
// a loop over [first, last)
template <typename I, typename F>
inline auto parallel_for(I first, I last, const F &f) -> decltype(f(first), void())
{
    parallel_for(blocked_range<I>(first, last), [&f](const auto &r) {
        for (auto i = r.begin(); i != r.end(); ++i) {
            f(i);
        }
    });
}
template <typename It, typename F>
inline void parallel_for_each(It first, It last, const F &f)
{
    const auto n = static_cast<std::size_t>(std::distance(first, last));
    parallel_for(blocked_range<std::size_t>(0, n), [&](const auto &r) {
        auto it = std::next(first, static_cast<std::ptrdiff_t>(r.begin()));
        for (auto i = r.begin(); i != r.end(); ++i, ++it) {
            f(*it);
        }
    });
}
template <typename C, typename F>
inline void parallel_for_each(C &&c, const F &f)
{
    parallel_for_each(std::begin(c), std::end(c), f);
}
template <typename R, typename V, typename F, typename J, typename P>
inline V parallel_reduce(const R &r, const V &identity, const F &f, const J &join, P &&)
{
    return parallel_reduce(r, identity, f, join);
}
template <typename R, typename V, typename F, typename J, typename... P>
inline V parallel_deterministic_reduce(const R &r, const V &identity, const F &f, const J &join, P &&...)
{
    return parallel_reduce(r, identity, f, join);
}
template <typename R, typename B>
inline void parallel_reduce(const R &r, B &body)
{
    if (!r.empty()) {
        vf_detail::reduce_body(r, body, 0);
    }
}
template <typename F, typename G>
inline void parallel_invoke(const F &f, const G &g)
{
    if (vf_tbb::mode == 2) {
        g();
        f();
    } else {
        f();
        g();
    }
}
template <typename F, typename G, typename H>
inline void parallel_invoke(const F &f, const G &g, const H &h)
{
    parallel_invoke(f, [&]() { parallel_invoke(g, h); });
}
template <typename F, typename G, typename H, typename K, typename... Fs>
inline void parallel_invoke(const F &f, const G &g, const H &h, const K &k, const Fs &...fs)
{
    parallel_invoke(f, [&]() { parallel_invoke(g, h, k, fs...); });
}
template <typename It, typename C>
inline void parallel_sort(It b, It e, const C &c)
{
    std::sort(b, e, c);
}
template <typename It>
inline void parallel_sort(It b, It e)
{
    std::sort(b, e);
}
} // namespace tbb
#endif
