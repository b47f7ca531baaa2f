// Assumed contract of boost::unordered_flat_map for the verifier (see /verif/DESIGN.md): an unordered map with
// unique keys. Iteration order is arbitrary (two orders are used), an insertion beyond the reserved number of
// elements invalidates iterators and references, end() is a value-initialised iterator, and the user has to supply
// a hash that agrees with equality (an obligation). Native replays use boost's own header.
#if defined(VF_NATIVE)
#include_next <boost/unordered/unordered_flat_map.hpp>
#else
#ifndef VF_SHIM_UNORDERED_FLAT_MAP_HPP
#define VF_SHIM_UNORDERED_FLAT_MAP_HPP
#include <cstddef>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <stdexcept>
#include <type_traits>
#include <utility>

extern "C" void vf_check(bool, const char *);

namespace vf_umap
{
inline int order = 0;
}

namespace boost
{
namespace unordered
{
template <typename K, typename T, typename Hash = std::hash<K>, typename Pred = std::equal_to<K>, typename A = void>
class unordered_flat_map
{
public:
    using key_type = K;
    using mapped_type = T;
    using value_type = std::pair<const K, T>;
    using size_type = std::size_t;
    using difference_type = std::ptrdiff_t;
    using hasher = Hash;
    using key_equal = Pred;
    using reference = value_type &;
    using const_reference = const value_type &;

private:
    // slots[0, used): the elements (null: erased)
    value_type **slots = nullptr;
    size_type used = 0, cap = 0, live = 0;

    template <typename V>
    struct it_t {
        using iterator_category = std::forward_iterator_tag;
        using value_type = unordered_flat_map::value_type;
        using difference_type = std::ptrdiff_t;
        using reference = V &;
        using pointer = V *;
        unordered_flat_map::value_type **p = nullptr;
        long left = 0; // number of slots that remain to be visited after this one
        long step = 0;
        it_t() = default;
        template <typename U, std::enable_if_t<std::is_same_v<const U, V> && !std::is_same_v<U, V>, int> = 0>
        it_t(const it_t<U> &o) : p(o.p), left(o.left), step(o.step)
        {
        }
        void settle()
        {
            while (true) {
                if (*p != nullptr) {
                    return;
                }
                if (left == 0) {
                    p = nullptr;
                    step = 0;
                    return;
                }
                p += step;
                --left;
            }
        }
        it_t &operator++()
        {
            if (left == 0) {
                p = nullptr;
                step = 0;
            } else {
                p += step;
                --left;
                settle();
            }
            return *this;
        }
        it_t operator++(int)
        {
            auto r = *this;
            ++*this;
            return r;
        }
        reference operator*() const
        {
            return **p;
        }
        pointer operator->() const
        {
            return *p;
        }
        template <typename U>
        bool operator==(const it_t<U> &o) const
        {
            return p == o.p;
        }
        template <typename U>
        bool operator!=(const it_t<U> &o) const
        {
            return p != o.p;
        }
    };

public:
    using iterator = it_t<value_type>;
    using const_iterator = it_t<const value_type>;

private:
    template <typename I>
    I first() const
    {
        I r;
        if (live == 0) {
            return r;
        }
        r.step = vf_umap::order == 0 ? 1 : -1;
        r.p = vf_umap::order == 0 ? slots : slots + (used - 1);
        r.left = static_cast<long>(used) - 1;
        r.settle();
        return r;
    }
    template <typename I>
    I at_slot(size_type i) const
    {
        I r;
        r.p = slots + i;
        r.step = vf_umap::order == 0 ? 1 : -1;
        r.left = vf_umap::order == 0 ? static_cast<long>(used - 1 - i) : static_cast<long>(i);
        return r;
    }
    void destroy()
    {
        for (size_type i = 0; i < used; ++i) {
            delete slots[i];
        }
        delete[] slots;
        slots = nullptr;
        used = cap = live = 0;
    }
    // moves every element: iterators and references become invalid
    void regrow(size_type n)
    {
        value_type **s = new value_type *[n];
        size_type k = 0;
        try {
            for (size_type i = 0; i < used; ++i) {
                if (slots[i] != nullptr) {
                    s[k] = nullptr;
                    s[k] = new value_type(std::move(const_cast<K &>(slots[i]->first)), std::move(slots[i]->second));
                    ++k;
                }
            }
        } catch (...) {
            for (size_type i = 0; i < k; ++i) {
                delete s[i];
            }
            delete[] s;
            throw;
        }
        const size_type l = live;
        destroy();
        slots = s;
        used = live = l;
        cap = n;
    }
    template <typename KK>
    size_type lookup(const KK &k) const
    {
        for (size_type i = 0; i < used; ++i) {
            if (slots[i] != nullptr && Pred{}(slots[i]->first, k)) {
                vf_check(Hash{}(slots[i]->first) == Hash{}(k), "map contract: equal keys have equal hashes");
                return i;
            }
        }
        return used;
    }
    template <typename KK, typename... Args>
    std::pair<iterator, bool> te(KK &&k, Args &&...args)
    {
        const auto i = lookup(k);
        if (i != used) {
            return {at_slot<iterator>(i), false};
        }
        // the new element is constructed before the others are moved
        value_type *n
            = new value_type(std::piecewise_construct, std::forward_as_tuple(std::forward<KK>(k)),
                             std::forward_as_tuple(std::forward<Args>(args)...));
        try {
            if (used == cap) {
                regrow(live + 1);
            }
        } catch (...) {
            delete n;
            throw;
        }
        slots[used] = n;
        ++used;
        ++live;
        return {at_slot<iterator>(used - 1), true};
    }

public:
    unordered_flat_map() = default;
    explicit unordered_flat_map(size_type n, const Hash & = Hash{}, const Pred & = Pred{})
    {
        reserve(n);
    }
    template <typename It, typename = typename std::iterator_traits<It>::iterator_category>
    unordered_flat_map(It f, It l)
    {
        try {
            insert(f, l);
        } catch (...) {
            destroy();
            throw;
        }
    }
    unordered_flat_map(std::initializer_list<value_type> l) : unordered_flat_map(l.begin(), l.end()) {}
    unordered_flat_map(const unordered_flat_map &o)
    {
        if (o.live != 0) {
            slots = new value_type *[o.live];
            cap = o.live;
            try {
                for (const auto &v : o) {
                    slots[used] = new value_type(v);
                    ++used;
                    ++live;
                }
            } catch (...) {
                destroy();
                throw;
            }
        }
    }
    unordered_flat_map(unordered_flat_map &&o) noexcept : slots(o.slots), used(o.used), cap(o.cap), live(o.live)
    {
        o.slots = nullptr;
        o.used = o.cap = o.live = 0;
    }
    unordered_flat_map &operator=(const unordered_flat_map &o)
    {
        if (this != &o) {
            unordered_flat_map t(o);
            swap(t);
        }
        return *this;
    }
    unordered_flat_map &operator=(unordered_flat_map &&o) noexcept
    {
        if (this != &o) {
            destroy();
            swap(o);
        }
        return *this;
    }
    ~unordered_flat_map()
    {
        destroy();
    }
    void swap(unordered_flat_map &o) noexcept
    {
        std::swap(slots, o.slots);
        std::swap(used, o.used);
        std::swap(cap, o.cap);
        std::swap(live, o.live);
    }
    friend void swap(unordered_flat_map &a, unordered_flat_map &b) noexcept
    {
        a.swap(b);
    }
    iterator begin() noexcept
    {
        return first<iterator>();
    }
    const_iterator begin() const noexcept
    {
        return first<const_iterator>();
    }
    const_iterator cbegin() const noexcept
    {
        return first<const_iterator>();
    }
    iterator end() noexcept
    {
        return {};
    }
    const_iterator end() const noexcept
    {
        return {};
    }
    const_iterator cend() const noexcept
    {
        return {};
    }
    bool empty() const noexcept
    {
        return live == 0;
    }
    size_type size() const noexcept
    {
        return live;
    }
    size_type max_size() const noexcept
    {
        return static_cast<size_type>(-1) / sizeof(value_type);
    }
    // an unspecified number that is at least the number of elements
    size_type bucket_count() const noexcept
    {
        return cap;
    }
    size_type max_load() const noexcept
    {
        return cap;
    }
    void reserve(size_type n)
    {
        // the bounded sizes of the proofs never need more
        const size_type m = n < 64 ? n : 64;
        if (m > cap) {
            regrow(m);
        }
    }
    void rehash(size_type n)
    {
        regrow(n > live ? n : live);
    }
    void clear() noexcept
    {
        for (size_type i = 0; i < used; ++i) {
            delete slots[i];
            slots[i] = nullptr;
        }
        used = live = 0;
    }
    template <typename... Args>
    std::pair<iterator, bool> try_emplace(const K &k, Args &&...args)
    {
        return te(k, std::forward<Args>(args)...);
    }
    template <typename... Args>
    std::pair<iterator, bool> try_emplace(K &&k, Args &&...args)
    {
        return te(std::move(k), std::forward<Args>(args)...);
    }
    // the element is constructed first: the arguments are consumed even if the key is present
    template <typename... Args>
    std::pair<iterator, bool> emplace(Args &&...args)
    {
        std::pair<K, T> v(std::forward<Args>(args)...);
        return te(std::move(v.first), std::move(v.second));
    }
    template <typename H, typename... Args>
    iterator emplace_hint(H, Args &&...args)
    {
        return emplace(std::forward<Args>(args)...).first;
    }
    template <typename KK, typename VV>
    std::pair<iterator, bool> insert_or_assign(KK &&k, VV &&v)
    {
        const auto i = lookup(k);
        if (i != used) {
            slots[i]->second = std::forward<VV>(v);
            return {at_slot<iterator>(i), false};
        }
        return te(std::forward<KK>(k), std::forward<VV>(v));
    }
    template <typename It>
    void insert(It f, It l)
    {
        for (; f != l; ++f) {
            te(f->first, f->second);
        }
    }
    T &at(const K &k)
    {
        const auto i = lookup(k);
        if (i == used) {
            throw std::out_of_range("unordered_flat_map::at");
        }
        return slots[i]->second;
    }
    const T &at(const K &k) const
    {
        return const_cast<unordered_flat_map *>(this)->at(k);
    }
    friend bool operator==(const unordered_flat_map &a, const unordered_flat_map &b)
    {
        if (a.live != b.live) {
            return false;
        }
        for (const auto &v : a) {
            const auto it = b.find(v.first);
            if (it == b.end() || !(it->second == v.second)) {
                return false;
            }
        }
        return true;
    }
    friend bool operator!=(const unordered_flat_map &a, const unordered_flat_map &b)
    {
        return !(a == b);
    }
    template <typename P>
    friend size_type erase_if(unordered_flat_map &m, P p)
    {
        size_type n = 0;
        for (auto it = m.begin(); it != m.end();) {
            if (p(*it)) {
                it = m.erase(it);
                ++n;
            } else {
                ++it;
            }
        }
        return n;
    }
    float load_factor() const noexcept
    {
        return 0;
    }
    Hash hash_function() const
    {
        return Hash{};
    }
    Pred key_eq() const
    {
        return Pred{};
    }
    std::pair<iterator, bool> insert(const value_type &v)
    {
        return te(v.first, v.second);
    }
    std::pair<iterator, bool> insert(value_type &&v)
    {
        return te(v.first, std::move(v.second));
    }
    template <typename V>
    iterator insert(it_t<V>, const value_type &v)
    {
        return te(v.first, v.second).first;
    }
    template <typename V>
    iterator insert(it_t<V>, value_type &&v)
    {
        return te(v.first, std::move(v.second)).first;
    }
    void insert(std::initializer_list<value_type> l)
    {
        for (const auto &v : l) {
            te(v.first, v.second);
        }
    }
    T &operator[](const K &k)
    {
        return te(k).first->second;
    }
    T &operator[](K &&k)
    {
        return te(std::move(k)).first->second;
    }
    std::pair<iterator, iterator> equal_range(const K &k)
    {
        auto a = find(k);
        auto b = a;
        if (a != end()) {
            ++b;
        }
        return {a, b};
    }
    std::pair<const_iterator, const_iterator> equal_range(const K &k) const
    {
        auto a = find(k);
        auto b = a;
        if (a != end()) {
            ++b;
        }
        return {a, b};
    }
    void merge(unordered_flat_map &o)
    {
        if (this == &o) {
            return;
        }
        for (auto it = o.begin(); it != o.end();) {
            if (te(it->first, std::move(it->second)).second) {
                it = o.erase(it);
            } else {
                ++it;
            }
        }
    }
    void merge(unordered_flat_map &&o)
    {
        merge(o);
    }
    float max_load_factor() const noexcept
    {
        return 0.875f;
    }
    void max_load_factor(float) {}
    iterator find(const K &k)
    {
        const auto i = lookup(k);
        return i == used ? iterator{} : at_slot<iterator>(i);
    }
    const_iterator find(const K &k) const
    {
        const auto i = lookup(k);
        return i == used ? const_iterator{} : at_slot<const_iterator>(i);
    }
    size_type count(const K &k) const
    {
        return lookup(k) != used;
    }
    bool contains(const K &k) const
    {
        return lookup(k) != used;
    }
    template <typename V>
    iterator erase(it_t<V> it)
    {
        auto nx = it;
        value_type **q = it.p;
        ++nx;
        delete *q;
        *q = nullptr;
        --live;
        iterator r;
        r.p = nx.p;
        r.left = nx.left;
        r.step = nx.step;
        return r;
    }
    template <typename V>
    iterator erase(it_t<V> f, it_t<V> l)
    {
        while (f != l) {
            f = erase(f);
        }
        iterator r;
        r.p = f.p;
        r.left = f.left;
        r.step = f.step;
        return r;
    }
    size_type erase(const K &k)
    {
        const auto i = lookup(k);
        if (i == used) {
            return 0;
        }
        delete slots[i];
        slots[i] = nullptr;
        --live;
        return 1;
    }
};
} // namespace unordered
using unordered::unordered_flat_map;
} // namespace boost
#endif
#endif
