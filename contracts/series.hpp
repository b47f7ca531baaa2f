// Shared by the contracts of the series layer (obake/series.hpp, polynomials, power series).
// Keys and coefficients are abstract: vk::key and vk::cf satisfy exactly the documented requirements on keys and
// coefficients and nothing more is known about their values (a key is any exponent vector, possibly incompatible or
// "zero"; a coefficient is any element of the ring Z/2^64, which has zero divisors). A coefficient that has been
// moved from must not be used again, and any operation on coefficients may throw.
#ifndef VF_SERIES_HPP
#define VF_SERIES_HPP
#include <cstdint>
#include <iostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

#include <obake/series.hpp>

#include "vf.hpp"

using obake::symbol_idx_map;
using obake::symbol_idx_set;
using obake::symbol_set;
using u64 = std::uint64_t;
using u32 = std::uint32_t;

#if defined(VF_NATIVE)
namespace vf_umap
{
static int order = 0;
}
#endif

namespace vk
{
struct oops {
};
// the coefficient operation that throws: the fuse-th one from now (negative: never)
inline int fuse = -1;
inline void burn()
{
    if (fuse >= 0) {
        if (fuse == 0) {
            fuse = -1;
            throw oops{};
        }
        --fuse;
    }
}

u64 conv(u64);

// The coefficients of the input terms may be numbered (from 1); the product of two numbered coefficients is then any
// commutative operation at all.
inline u64 prods[16][16];
inline bool has_prod[16][16];
inline u64 prod(unsigned i, unsigned j)
{
    if (i > j) {
        const unsigned t = i;
        i = j;
        j = t;
    }
    if (!has_prod[i][j]) {
        prods[i][j] = vf::any<u64>();
        has_prod[i][j] = true;
    }
    return prods[i][j];
}

inline u64 quot(u64 a, u64 b)
{
    return a ^ b;
}

template <int I>
struct cf_t {
    u64 v = 0;
    unsigned id = 0;
    bool gone = false;
    cf_t() = default;
#if defined(VF_ONE)
    // the number of one: products with it are known
    static constexpr unsigned one = 15;
    explicit cf_t(int n) : v(static_cast<u64>(static_cast<std::int64_t>(n))), id(n == 1 ? one : 0) {}
#else
    explicit cf_t(int n) : v(static_cast<u64>(static_cast<std::int64_t>(n))) {}
#endif
    struct raw {
    };
    cf_t(raw, u64 x) : v(x) {}
    cf_t(raw, u64 x, unsigned i) : v(x), id(i) {}
    cf_t(const cf_t &o) : v(o.val()), id(o.id)
    {
        burn();
    }
    cf_t(cf_t &&o) noexcept : v(o.v), id(o.id), gone(o.gone)
    {
        o.gone = true;
        o.v = 0;
    }
    cf_t &operator=(const cf_t &o)
    {
        burn();
        v = o.val();
        id = o.id;
        gone = false;
        return *this;
    }
    cf_t &operator=(cf_t &&o) noexcept
    {
        if (this != &o) {
            v = o.v;
            id = o.id;
            gone = o.gone;
            o.gone = true;
            o.v = 0;
        }
        return *this;
    }
    template <int J, std::enable_if_t<J != I, int> = 0>
    explicit cf_t(const cf_t<J> &o) : v(J == 2 || I == 2 ? o.val() : vk::conv(o.val()))
    {
        burn();
    }
    template <int J, std::enable_if_t<J != I, int> = 0>
    explicit cf_t(cf_t<J> &&o) : v(J == 2 || I == 2 ? o.val() : vk::conv(o.val()))
    {
        burn();
        o.gone = true;
        o.v = 0;
    }
    u64 val() const
    {
        vf_check(!gone, "no coefficient is used after it has been moved from");
        return v;
    }
    friend cf_t &operator+=(cf_t &a, const cf_t &b)
    {
        burn();
        a.v = a.val() + b.val();
        a.id = 0;
        return a;
    }
    friend cf_t &operator-=(cf_t &a, const cf_t &b)
    {
        burn();
        a.v = a.val() - b.val();
        a.id = 0;
        return a;
    }
    friend cf_t &operator*=(cf_t &a, const cf_t &b)
    {
        burn();
        a.v = times(a, b);
        a.id = 0;
        return a;
    }
    // An opaque operation: any function of both operands would do, a quotient may vanish.
    friend cf_t &operator/=(cf_t &a, const cf_t &b)
    {
        burn();
        a.v = vk::quot(a.val(), b.val());
        a.id = 0;
        return a;
    }
    friend cf_t operator/(const cf_t &a, const cf_t &b)
    {
        burn();
        return {raw{}, vk::quot(a.val(), b.val())};
    }
    friend cf_t operator+(const cf_t &a, const cf_t &b)
    {
        burn();
        return {raw{}, a.val() + b.val()};
    }
    friend cf_t operator-(const cf_t &a, const cf_t &b)
    {
        burn();
        return {raw{}, a.val() - b.val()};
    }
    friend cf_t operator*(const cf_t &a, const cf_t &b)
    {
        burn();
#if defined(VF_ONE)
        if (a.id == one || b.id == one) {
            const cf_t &o = a.id == one ? b : a;
            a.val(), b.val();
            return {raw{}, o.v, o.id};
        }
#endif
        return {raw{}, times(a, b)};
    }
    static u64 times(const cf_t &a, const cf_t &b)
    {
        const u64 x = a.val(), y = b.val();
        return a.id != 0 && b.id != 0 ? prod(a.id, b.id) : x * y;
    }
    friend cf_t operator-(const cf_t &a)
    {
        return {raw{}, -a.val()};
    }
    friend bool operator==(const cf_t &a, const cf_t &b)
    {
        return a.val() == b.val();
    }
    friend bool operator!=(const cf_t &a, const cf_t &b)
    {
        return a.val() != b.val();
    }
    friend std::ostream &operator<<(std::ostream &os, const cf_t &)
    {
        return os;
    }
};
template <int I>
inline bool is_zero(const cf_t<I> &c)
{
    return c.val() == 0;
}
template <int I>
inline void negate(cf_t<I> &c)
{
    burn();
    c.v = -c.val();
    c.id = 0;
}
using cf = cf_t<0>;

// Another coefficient type: converting it to cf may yield zero, and the sum of the two types is a cf.
using cf2 = cf_t<1>;
inline u64 conv(u64 v)
{
    return v * 2u;
}
inline cf operator+(const cf &a, const cf2 &b)
{
    burn();
    return {cf::raw{}, a.val() + conv(b.val())};
}
inline cf operator+(const cf2 &a, const cf &b)
{
    return b + a;
}
inline cf operator-(const cf &a, const cf2 &b)
{
    burn();
    return {cf::raw{}, a.val() - conv(b.val())};
}
inline cf operator-(const cf2 &a, const cf &b)
{
    burn();
    return {cf::raw{}, conv(a.val()) - b.val()};
}
inline bool operator==(const cf &a, const cf2 &b)
{
    return a.val() == conv(b.val());
}
inline bool operator==(const cf2 &a, const cf &b)
{
    return b == a;
}

// Keys: one byte per symbol, at most three symbols; bit 31: "zero" key.
struct key {
    u32 e = 0;
    key() = default;
    explicit key(u32 x) : e(x) {}
    explicit key(const symbol_set &) {}
    friend bool operator==(const key &a, const key &b)
    {
        return a.e == b.e;
    }
    friend bool operator!=(const key &a, const key &b)
    {
        return a.e != b.e;
    }
    friend std::ostream &operator<<(std::ostream &os, const key &)
    {
        return os;
    }
};
inline u32 byte_of(const key &k, unsigned i)
{
    return k.e >> (8 * i) & 0xffu;
}
// homomorphic and not injective
inline std::size_t hash(const key &k)
{
    return static_cast<std::size_t>(byte_of(k, 0)) + (k.e >> 8 & 0xffffu) + (k.e >> 31);
}
inline bool compat(const key &k, std::size_t n)
{
    return ((k.e & 0x7fffffffu) >> (8 * n)) == 0;
}
inline bool key_is_compatible(const key &k, const symbol_set &ss)
{
    return vk::compat(k, ss.size());
}
inline bool key_is_zero(const key &k, const symbol_set &)
{
    return (k.e >> 31) != 0;
}
inline bool key_is_one(const key &k, const symbol_set &)
{
    return k.e == 0;
}
inline void key_stream_insert(std::ostream &, const key &, const symbol_set &) {}
inline key key_merge_symbols(const key &k, const symbol_idx_map<symbol_set> &m, const symbol_set &ss)
{
    vf_check(vk::compat(k, ss.size()), "keys are extended from the symbol set they belong to");
    key r;
    unsigned j = 0;
    for (unsigned i = 0; i <= ss.size(); ++i) {
        const auto it = m.find(i);
        if (it != m.end()) {
            j += static_cast<unsigned>(it->second.size());
        }
        if (i < ss.size()) {
            r.e |= byte_of(k, i) << (8 * j);
            ++j;
        }
    }
    r.e |= k.e & 0x80000000u;
    return r;
}
// the tag of a series
struct tag {
    int n = 0;
    friend bool operator==(const tag &a, const tag &b)
    {
        return a.n == b.n;
    }
    friend bool operator!=(const tag &a, const tag &b)
    {
        return a.n != b.n;
    }
};

using S = obake::series<key, cf, tag>;
using S2 = obake::series<key, cf2, tag>;

// c ? v : 0, without a branch
inline u64 sel(bool c, u64 v)
{
    return c ? v : u64(0);
}

// what a series is, mathematically: a finite map from keys to non-zero coefficients
constexpr int maxn = 4;
struct spec {
    int n = 0;
    u32 k[maxn];
    u64 c[maxn];
    // the coefficient at a key
    u64 at(u32 x) const
    {
        u64 r = 0;
        for (int i = 0; i < n; ++i) {
            r += sel(k[i] == x, c[i]);
        }
        return r;
    }
};

template <typename Ser>
inline u64 at(const Ser &s, u32 x)
{
    u64 r = 0;
    for (const auto &t : s._get_s_table()) {
        for (const auto &p : t) {
            r += sel(p.first.e == x, p.second.v);
        }
    }
    return r;
}

// The invariant of a series.
template <typename Ser>
inline void well_formed(const Ser &s)
{
    const auto &st = s._get_s_table();
    vf_check(st.size() == (std::size_t(1) << s.get_s_size()), "the number of tables matches the number of segments");
    const auto &ss = s.get_symbol_set();
    u32 seen[2 * maxn * maxn];
    int n = 0;
    for (std::size_t i = 0; i < st.size(); ++i) {
        for (const auto &p : st[i]) {
            vf_check(!p.second.gone & (p.second.v != 0), "no series contains a term with a zero coefficient");
            vf_check(vk::compat(p.first, ss.size()) & !key_is_zero(p.first, ss),
                     "every key is compatible with the symbol set and not zero");
            vf_check((hash(p.first) & (st.size() - 1)) == i, "every term is in the table of its segment");
            for (int j = 0; j < n; ++j) {
                vf_check(seen[j] != p.first.e, "no key occurs twice");
            }
            seen[n++] = p.first.e;
        }
    }
}

inline symbol_set names(unsigned mask)
{
    symbol_set r;
    for (unsigned i = 0; i < 3; ++i) {
        if (mask >> i & 1u) {
            r.insert(r.end(), std::string(1, static_cast<char>('x' + i)));
        }
    }
    return r;
}

// A series with n arbitrary terms over the symbols, in 2**l segments.
template <typename Ser>
inline spec arbitrary(Ser &s, const symbol_set &ss, unsigned l, int n)
{
    s.set_symbol_set(ss);
    s.set_n_segments(l);
    spec r;
    r.n = n;
    for (int i = 0; i < n; ++i) {
        const key k(vf::in<u32>(0, (u32(1) << (8 * ss.size())) - 1));
        for (int j = 0; j < i; ++j) {
            vf_assume(k.e != r.k[j]);
        }
        const u64 c = vf::any<u64>();
        vf_assume(c != 0);
        using C = obake::series_cf_t<Ser>;
        auto &st = s._get_s_table();
        st[hash(k) & (st.size() - 1)].try_emplace(k, C(typename C::raw{}, c));
        r.k[i] = k.e;
        r.c[i] = c;
    }
    return r;
}

// The series denotes the specified map: at every key, and in its observable size and iteration.
template <typename Ser>
inline void denotes(const Ser &s, const spec &m)
{
    well_formed(s);
    const u32 x = vf::any<u32>();
    vf_check(at(s, x) == m.at(x), "the coefficient at every key is the specified one");
}
} // namespace vk
#endif
