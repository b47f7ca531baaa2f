// Shared by the contracts of polynomials and power series: an abstract monomial type satisfying the documented
// requirements on monomials (exponents over at most three symbols, homomorphic and non-injective hash).
#ifndef VF_POLY_HPP
#define VF_POLY_HPP
#include "series.hpp"

#include <array>
#include <tuple>
#include <vector>

#include <obake/polynomials/polynomial.hpp>

namespace vk
{
constexpr unsigned NS = 3;
// exponents are limited to [0, elimit]
constexpr u32 elimit = 1000;

struct mono {
    u32 e[NS] = {0, 0, 0};
    mono() = default;
    explicit mono(const symbol_set &) {}
    mono(u32 a, u32 b, u32 c) : e{a, b, c} {}
    template <typename T>
    mono(const T *b, const T *f)
    {
        for (unsigned i = 0; b != f; ++b, ++i) {
            e[i] = static_cast<u32>(*b);
        }
    }
    friend bool operator==(const mono &a, const mono &b)
    {
        return (a.e[0] == b.e[0]) & (a.e[1] == b.e[1]) & (a.e[2] == b.e[2]);
    }
    friend bool operator!=(const mono &a, const mono &b)
    {
        return !(a == b);
    }
    friend std::ostream &operator<<(std::ostream &os, const mono &)
    {
        return os;
    }
};
// homomorphic and not injective
inline std::size_t hash(const mono &k)
{
    return static_cast<std::size_t>(k.e[0]) + 2u * static_cast<std::size_t>(k.e[1])
           + 3u * static_cast<std::size_t>(k.e[2]);
}
inline bool compat(const mono &k, std::size_t n)
{
    bool r = true;
    for (unsigned i = 0; i < NS; ++i) {
        r &= (i < n ? k.e[i] <= elimit : k.e[i] == 0);
    }
    return r;
}
inline bool key_is_compatible(const mono &k, const symbol_set &ss)
{
    return vk::compat(k, ss.size());
}
inline bool key_is_zero(const mono &, const symbol_set &)
{
    return false;
}
inline bool key_is_one(const mono &k, const symbol_set &)
{
    return (k.e[0] | k.e[1] | k.e[2]) == 0;
}
inline void key_stream_insert(std::ostream &, const mono &, const symbol_set &) {}
inline mono key_merge_symbols(const mono &k, const symbol_idx_map<symbol_set> &m, const symbol_set &ss)
{
    vf_check(vk::compat(k, ss.size()), "keys are extended from the symbol set they belong to");
    mono r;
    unsigned j = 0;
    for (unsigned i = 0; i <= ss.size(); ++i) {
        const auto it = m.find(i);
        if (it != m.end()) {
            j += static_cast<unsigned>(it->second.size());
        }
        if (i < ss.size()) {
            r.e[j++] = k.e[i];
        }
    }
    return r;
}
inline bool known_homomorphic = true;
inline void monomial_mul(mono &o, const mono &a, const mono &b, const symbol_set &ss)
{
    vf_check(vk::compat(a, ss.size()) & vk::compat(b, ss.size()),
             "monomials are multiplied over the symbol set they belong to");
    const mono r(a.e[0] + b.e[0], a.e[1] + b.e[1], a.e[2] + b.e[2]);
    vf_check(vk::compat(r, ss.size()), "monomials are multiplied only after the overflow check");
    o = r;
}
template <typename R1, typename R2>
inline bool monomial_range_overflow_check(R1 &&r1, R2 &&r2, const symbol_set &ss)
{
    bool r = true;
    for (const auto &a : r1) {
        for (const auto &b : r2) {
            r &= vk::compat(mono(a.e[0] + b.e[0], a.e[1] + b.e[1], a.e[2] + b.e[2]), ss.size());
        }
    }
    return r;
}
inline int key_degree(const mono &k, const symbol_set &ss)
{
    vf_check(vk::compat(k, ss.size()), "degrees are computed over the symbol set of the key");
    return static_cast<int>(k.e[0] + k.e[1] + k.e[2]);
}
inline int key_p_degree(const mono &k, const symbol_idx_set &si, const symbol_set &ss)
{
    vf_check(vk::compat(k, ss.size()), "degrees are computed over the symbol set of the key");
    u32 r = 0;
    for (const auto &i : si) {
        vf_check(i < ss.size(), "partial degrees use positions within the symbol set");
        r += k.e[i];
    }
    return static_cast<int>(r);
}
// the sizes that select the multiplication algorithm and its segmentation
inline std::size_t bsize = 8;
inline std::size_t byte_size(const mono &)
{
    return bsize;
}
template <int I>
inline std::size_t byte_size(const cf_t<I> &)
{
    return bsize;
}
// mixed and fused products
inline cf operator*(const cf &a, const cf2 &b)
{
    burn();
    const u64 x = a.val(), y = b.val();
    return {cf::raw{}, a.id != 0 && b.id != 0 ? prod(a.id, b.id) : x * conv(y)};
}
inline cf operator*(const cf2 &a, const cf &b)
{
    return b * a;
}
inline cf2 &fma3(cf2 &r, const cf2 &a, const cf2 &b)
{
    burn();
    r.v = r.val() + cf2::times(a, b);
    r.id = 0;
    return r;
}

using P = obake::polynomial<mono, cf>;
using P2 = obake::polynomial<mono, cf2>;

template <typename Ser>
inline constexpr bool is2 = std::is_same_v<obake::series_cf_t<Ser>, cf2>;
inline u64 as(bool two, u64 v)
{
    return two ? conv(v) : v;
}

// a polynomial, mathematically
struct pspec {
    int n = 0;
    mono k[8];
    u64 c[8];
    unsigned id[8] = {};
    u64 at(const mono &x) const
    {
        u64 r = 0;
        for (int i = 0; i < n; ++i) {
            r += sel(k[i] == x, c[i]);
        }
        return r;
    }
};
template <typename Ser>
inline u64 at(const Ser &s, const mono &x)
{
    u64 r = 0;
    for (const auto &t : s._get_s_table()) {
        for (const auto &p : t) {
            r += sel(p.first == x, p.second.v);
        }
    }
    return r;
}
template <typename Ser>
inline void wf(const Ser &s)
{
    const auto &st = s._get_s_table();
    vf_check(st.size() == (std::size_t(1) << s.get_s_size()), "the number of tables matches the number of segments");
    const auto &ss = s.get_symbol_set();
    mono seen[16];
    int n = 0;
    for (std::size_t i = 0; i < st.size(); ++i) {
        for (const auto &p : st[i]) {
            vf_check(!p.second.gone & (p.second.v != 0), "no series contains a term with a zero coefficient");
            vf_check(vk::compat(p.first, ss.size()), "every key is compatible with the symbol set");
            vf_check((hash(p.first) & (st.size() - 1)) == i, "every term is in the table of its segment");
            for (int j = 0; j < n; ++j) {
                vf_check(seen[j] != p.first, "no key occurs twice");
            }
            vf_check(n < 16, "bound of the specification");
            seen[n++] = p.first;
        }
    }
}
inline mono any_mono(unsigned n, u32 lim)
{
    mono k;
    for (unsigned i = 0; i < n; ++i) {
        k.e[i] = vf::in<u32>(0, lim);
    }
    return k;
}
// A polynomial with n arbitrary terms with exponents in [0, lim], whose coefficients are numbered from ids (0: not).
template <typename Ser>
inline pspec arbitrary_p(Ser &s, const symbol_set &ss, unsigned l, int n, u32 lim = elimit / 2, unsigned ids = 0)
{
    s.set_symbol_set(ss);
    s.set_n_segments(l);
    pspec r;
    r.n = n;
    for (int i = 0; i < n; ++i) {
        const mono k = any_mono(static_cast<unsigned>(ss.size()), lim);
        for (int j = 0; j < i; ++j) {
            vf_assume(k != r.k[j]);
        }
        const u64 c = vf::any<u64>();
        vf_assume(c != 0);
        using C = obake::series_cf_t<Ser>;
        auto &st = s._get_s_table();
        st[hash(k) & (st.size() - 1)].try_emplace(k, C(typename C::raw{}, c, ids == 0 ? 0 : ids + i));
        r.k[i] = k;
        r.id[i] = ids + i;
        r.c[i] = c;
    }
    return r;
}
template <typename Ser>
inline void same(const Ser &s, const pspec &m)
{
    wf(s);
    const mono x = any_mono(NS, 2 * elimit);
    vf_check(at(s, x) == m.at(x), "the coefficient at every key is the specified one");
}
// extension of a key over the symbols `from` to the symbols `to`, from its meaning
inline mono ext(const mono &k, unsigned from, unsigned to)
{
    mono r;
    unsigned f = 0, t = 0;
    for (unsigned i = 0; i < 3; ++i) {
        const bool a = from >> i & 1u, b = to >> i & 1u;
        if (a & b) {
            r.e[t] = k.e[f];
        }
        f += a;
        t += b;
    }
    return r;
}
inline pspec ext(const pspec &s, unsigned from, unsigned to)
{
    pspec r(s);
    for (int i = 0; i < s.n; ++i) {
        r.k[i] = ext(s.k[i], from, to);
    }
    return r;
}
inline u32 deg(const mono &k)
{
    return k.e[0] + k.e[1] + k.e[2];
}
// degree in the symbols of `mask` of a key over the symbols `of`
inline u32 deg(const mono &k, unsigned mask, unsigned of)
{
    u32 r = 0;
    unsigned f = 0;
    for (unsigned i = 0; i < 3; ++i) {
        if (of >> i & 1u) {
            r += mask >> i & 1u ? k.e[f] : 0;
            ++f;
        }
    }
    return r;
}
inline mono mul(const mono &a, const mono &b)
{
    return mono(a.e[0] + b.e[0], a.e[1] + b.e[1], a.e[2] + b.e[2]);
}
} // namespace vk

namespace obake::customisation
{
template <>
inline constexpr bool monomial_hash_is_homomorphic<vk::mono> = true;
}
#endif
