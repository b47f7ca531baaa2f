// Shared by the contracts of exponentiation: abstract powers of monomials and coefficients.
#ifndef VF_POWERS_HPP
#define VF_POWERS_HPP
#define VF_ONE 1
#include "poly.hpp"

#include <obake/math/pow.hpp>
#include <obake/polynomials/monomial_pow.hpp>

namespace vk
{
// an exponent that is not a number
struct ex {
    u32 v;
};
inline bool is_zero(const ex &e)
{
    return e.v == 0;
}
// the power of a numbered coefficient, and that of zero, is any function of the exponent
inline u64 ptab[8];
inline u64 power(unsigned id, u64 e)
{
    return ptab[id] + 3 * e;
}
inline u64 number(const ex &e)
{
    return e.v;
}
template <typename E, std::enable_if_t<std::is_integral_v<E>, int> = 0>
inline u64 number(const E &e)
{
    return static_cast<u64>(e);
}
template <typename E, typename = decltype(vk::number(std::declval<const E &>()))>
inline cf pow(const cf &c, const E &e)
{
    burn();
    vf_check((c.id != 0) | (c.val() == 0), "the power is that of a coefficient of the series or of zero");
    return {cf::raw{}, power(c.id, number(e))};
}
template <typename E, std::enable_if_t<std::is_same_v<E, int>, int> = 0>
inline mono monomial_pow(const mono &k, const E &e, const symbol_set &ss)
{
    vf_check(vk::compat(k, ss.size()), "powers of monomials are over the symbol set they belong to");
    const u32 n = static_cast<u32>(e);
    return mono(k.e[0] * n, k.e[1] * n, k.e[2] * n);
}
inline void any_powers()
{
    for (auto &p : ptab) {
        p = vf::any<u64>();
    }
}
// the exact powers
struct poly {
    int n = 0;
    mono k[16];
    u64 c[16];
    unsigned id[16];
    void add(const mono &x, u64 v, unsigned d)
    {
        for (int i = 0; i < n; ++i) {
            if (k[i] == x) {
                c[i] += v;
                id[i] = 0;
                return;
            }
        }
        k[n] = x;
        id[n] = d;
        c[n++] = v;
    }
};
inline poly times(const poly &a, const poly &b)
{
    poly r;
    for (int i = 0; i < a.n; ++i) {
        for (int j = 0; j < b.n; ++j) {
            const unsigned x = a.id[i], y = b.id[j];
            r.add(mul(a.k[i], b.k[j]),
                  x == cf::one ? b.c[j] : x != 0 && y != 0 ? prod(x, y) : a.c[i] * b.c[j], x == cf::one ? y : 0);
        }
    }
    return r;
}
inline poly power_of(const poly &b, unsigned e)
{
    poly p;
    p.add(mono(), 1, cf::one);
    for (unsigned i = 0; i < e; ++i) {
        p = times(p, b);
    }
    return p;
}
inline u64 at(const poly &p, const mono &x)
{
    u64 s = 0;
    for (int i = 0; i < p.n; ++i) {
        s += sel(x == p.k[i], p.c[i]);
    }
    return s;
}
// two terms
template <typename Ser>
inline poly base(Ser &a, unsigned mask, unsigned l, const mono &k0, const mono &k1, unsigned id)
{
    a.set_symbol_set(names(mask));
    a.set_n_segments(l);
    poly r;
    auto &st = a._get_s_table();
    const mono *k[] = {&k0, &k1};
    for (const auto *x : k) {
        const u64 c = vf::any<u64>();
        vf_assume(c != 0);
        st[hash(*x) & (st.size() - 1)].try_emplace(*x, cf(cf::raw{}, c, id));
        r.add(*x, c, id++);
    }
    return r;
}
} // namespace vk
#endif
