// Shared by the contracts of differentiation and integration: abstract calculus of monomials and coefficients.
#ifndef VF_CALCULUS_HPP
#define VF_CALCULUS_HPP
#include "poly.hpp"

#include <obake/math/diff.hpp>
#include <obake/math/integrate.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>

namespace vk
{
// The exponents of the terms are in [0, top]: what the coefficients are multiplied with and divided by.
constexpr u32 top = 3;
struct expo {
    u32 n;
};
// Differentiation of a numbered coefficient with respect to a symbol, its product with an exponent and its quotient by
// one are any functions at all (the product with zero is zero).
inline u64 dtab[8][3], mtab[8][top + 2], qtab[8][top + 2];
inline void any_calculus()
{
    for (int i = 0; i < 8; ++i) {
        for (int j = 0; j < 3; ++j) {
            dtab[i][j] = vf::any<u64>();
        }
        for (u32 j = 1; j <= top + 1; ++j) {
            mtab[i][j] = vf::any<u64>();
            qtab[i][j] = vf::any<u64>();
        }
    }
}
inline u64 pick(const u64 *t, u32 n)
{
    u64 r = 0;
    for (u32 j = 1; j <= top + 1; ++j) {
        r += sel(j == n, t[j]);
    }
    return r;
}
inline u64 derived(unsigned id, const std::string &s)
{
    vf_check(s.size() == 1 && s[0] >= 'x' && s[0] <= 'z', "coefficients are differentiated with respect to the symbol");
    return id == 0 ? 0 : dtab[id][s[0] - 'x'];
}
inline cf diff(const cf &c, const std::string &s)
{
    burn();
    c.val();
    return {cf::raw{}, derived(c.id, s)};
}
inline cf operator*(const cf &c, const expo &n)
{
    burn();
    return {cf::raw{}, c.id == 0 ? c.val() * n.n : pick(mtab[c.id], n.n)};
}
inline cf operator/(const cf &c, const expo &n)
{
    burn();
    c.val();
    vf_check(n.n != 0, "coefficients are not divided by zero");
    return {cf::raw{}, pick(qtab[c.id], n.n)};
}
// Coefficients whose derivatives, products and quotients are of another type, which includes them.
using kc = cf_t<2>;
inline cf diff(const kc &c, const std::string &s)
{
    burn();
    c.val();
    return {cf::raw{}, derived(c.id, s)};
}
inline cf operator*(const kc &c, const expo &n)
{
    burn();
    return {cf::raw{}, c.id == 0 ? c.val() * n.n : pick(mtab[c.id], n.n)};
}
inline cf operator/(const kc &c, const expo &n)
{
    burn();
    c.val();
    vf_check(n.n != 0, "coefficients are not divided by zero");
    return {cf::raw{}, pick(qtab[c.id], n.n)};
}
inline cf operator*(const cf &a, const kc &b)
{
    burn();
    return {cf::raw{}, a.val() * b.val()};
}
inline cf operator*(const kc &a, const cf &b)
{
    return b * a;
}
inline cf operator+(const cf &a, const kc &b)
{
    burn();
    return {cf::raw{}, a.val() + b.val()};
}
inline cf operator+(const kc &a, const cf &b)
{
    return b + a;
}
inline std::pair<expo, mono> monomial_diff(const mono &k, const obake::symbol_idx &i, const symbol_set &ss)
{
    vf_check(vk::compat(k, ss.size()) & (i < ss.size()), "monomials are differentiated over the symbol set they belong to");
    mono r(k);
    r.e[i] -= k.e[i] != 0;
    return {expo{k.e[i]}, r};
}
inline std::pair<expo, mono> monomial_integrate(const mono &k, const obake::symbol_idx &i, const symbol_set &ss)
{
    vf_check(vk::compat(k, ss.size()) & (i < ss.size()), "monomials are integrated over the symbol set they belong to");
    mono r(k);
    ++r.e[i];
    return {expo{r.e[i]}, r};
}
} // namespace vk
#endif
