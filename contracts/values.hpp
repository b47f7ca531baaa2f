// Shared by the contracts of trimming, evaluation and substitution: abstract values.
#ifndef VF_VALUES_HPP
#define VF_VALUES_HPP
#include "poly.hpp"

#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/polynomials/monomial_subs.hpp>

using obake::symbol_map;

namespace vk
{
// any function of the coefficients
inline u64 ctab[16];
inline void any_functions()
{
    for (auto &c : ctab) {
        c = vf::any<u64>();
    }
}
inline cf trim(const cf &c)
{
    burn();
    c.val();
    vf_check(c.id != 0, "the coefficients of the series are trimmed");
    return {cf::raw{}, ctab[c.id]};
}
inline void key_trim_identify(std::vector<int> &v, const mono &k, const symbol_set &ss)
{
    vf_check(vk::compat(k, ss.size()) & (v.size() == ss.size()), "keys are trimmed over the symbol set they belong to");
    for (unsigned i = 0; i < ss.size(); ++i) {
        v[i] &= k.e[i] == 0;
    }
}
inline mono key_trim(const mono &k, const symbol_idx_set &si, const symbol_set &ss)
{
    vf_check(vk::compat(k, ss.size()), "keys are trimmed over the symbol set they belong to");
    mono r;
    unsigned j = 0;
    for (unsigned i = 0; i < ss.size(); ++i) {
        if (si.count(i) == 0) {
            r.e[j++] = k.e[i];
        }
    }
    return r;
}

// any operation at all
inline u64 product(u64 a, u64 b)
{
    return a * 3u + b * 5u;
}
// The values that are substituted for symbols.
struct num {
    u64 v = 0;
    num() = default;
    explicit num(int n) : v(static_cast<u64>(static_cast<std::int64_t>(n))) {}
    explicit num(u64 n) : v(n) {}
    friend num operator*(const num &a, const num &b)
    {
        return num(product(a.v, b.v));
    }
    friend num &operator+=(num &a, const num &b)
    {
        a.v += b.v;
        return a;
    }
};
inline cf operator*(const num &a, const cf &b)
{
    burn();
    return {cf::raw{}, product(a.v, b.val())};
}
// the value of a key, which depends on all exponents and all values
inline u64 value(const mono &k, const u64 *vals, unsigned n)
{
    u64 r = 11;
    for (unsigned i = 0; i < n; ++i) {
        r += u64(k.e[i]) * (i + 1) * 5 + vals[i] * (i + 7);
    }
    return r;
}
inline num key_evaluate(const mono &k, const symbol_idx_map<num> &m, const symbol_set &ss)
{
    burn();
    vf_check(vk::compat(k, ss.size()), "keys are evaluated over the symbol set they belong to");
    vf_check(m.size() == ss.size(), "keys are evaluated with a value for every symbol");
    u64 vals[NS] = {};
    unsigned j = 0;
    for (const auto &p : m) {
        vf_check(p.first == j, "keys are evaluated with a value for every symbol");
        vals[j++] = p.second.v;
    }
    return num(value(k, vals, j));
}
inline std::pair<num, mono> monomial_subs(const mono &k, const symbol_idx_map<num> &m, const symbol_set &ss)
{
    burn();
    vf_check(vk::compat(k, ss.size()), "keys are substituted over the symbol set they belong to");
    u64 vals[NS] = {};
    mono z, r(k);
    for (const auto &p : m) {
        vf_check(p.first < ss.size(), "substitution uses positions in the symbol set");
        vals[p.first] = p.second.v;
        z.e[p.first] = k.e[p.first];
        r.e[p.first] = 0;
    }
    return {num(value(z, vals, static_cast<unsigned>(ss.size()))), r};
}
inline u64 value(unsigned id, const symbol_map<num> &m)
{
    vf_check(id != 0, "the coefficients of the series are evaluated");
    u64 r = ctab[id];
    for (const auto &p : m) {
        r += p.second.v * (static_cast<u64>(p.first[0] - 'x') + 2u) * 3u;
    }
    return r;
}
inline num evaluate(const cf &c, const symbol_map<num> &m)
{
    burn();
    c.val();
    return num(value(c.id, m));
}
inline cf subs(const cf &c, const symbol_map<num> &m)
{
    burn();
    c.val();
    return {cf::raw{}, value(c.id, m)};
}
// values for the symbols of the mask
inline symbol_map<num> any_values(unsigned mask, u64 *v)
{
    symbol_map<num> r;
    for (unsigned i = 0; i < 3; ++i) {
        v[i] = vf::any<u64>();
        if (mask >> i & 1u) {
            r.emplace(std::string(1, static_cast<char>('x' + i)), num(v[i]));
        }
    }
    return r;
}
} // namespace vk
#endif
