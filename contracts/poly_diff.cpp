// Contracts of differentiation and integration of polynomials (obake/polynomials/polynomial.hpp).
#include "calculus.hpp"

#include "src/detail/fw_utils.cpp"
#include "src/detail/hc.cpp"
#include "src/detail/to_string.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

namespace vk
{
using P3 = obake::polynomial<mono, kc>;
} // namespace vk

using namespace vk;

// position of a symbol in a set of symbols
static unsigned pos(unsigned mask, unsigned s)
{
    unsigned r = 0;
    for (unsigned i = 0; i < s; ++i) {
        r += mask >> i & 1u;
    }
    return r;
}

static const unsigned sets[][2] = {{1, 0}, {3, 1}, {5, 2}, {6, 0}, {2, 2}, {7, 1}, {0, 0}, {3, 0}, {5, 1}};

#if defined(VF_THOROUGH)
constexpr int last = 3;
#else
constexpr int last = 2;
#endif

template <typename A, bool Move>
static auto derive(A &a, const std::string &s)
{
    if constexpr (Move) {
        return obake::diff(std::move(a), s);
    } else {
        return obake::diff(std::as_const(a), s);
    }
}
template <typename A, bool Move>
static auto antiderive(A &a, const std::string &s)
{
    if constexpr (Move) {
        return obake::integrate(std::move(a), s);
    } else {
        return obake::integrate(std::as_const(a), s);
    }
}

template <typename A, bool Move>
static void derivative()
{
    const int q = vf::cases(0, 8);
    const unsigned *z = sets[q];
    const int n = vf::cases(0, q == 0 ? last : z[0] == 0 ? 1 : 2);
    const unsigned m = z[0], s = z[1];
    const bool present = m >> s & 1u;
    vf_umap::order = n == 2;
    any_calculus();
    A a;
    const pspec sa = arbitrary_p(a, names(m), n == 2 && m == 3, n, top, 1);
    const auto r = derive<A, Move>(a, std::string(1, static_cast<char>('x' + s)));
    wf(r);
    const unsigned p = pos(m, s);
    const mono x = any_mono(NS, elimit);
    u64 e = 0;
    for (int i = 0; i < n; ++i) {
        e += sel(sa.k[i] == x, dtab[sa.id[i]][s]);
        if (present) {
            mono d(sa.k[i]);
            d.e[p] -= d.e[p] != 0;
            e += sel(d == x, pick(mtab[sa.id[i]], sa.k[i].e[p]));
        }
    }
    vf_check(at(r, x) == e, "the derivative is the sum of the derivatives of the terms by the rule for products");
    vf_check(n == 0 || r.get_symbol_set() == names(m), "the derivative has the symbols of the polynomial");
    if (!Move) {
        same(a, sa);
    }
}
VF_INST(diff_0, derivative<P, false>)
VF_INST(diff_move_0, derivative<P, true>)
VF_INST(diff_2, derivative<P3, false>)
VF_INST(diff_move_2, derivative<P3, true>)

template <typename A, bool Move>
static void integral()
{
    const int q = vf::cases(0, 8);
    const unsigned *z = sets[q];
    const int n = vf::cases(0, q == 0 ? last : z[0] == 0 ? 1 : 2);
    const unsigned m = z[0], s = z[1];
    vf_umap::order = n == 2;
    any_calculus();
    A a;
    const pspec sa = arbitrary_p(a, names(m), n == 2 && m == 3, n, top, 1);
    bool constant = true;
    for (int i = 0; i < n; ++i) {
        constant &= dtab[sa.id[i]][s] == 0;
    }
    bool thrown = false;
    try {
        const auto r = antiderive<A, Move>(a, std::string(1, static_cast<char>('x' + s)));
        wf(r);
        const unsigned to = m | 1u << s, p = pos(m, s);
        const mono x = any_mono(NS, elimit);
        u64 e = 0;
        for (int i = 0; i < n; ++i) {
            mono d(ext(sa.k[i], m, to));
            ++d.e[p];
            e += sel(d == x, pick(qtab[sa.id[i]], d.e[p]));
        }
        vf_check(at(r, x) == e, "the integral is the sum of the integrals of the terms");
        vf_check(n == 0 || r.get_symbol_set() == names(to), "the integral has the symbols of the polynomial and the integration variable");
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    vf_check(thrown == !constant,
             "an invalid argument is signalled exactly if a coefficient depends on the integration variable");
    if (!Move) {
        same(a, sa);
    }
}
VF_INST(int_0, integral<P, false>)
VF_INST(int_move_0, integral<P, true>)
VF_INST(int_2, integral<P3, false>)
VF_INST(int_move_2, integral<P3, true>)

// A coefficient operation throws.
template <typename A, bool Int>
static void throws()
{
    const unsigned *z = sets[vf::cases(0, 2)];
    const unsigned m = z[0], s = z[1];
    any_calculus();
    A a;
    const pspec sa = arbitrary_p(a, names(m), 0, 2, top, 1);
    const int f = vf::cases(0, 9);
    fuse = f;
    const std::string v(1, static_cast<char>('x' + s));
    try {
        if constexpr (Int) {
            for (int i = 0; i < 2; ++i) {
                vf_assume(dtab[sa.id[i]][s] == 0);
            }
            const auto r = antiderive<A, false>(a, v);
            vf_check(fuse >= 0, "exceptions are not swallowed");
            fuse = -1;
            wf(r);
        } else {
            const auto r = derive<A, false>(a, v);
            vf_check(fuse >= 0, "exceptions are not swallowed");
            fuse = -1;
            wf(r);
        }
    } catch (const oops &) {
        vf_check(fuse < 0, "only exceptions of the coefficients are thrown");
    }
    fuse = -1;
    same(a, sa);
}
VF_INST(throws_diff_0, throws<P, false>)
VF_INST(throws_int_0, throws<P, true>)
VF_INST(throws_int_2, throws<P3, true>)
VF_INST(throws_diff_2, throws<P3, false>)
