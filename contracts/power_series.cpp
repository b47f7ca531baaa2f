// Contracts of truncated power series (obake/power_series/power_series.hpp).
#include "powers.hpp"

#include "calculus.hpp"
#include "values.hpp"

#include <obake/power_series/power_series.hpp>

#include "src/detail/fw_utils.cpp"
#include "src/detail/hc.cpp"
#include "src/detail/to_string.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

// any number of cores
unsigned std::thread::hardware_concurrency() noexcept
{
    return 8;
}

namespace vk
{
using PS = obake::p_series<mono, cf>;
using PS2 = obake::p_series<mono, cf2>;

// the truncation of a power series: none, total, or partial in the symbols of a mask
struct limits {
    int kind = 0;
    int lim = 0;
    unsigned mask = 7;
};
inline bool keeps(const limits &t, const mono &k, unsigned of)
{
    return (t.kind == 0) | (static_cast<int>(deg(k, t.kind == 2 ? t.mask : 7u, of)) <= t.lim);
}
inline bool same_policy(const limits &a, const limits &b)
{
    return a.kind == b.kind && (a.kind == 0 || (a.lim == b.lim && (a.kind == 1 || a.mask == b.mask)));
}
template <typename Ser>
inline void has(const Ser &s, const limits &t)
{
    const auto &v = obake::get_truncation(s);
    vf_check(v.index() == static_cast<std::size_t>(t.kind), "the truncation policy is the expected one");
    if (t.kind == 1) {
        vf_check(std::get<1>(v) == t.lim, "the truncation degree is the expected one");
    } else if (t.kind == 2) {
        vf_check(std::get<2>(v).first == t.lim, "the truncation degree is the expected one");
        vf_check(std::get<2>(v).second == names(t.mask), "the symbols of the truncation are the expected ones");
    }
}
template <typename Ser>
inline void set(Ser &s, const limits &t)
{
    if (t.kind == 1) {
        obake::set_truncation(s, t.lim);
    } else if (t.kind == 2) {
        obake::set_truncation(s, t.lim, names(t.mask));
    }
}
inline limits any_trunc(int kind, unsigned mask = 5)
{
    limits t;
    t.kind = kind;
    if (kind != 0) {
        t.lim = vf::in<int>(-10, 5000);
    }
    if (kind == 2) {
        t.mask = mask;
    }
    return t;
}
// a power series with the truncation t, which it satisfies
template <typename Ser>
inline pspec arbitrary_ps(Ser &s, unsigned m, unsigned l, int n, const limits &t, u32 lim = elimit / 2, unsigned ids = 0)
{
    set(s, t);
    const pspec r = arbitrary_p(s, names(m), l, n, lim, ids);
    for (int i = 0; i < n; ++i) {
        vf_assume(keeps(t, r.k[i], m));
    }
    return r;
}
template <typename Ser>
inline void unchanged(const Ser &s, const pspec &m, const limits &t)
{
    same(s, m);
    has(s, t);
}
// the specified terms, except those that are truncated
template <typename Ser>
inline void same_truncated(const Ser &s, const pspec &m, const limits &t, unsigned of)
{
    wf(s);
    const mono x = any_mono(NS, 2 * elimit);
    vf_check(at(s, x) == sel(keeps(t, x, of), m.at(x)),
             "the terms are exactly those of the exact result within the truncation limit");
    has(s, t);
}
} // namespace vk

using namespace vk;

// Truncation of a series with an arbitrary truncation already set.
template <typename T>
static limits set_to(PS &a, int kind, T lim)
{
    limits t;
    t.kind = kind;
    t.lim = static_cast<int>(lim);
    if (kind == 1) {
        vf_check(&obake::set_truncation(a, lim) == &a, "the series is returned");
    } else if (kind == 2) {
        t.mask = 4;
        vf_check(&obake::set_truncation(a, lim, names(4)) == &a, "the series is returned");
    } else {
        vf_check(&obake::unset_truncation(a) == &a, "the series is returned");
    }
    return t;
}
template <typename T>
static void sets()
{
    const int n = vf::cases(0, 2), from = vf::cases(0, 2), to = vf::cases(0, 2);
    PS a;
    const limits t0 = any_trunc(from);
    const pspec sa = arbitrary_ps(a, from == 2 ? 1 : 5, n == 2, n, t0);
    const T lim = vf::any<T>();
    vf_assume(lim >= T(0) - T(std::is_signed_v<T> ? 10 : 0) && lim <= T(5000));
    const limits t = set_to(a, to, lim);
    same_truncated(a, sa, t, from == 2 ? 1 : 5);
    vf_check(a.get_symbol_set() == names(from == 2 ? 1 : 5), "the symbols are kept");
}
VF_INST(set_int, sets<int>)
VF_INST(set_ll, sets<long long>)
VF_INST(set_ul, sets<unsigned long>)
// explicit truncation
static void truncates()
{
    const int n = vf::cases(0, 2), kind = vf::cases(0, 2), how = vf::cases(0, 2);
    PS a;
    const limits t0 = any_trunc(kind);
    set(a, t0);
    const pspec sa = arbitrary_p(a, names(6), n == 2, n);
    const int lim = vf::in<int>(-10, 5000);
    if (how == 0) {
        obake::truncate(a);
        same_truncated(a, sa, t0, 6);
    } else {
        limits t;
        t.kind = how;
        t.lim = lim;
        t.mask = 3;
        if (how == 1) {
            obake::power_series::truncate_degree(a, lim);
        } else {
            obake::power_series::truncate_p_degree(a, lim, names(3));
        }
        wf(a);
        const mono x = any_mono(NS, 2 * elimit);
        vf_check(at(a, x) == sel(keeps(t, x, 6), sa.at(x)), "exactly the terms within the limit are kept");
        has(a, t0);
    }
    vf_check(a.get_symbol_set() == names(6), "the symbols are kept");
}
VF_INST(truncate, truncates)

enum op { add, sub, in_add, in_sub };
template <op O, typename A, typename B>
static auto apply(A &&a, B &&b)
{
    if constexpr (O == add) {
        return std::forward<A>(a) + std::forward<B>(b);
    } else if constexpr (O == sub) {
        return std::forward<A>(a) - std::forward<B>(b);
    } else if constexpr (O == in_add) {
        auto &r = (std::forward<A>(a) += std::forward<B>(b));
        vf_check(&r == &a, "the first operand is returned");
        return r;
    } else {
        auto &r = (std::forward<A>(a) -= std::forward<B>(b));
        vf_check(&r == &a, "the first operand is returned");
        return r;
    }
}
template <op O, bool Move, typename A, typename B>
static auto apply_m(A &a, B &b)
{
    if constexpr (Move) {
        return apply<O>(std::move(a), std::move(b));
    } else if constexpr (O == add || O == sub) {
        return apply<O>(std::as_const(a), std::as_const(b));
    } else {
        return apply<O>(a, std::as_const(b));
    }
}
// the policies of the operands; 3: partial with other symbols
static const int kinds[][2] = {{0, 0}, {0, 1}, {1, 0}, {1, 1}, {0, 2}, {2, 0}, {2, 2}, {1, 2}, {2, 1}, {2, 3}};
static limits policy(int k)
{
    return any_trunc(k == 3 ? 2 : k, k == 3 ? 7 : 5);
}
static limits joined(const limits &a, const limits &b)
{
    return a.kind == 0 ? b : a;
}
static bool match(const limits &a, const limits &b)
{
    return a.kind == 0 || b.kind == 0 || same_policy(a, b);
}
static const int sizes[][3] = {{1, 1, 0}, {2, 1, 1}, {1, 2, 0}, {0, 1, 0}, {1, 0, 1}};

template <op O, typename A, typename B, bool Move, bool Syms>
static void sums()
{
    static const unsigned syms[][2] = {{1, 2}, {5, 1}, {1, 6}};
    const int *kk = kinds[vf::cases(0, 9)], *n = sizes[vf::cases(0, Syms ? 0 : 4)];
    const unsigned *mm = Syms ? syms[vf::cases(0, 2)] : nullptr;
    const unsigned ma = Syms ? mm[0] : 5, mb = Syms ? mm[1] : 5, m = ma | mb;
    A a;
    B b;
    const limits ta = policy(kk[0]), tb = policy(kk[1]);
    const pspec sa = arbitrary_ps(a, ma, n[2], n[0], ta), sb = arbitrary_ps(b, mb, 0, n[1], tb);
    const pspec ea = ext(sa, ma, m), eb = ext(sb, mb, m);
    bool thrown = false;
    try {
        const auto r = apply_m<O, Move>(a, b);
        const limits t = joined(ta, tb);
        wf(r);
        const mono x = any_mono(NS, 2 * elimit);
        // (the coefficients of an in-place operation are those of the first operand)
        const u64 y = as(is2<B> && !is2<A>, eb.at(x)), z = as(is2<A> && !is2<B>, ea.at(x));
        vf_check(at(r, x) == sel(keeps(t, x, m), O == add || O == in_add ? z + y : z - y),
                 "the terms are exactly those of the exact result within the truncation limit");
        has(r, t);
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    vf_check(thrown == !match(ta, tb), "an invalid argument is signalled exactly if the truncations do not match");
    if (thrown) {
        unchanged(a, sa, ta);
        unchanged(b, sb, tb);
    } else if (!Move) {
        if (O == add || O == sub) {
            unchanged(a, sa, ta);
        }
        unchanged(b, sb, tb);
    }
}
VF_INST(add_11, sums<add, PS, PS, false, false>)
VF_INST(sub_11, sums<sub, PS, PS, false, false>)
VF_INST(in_add_11, sums<in_add, PS, PS, false, false>)
VF_INST(in_sub_11, sums<in_sub, PS, PS, false, false>)
VF_INST(add_move, sums<add, PS, PS, true, false>)
VF_INST(sub_move, sums<sub, PS, PS, true, false>)
VF_INST(in_add_move, sums<in_add, PS, PS, true, false>)
VF_INST(in_sub_move, sums<in_sub, PS, PS, true, false>)
VF_INST(add_12, sums<add, PS, PS2, false, false>)
VF_INST(sub_21, sums<sub, PS2, PS, false, false>)
VF_INST(add_syms, sums<add, PS, PS, false, true>)
VF_INST(sub_syms, sums<sub, PS, PS, true, true>)
VF_INST(in_add_syms, sums<in_add, PS, PS, false, true>)
VF_INST(in_sub_syms, sums<in_sub, PS, PS, true, true>)

// A coefficient is a term of degree zero.
template <op O, bool Swap, bool Move>
static void scalars()
{
    const int kind = vf::cases(0, 2), n = vf::cases(0, 2);
    PS a;
    const limits t = any_trunc(kind);
    const pspec sa = arbitrary_ps(a, 3, n == 2, n, t);
    cf c(cf::raw{}, vf::any<u64>());
    const u64 v = c.v;
    wf(a);
    const auto check = [&](const PS &r) {
        wf(r);
        const mono x = any_mono(NS, 2 * elimit);
        const u64 y = sel(x == mono(), v), z = sa.at(x);
        vf_check(at(r, x) == sel(keeps(t, x, 3), O == add || O == in_add ? z + y : Swap ? y - z : z - y),
                 "the terms are exactly those of the exact result within the truncation limit");
        has(r, t);
    };
    if constexpr (Swap) {
        check(apply_m<O, Move>(c, a));
    } else {
        check(apply_m<O, Move>(a, c));
    }
    if (!Move && (O == add || O == sub)) {
        unchanged(a, sa, t);
    }
}
VF_INST(scalar_add, scalars<add, false, false>)
VF_INST(scalar_sub, scalars<sub, false, true>)
VF_INST(scalar_add_swap, scalars<add, true, true>)
VF_INST(scalar_sub_swap, scalars<sub, true, false>)
VF_INST(scalar_in_add, scalars<in_add, false, false>)
VF_INST(scalar_in_sub, scalars<in_sub, false, true>)

// Products.
template <bool InPlace, bool Syms, typename A, typename B>
static void products()
{
    static const unsigned syms[][2] = {{1, 2}, {5, 1}, {1, 6}};
    const int *kk = kinds[vf::cases(0, 9)], *n = sizes[vf::cases(0, Syms ? 0 : 4)];
    const unsigned *mm = Syms ? syms[vf::cases(0, 2)] : nullptr;
    const unsigned ma = Syms ? mm[0] : 5, mb = Syms ? mm[1] : 5, m = ma | mb;
    A a;
    B b;
    const limits ta = policy(kk[0]), tb = policy(kk[1]);
    const pspec sa = arbitrary_ps(a, ma, n[2], n[0], ta, elimit / 2, 1),
                sb = arbitrary_ps(b, mb, 0, n[1], tb, elimit / 2, 8);
    const pspec ea = ext(sa, ma, m), eb = ext(sb, mb, m);
    const auto check = [&](const auto &r) {
        const limits t = joined(ta, tb);
        wf(r);
        const mono x = any_mono(NS, 2 * elimit);
        u64 e = 0;
        for (int i = 0; i < ea.n; ++i) {
            for (int j = 0; j < eb.n; ++j) {
                e += sel(mul(ea.k[i], eb.k[j]) == x, prod(ea.id[i], eb.id[j]));
            }
        }
        vf_check(at(r, x) == sel(keeps(t, x, m), e),
                 "the terms are exactly those of the exact product within the truncation limit");
        vf_check(r.get_symbol_set() == names(m), "the symbols are merged");
        has(r, t);
    };
    bool thrown = false;
    try {
        if constexpr (InPlace) {
            auto &r = (a *= std::as_const(b));
            vf_check(&r == &a, "the first operand is returned");
            check(a);
        } else {
            check(std::as_const(a) * std::as_const(b));
        }
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    vf_check(thrown == !match(ta, tb), "an invalid argument is signalled exactly if the truncations do not match");
    if (thrown || !InPlace) {
        unchanged(a, sa, ta);
    }
    unchanged(b, sb, tb);
}
VF_INST(mul_11, products<false, false, PS, PS>)
VF_INST(mul_12, products<false, false, PS, PS2>)
VF_INST(in_mul_11, products<true, false, PS, PS>)
VF_INST(mul_syms, products<false, true, PS, PS>)
// the parallel algorithm
static void parallel()
{
    const int *kk = kinds[vf::cases(0, 6)];
    bsize = (std::size_t(153600) << 1) / 4u;
    PS a, b;
    const limits ta = policy(kk[0]), tb = policy(kk[1]);
    if (kk[0] != 0 && kk[1] != 0) {
        vf_assume(ta.lim == tb.lim);
    }
    const pspec sa = arbitrary_ps(a, 5, 0, 2, ta, elimit / 2, 1), sb = arbitrary_ps(b, 5, 0, 1, tb, elimit / 2, 8);
    const auto r = std::as_const(a) * std::as_const(b);
    const limits t = joined(ta, tb);
    wf(r);
    const mono x = any_mono(NS, 2 * elimit);
    u64 e = 0;
    for (int i = 0; i < 2; ++i) {
        e += sel(mul(sa.k[i], sb.k[0]) == x, prod(sa.id[i], sb.id[0]));
    }
    vf_check(at(r, x) == sel(keeps(t, x, 5), e),
             "the terms are exactly those of the exact product within the truncation limit");
    has(r, t);
}
VF_INST(mul_parallel, parallel)

// Operations that act term by term keep the truncation.
template <int W>
static void keeps_tag()
{
    const int kind = vf::cases(0, 2), n = vf::cases(0, 2);
    PS a;
    const limits t = any_trunc(kind);
    pspec sa = arbitrary_ps(a, 3, n == 2, n, t, elimit / 2, 1);
    if constexpr (W == 0) {
        const PS r = -std::as_const(a);
        pspec e(sa);
        for (auto &c : e.c) {
            c = -c;
        }
        unchanged(r, e, t);
    } else if constexpr (W == 1) {
        const cf c(cf::raw{}, vf::any<u64>(), 8);
        const PS r = vf::cases(0, 1) ? c * std::as_const(a) : std::as_const(a) * c;
        wf(r);
        const mono x = any_mono(NS, 2 * elimit);
        u64 e = 0;
        for (int i = 0; i < n; ++i) {
            e += sel(sa.k[i] == x, prod(sa.id[i], 8));
        }
        vf_check((at(r, x) == e) | (c.v == 0), "scaling multiplies the coefficients");
        has(r, t);
    } else if constexpr (W == 2) {
        const PS r(a);
        unchanged(r, sa, t);
        PS q;
        q = r;
        unchanged(q, sa, t);
    } else if constexpr (W == 3) {
        const PS r(std::move(a));
        unchanged(r, sa, t);
        a = std::move(const_cast<PS &>(r));
    } else if constexpr (W == 4) {
        PS b;
        const limits u = any_trunc(vf::cases(0, 2), 3);
        const pspec sb = arbitrary_ps(b, 6, 1, 1, u);
        using std::swap;
        swap(a, b);
        unchanged(b, sa, t);
        unchanged(a, sb, u);
        swap(a, b);
    } else if constexpr (W == 5) {
        const PS r = obake::add_symbols(std::as_const(a), names(6));
        unchanged(r, ext(sa, 3, 7), t);
    } else if constexpr (W == 6) {
        const u64 lim = vf::any<u64>();
        const PS r = obake::filtered(std::as_const(a), [lim](const auto &p) { return p.second.v <= lim; });
        wf(r);
        const mono x = any_mono(NS, 2 * elimit);
        vf_check(at(r, x) == sel(sa.at(x) <= lim, sa.at(x)), "filtering keeps the selected terms");
        has(r, t);
    } else if constexpr (W == 7) {
        a.clear_terms();
        sa.n = 0;
    } else {
        // conversion between power series of different coefficients
        const PS2 r(a);
        wf(r);
        has(r, t);
    }
    unchanged(a, sa, t);
    if (W == 7) {
        a.clear();
        has(a, limits{});
    }
}
VF_INST(keep_neg, keeps_tag<0>)
VF_INST(keep_scale, keeps_tag<1>)
VF_INST(keep_copy, keeps_tag<2>)
VF_INST(keep_move, keeps_tag<3>)
VF_INST(keep_swap, keeps_tag<4>)
VF_INST(keep_symbols, keeps_tag<5>)
VF_INST(keep_filter, keeps_tag<6>)
VF_INST(keep_clear, keeps_tag<7>)
VF_INST(keep_convert, keeps_tag<8>)

// Powers.
static void pow_single()
{
    const int kind = vf::cases(0, 2), n = vf::cases(0, 1), e = vf::cases(0, 3);
    any_powers();
    PS a;
    const limits t = any_trunc(kind);
    const pspec sa = arbitrary_ps(a, 3, n, n, t, 100, 1);
    const PS r = obake::pow(std::as_const(a), e);
    wf(r);
    const u32 u = static_cast<u32>(e);
    const mono x = any_mono(NS, 2 * elimit), k(n * sa.k[0].e[0] * u, n * sa.k[0].e[1] * u, 0);
    vf_check(at(r, x) == sel((x == k) & keeps(t, k, 3), power(n, u)),
             "the terms are exactly those of the exact power within the truncation limit");
    has(r, t);
    unchanged(a, sa, t);
}
VF_INST(pow_single, pow_single)
static void pow_natural()
{
    static const int keys[][4] = {{1, 0, 0, 0}, {1, 0, 0, 1}, {2, 1, 0, 1}};
    const int kind = vf::cases(0, 2), e = vf::cases(0, 2), second = vf::cases(0, 2);
    const int *q = keys[vf::cases(0, 2)];
    any_powers();
    PS a;
    const limits t = any_trunc(kind, 2);
    const mono k0(q[0], q[1], 0), k1(q[2], q[3], 0);
    vf_assume(keeps(t, k0, 3) & keeps(t, k1, 3));
    set(a, t);
    const poly b = base(a, 3, 0, k0, k1, 1);
    if (second) {
        // the same terms with another truncation have been exponentiated before
        PS o(a);
        const limits u = any_trunc(second == kind ? 0 : second, 1);
        vf_assume(keeps(u, k0, 3) & keeps(u, k1, 3));
        obake::unset_truncation(o);
        set(o, u);
        const PS r = obake::pow(std::as_const(o), 2ull);
        has(r, u);
    }
    const PS r = obake::pow(std::as_const(a), static_cast<unsigned long long>(e));
    wf(r);
    const poly p = power_of(b, static_cast<unsigned>(e));
    const mono x = any_mono(NS, 2 * elimit);
    vf_check(at(r, x) == sel(keeps(t, x, 3), at(p, x)),
             "the terms are exactly those of the exact power within the truncation limit");
    has(r, t);
}
VF_INST(pow_natural, pow_natural)

// Derivatives and integrals.
using PS3 = obake::p_series<mono, kc>;
template <typename A, bool Move>
static void derivative()
{
    const int kind = vf::cases(0, 2), n = vf::cases(0, 2), s = vf::cases(0, 2);
    any_calculus();
    A a;
    const limits t = any_trunc(kind, 6);
    const pspec sa = arbitrary_ps(a, 3, n == 2, n, t, top, 1);
    const std::string v(1, static_cast<char>('x' + s));
    const auto r = Move ? obake::diff(std::move(a), v) : obake::diff(std::as_const(a), v);
    wf(r);
    const mono x = any_mono(NS, elimit);
    u64 e = 0;
    for (int i = 0; i < n; ++i) {
        e += sel(sa.k[i] == x, dtab[sa.id[i]][s]);
        if (s != 2) {
            mono d(sa.k[i]);
            d.e[s] -= d.e[s] != 0;
            e += sel(d == x, pick(mtab[sa.id[i]], sa.k[i].e[s]));
        }
    }
    vf_check(at(r, x) == sel(keeps(t, x, 3), e),
             "the terms are exactly those of the exact derivative within the truncation limit");
    if (n != 0) {
        has(r, t);
    }
    if (!Move) {
        unchanged(a, sa, t);
    }
}
VF_INST(diff_0, derivative<PS, false>)
VF_INST(diff_move_0, derivative<PS, true>)
VF_INST(diff_2, derivative<PS3, false>)
template <typename A, bool Move>
static void integral()
{
    const int kind = vf::cases(0, 2), n = vf::cases(0, 2), s = vf::cases(0, 2);
    any_calculus();
    A a;
    const limits t = any_trunc(kind, 6);
    const pspec sa = arbitrary_ps(a, 3, n == 2, n, t, top, 1);
    bool constant = true;
    for (int i = 0; i < n; ++i) {
        constant &= dtab[sa.id[i]][s] == 0;
    }
    vf_assume(constant);
    const std::string v(1, static_cast<char>('x' + s));
    const auto r = Move ? obake::integrate(std::move(a), v) : obake::integrate(std::as_const(a), v);
    wf(r);
    const unsigned to = s == 2 ? 7 : 3;
    const mono x = any_mono(NS, elimit);
    u64 e = 0;
    for (int i = 0; i < n; ++i) {
        mono d(ext(sa.k[i], 3, to));
        ++d.e[s];
        e += sel(d == x, pick(qtab[sa.id[i]], d.e[s]));
    }
    vf_check(at(r, x) == sel(keeps(t, x, to), e),
             "the terms are exactly those of the exact integral within the truncation limit");
    if (n != 0) {
        has(r, t);
    }
    if (!Move) {
        unchanged(a, sa, t);
    }
}
VF_INST(int_0, integral<PS, false>)
VF_INST(int_move_0, integral<PS, true>)
VF_INST(int_2, integral<PS3, false>)

// Substitution.
static void substitution()
{
    const int kind = vf::cases(0, 2), n = vf::cases(0, 2), p = vf::cases(0, 3);
    any_functions();
    PS a;
    const limits t = any_trunc(kind, 2);
    const pspec sa = arbitrary_ps(a, 3, n == 2, n, t, elimit, 1);
    u64 v[3];
    const auto sm = any_values(static_cast<unsigned>(p), v);
    const PS r = obake::subs(std::as_const(a), sm);
    wf(r);
    const mono x = any_mono(NS, 2 * elimit);
    const u64 w[3] = {p & 1 ? v[0] : 0, p & 2 ? v[1] : 0, 0};
    u64 e = 0;
    for (int i = 0; i < n; ++i) {
        mono k(sa.k[i]), z;
        for (int j = 0; j < 2; ++j) {
            if (p >> j & 1) {
                z.e[j] = k.e[j];
                k.e[j] = 0;
            }
        }
        e += sel(k == x, product(vk::value(z, w, 2), vk::value(sa.id[i], sm)));
    }
    vf_check(at(r, x) == e, "substitution yields the sum of the products of the substituted keys and coefficients");
    // (a sum of products that all vanish is empty and not truncated)
    if (r.size() != 0) {
        has(r, t);
    }
    unchanged(a, sa, t);
}
VF_INST(subs, substitution)

// Equality.
static void equality()
{
    const int ka = vf::cases(0, 2), kb = vf::cases(0, 3), n = vf::cases(0, 2);
    PS a, b;
    const limits ta = policy(ka), tb = policy(kb);
    const pspec sa = arbitrary_ps(a, 3, 0, n, ta);
    const pspec sb = arbitrary_ps(b, 3, 1, n, tb);
    bool eq = same_policy(ta, tb);
    for (int i = 0; i < n; ++i) {
        eq &= sb.at(sa.k[i]) == sa.c[i];
    }
    vf_check((std::as_const(a) == std::as_const(b)) == eq, "power series are equal if their terms and truncations are");
    vf_check((std::as_const(a) != std::as_const(b)) == !eq, "power series are equal if their terms and truncations are");
    const bool q = a.tag() == b.tag();
    vf_check(q == same_policy(ta, tb) && q == !(a.tag() != b.tag()), "tags are equal exactly if the truncations are");
    vf_check(!q || hash(a.tag()) == hash(b.tag()), "equal tags have equal hashes");
}
VF_INST(equality, equality)

// Generators.
static void is_generator(const PS &r, unsigned mask, unsigned s, const limits &t)
{
    pspec e;
    e.n = 1;
    e.k[0] = mono();
    unsigned p = 0;
    for (unsigned i = 0; i < s; ++i) {
        p += mask >> i & 1u;
    }
    e.k[0].e[p] = 1;
    e.c[0] = 1;
    same_truncated(r, e, t, mask);
    vf_check(r.get_symbol_set() == names(mask), "the symbols are the given ones");
}
static void makes()
{
    const int kind = vf::cases(0, 2), mask = vf::cases(0, 7);
    limits t = any_trunc(kind, 6);
    const symbol_set ss = names(static_cast<unsigned>(mask));
    const auto make = [&](const auto &...n) {
        if (mask == 0) {
            if (kind == 0) {
                return obake::make_p_series<PS>(n...);
            } else if (kind == 1) {
                return obake::make_p_series_t<PS>(t.lim, n...);
            } else {
                return obake::make_p_series_p<PS>(t.lim, names(6), n...);
            }
        } else if (kind == 0) {
            return obake::make_p_series<PS>(ss, n...);
        } else if (kind == 1) {
            return obake::make_p_series_t<PS>(ss, t.lim, n...);
        } else {
            return obake::make_p_series_p<PS>(ss, t.lim, names(6), n...);
        }
    };
    bool thrown = false;
    try {
        auto [x, z] = make(std::string("x"), "z");
        is_generator(x, mask == 0 ? 1 : static_cast<unsigned>(mask), 0, t);
        is_generator(z, mask == 0 ? 4 : static_cast<unsigned>(mask), 2, t);
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    vf_check(thrown == (mask != 0 && (mask & 5) != 5), "an invalid argument is signalled if a symbol is missing");
}
VF_INST(make, makes)
