// Shared by the contracts of packed_monomial and d_packed_monomial.
#ifndef VF_MONOMIAL_HPP
#define VF_MONOMIAL_HPP
#include <algorithm>
#include <iterator>
#include <forward_list>
#include <list>
#include <stdexcept>
#include <string>
#include <vector>

#include <obake/hash.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/math/pow.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_homomorphic_hash.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <boost/iterator/transform_iterator.hpp>
#include <obake/ranges.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/symbols.hpp>

#include "vf.hpp"

using vf::Z;
using obake::symbol_idx_map;
using obake::symbol_idx_set;
using obake::symbol_set;

inline const char *nm(int i)
{
    static const char *const t[] = {"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
                                    "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "za", "zb", "zc", "zd"};
    return t[i];
}
inline symbol_set mkss(int n)
{
    symbol_set::sequence_type s;
    s.reserve(static_cast<std::size_t>(n));
    for (int i = 0; i < n; ++i) {
        s.push_back(std::string(nm(i)));
    }
    symbol_set r;
    r.adopt_sequence(boost::container::ordered_unique_range_t{}, std::move(s));
    return r;
}

// The specification view of a monomial in n variables: its vector of exponents.
template <typename M>
struct view;
template <typename T_>
struct view<obake::packed_monomial<T_>> {
    using T = T_;
    using M = obake::packed_monomial<T>;
    static constexpr bool dynamic = false;
    static constexpr int max_n = sizeof(T) == 4 ? 10 : 21;
    // exponent limits in n variables
    static std::pair<T, T> lims(int n)
    {
        return n == 0 ? std::pair<T, T>(T(0), T(0)) : obake::detail::kpack_get_lims<T>(unsigned(n));
    }
    static M make(const T *e, int n)
    {
        return M(e, unsigned(n));
    }
    // m represents the exponents e
    template <typename E>
    static bool is(const M &m, const E *e, int n)
    {
        const Z d = n ? Z(obake::detail::kpack_get_delta<T>(unsigned(n))) : Z(1);
        Z c = 0, p = 1;
        for (int i = 0; i < n; ++i) {
            c += Z(e[i]) * p;
            p *= d;
        }
        return Z(m.get_value()) == c;
    }
};
template <typename T_, unsigned PS>
struct view<obake::d_packed_monomial<T_, PS>> {
    using T = T_;
    using M = obake::d_packed_monomial<T, PS>;
    static constexpr bool dynamic = true;
    static constexpr int max_n = int(PS) * 2 + 1;
    static std::pair<T, T> lims(int)
    {
        return obake::detail::kpack_get_lims<T>(PS);
    }
    static M make(const T *e, int n)
    {
        return M(e, std::size_t(n));
    }
    template <typename E>
    static bool is(const M &m, const E *e, int n)
    {
        const Z d = Z(obake::detail::kpack_get_delta<T>(PS));
        const auto &v = m._container();
        if (v.size() != (std::size_t(n) + PS - 1) / PS) {
            return false;
        }
        bool ok = true;
        for (int k = 0; k * int(PS) < n; ++k) {
            Z c = 0, p = 1;
            for (int i = k * int(PS); i < n && i < (k + 1) * int(PS); ++i) {
                c += Z(e[i]) * p;
                p *= d;
            }
            ok &= Z(v[std::size_t(k)]) == c;
        }
        return ok;
    }
};

constexpr int MAXN = 43;

#if defined(VF_THOROUGH)
#define VF_POWN 5
#define VF_MASKN 6
#else
#define VF_POWN 3
#define VF_MASKN 4
#endif


// a monomial with arbitrary exponents within the limits
template <typename M>
struct any_mono {
    using V = view<M>;
    using T = typename V::T;
    T e[MAXN];
    int n;
    M m;
    // same: every exponent is the same number
    explicit any_mono(int n_, bool same = false) : n(n_)
    {
        const auto [lo, hi] = V::lims(n);
        for (int i = 0; i < n; ++i) {
            e[i] = same && i != 0 ? e[0] : vf::in<T>(lo, hi);
        }
        m = V::make(e, n);
    }
};

// a subset of n indices: every subset if n <= VF_MASKN, otherwise one of a few shapes
inline unsigned long any_mask(int n)
{
    if (n <= VF_MASKN) {
        const long c = vf::cases(0, (1 << n) - 1);
        return static_cast<unsigned long>(c);
    }
    const unsigned long all = (1ul << n) - 1;
    switch (vf::cases(0, 6)) {
        case 0:
            return 1;
        case 1:
            return 1ul << (n - 1);
        case 2:
            return 0x555555555555ul & all;
        case 3:
            return 0xAAAAAAAAAAAAul & all;
        case 4:
            return all & ~(1ul << (n / 2));
        case 5:
            return all;
        default:
            return (1ul << (n / 2)) | (1ul << (n / 2 + 1));
    }
}
inline symbol_idx_set mask_set(unsigned long m, int n)
{
    symbol_idx_set s;
    for (int i = 0; i < n; ++i) {
        if (m >> i & 1) {
            s.insert(s.end(), static_cast<std::size_t>(i));
        }
    }
    return s;
}

// ---- construction -------------------------------------------------------------
template <typename M>
void construct()
{
    using V = view<M>;
    using T = typename V::T;
    const int n = vf::cases(0, V::max_n);
    const auto ss = mkss(n);
    T e[MAXN], zero[MAXN] = {};
    const auto [lo, hi] = V::lims(n);
    const int bad = vf::cases(-1, n <= 3 ? n - 1 : 0);
    for (int i = 0; i < n; ++i) {
        e[i] = i == bad ? vf::any<T>() : vf::in<T>(lo, hi);
    }
    const bool in_lims = bad < 0 || (e[bad] >= lo && e[bad] <= hi);
    M m;
    VF_CATCH(er, m = V::make(e, n));
    vf_check(er == (in_lims ? vf::none : vf::overflow), "construction fails exactly when an exponent is out of limits");
    if (in_lims) {
        vf_check(V::is(m, e, n), "construction from iterator and size stores the exponents");
        std::forward_list<T> l(e, e + n);
        vf_check(V::is(M(l.begin(), l.end()), e, n), "construction from a pair of iterators stores the exponents");
        vf_check(V::is(M(l), e, n), "construction from a range stores the exponents");
        vf_check(key_is_compatible(m, ss), "the result is compatible with the symbol set");
        M m2(m);
        vf_check(V::is(m2, e, n) && m2 == m, "copies are equal");
    }
    vf_check(V::is(M(ss), zero, n), "construction from a symbol set yields the unit monomial");
}

// ---- equality, hash, identity ---------------------------------------------------
template <typename M>
void equality()
{
    using V = view<M>;
    const int n = vf::cases(0, V::max_n);
    const auto ss = mkss(n);
    any_mono<M> a(n), b(n);
    bool eq = true, one = true;
    for (int i = 0; i < n; ++i) {
        eq = eq & (a.e[i] == b.e[i]);
        one = one & (a.e[i] == 0);
    }
    vf_check((a.m == b.m) == eq, "monomials are equal exactly when their exponents are");
    vf_check((a.m != b.m) == !eq, "inequality is the negation of equality");
    if (eq) {
        vf_check(obake::hash(a.m) == obake::hash(b.m), "equal monomials hash equally");
    }
    vf_check(obake::key_is_one(a.m, ss) == one, "a monomial is one exactly when all its exponents are zero");
    vf_check(!obake::key_is_zero(a.m, ss), "a monomial is never zero");
}

// ---- multiplication ----------------------------------------------------------------
template <typename M>
void mul()
{
    using V = view<M>;
    using T = typename V::T;
    const int n = vf::cases(0, V::max_n);
    const auto ss = mkss(n);
    const auto [lo, hi] = V::lims(n);
    any_mono<M> a(n), b(n);
    Z sum[MAXN];
    for (int i = 0; i < n; ++i) {
        sum[i] = Z(a.e[i]) + Z(b.e[i]);
        vf_assume(sum[i] >= Z(lo));
        vf_assume(sum[i] <= Z(hi));
    }
    M out(ss);
    obake::monomial_mul(out, a.m, b.m, ss);
    vf_check(V::is(out, sum, n), "the product has the sums of the exponents");
    vf_check(obake::key_is_compatible(out, ss), "the product is compatible with the symbol set");
    vf_check(V::is(a.m, a.e, n) && V::is(b.m, b.e, n), "the operands are unchanged");
    vf_check(obake::hash(out) == obake::hash(a.m) + obake::hash(b.m), "the hash is homomorphic");
    vf_check(obake::monomial_hash_is_homomorphic<M>, "the hash is declared homomorphic");
    M o2(a.m);
    obake::monomial_mul(o2, o2, b.m, ss);
    vf_check(V::is(o2, sum, n), "the product can be written over an operand");
    M o3(b.m);
    obake::monomial_mul(o3, a.m, o3, ss);
    vf_check(V::is(o3, sum, n), "the product can be written over the second operand");
}
template <typename M>
void square()
{
    using V = view<M>;
    const int n = vf::cases(0, V::max_n);
    const auto ss = mkss(n);
    const auto [lo, hi] = V::lims(n);
    any_mono<M> a(n);
    Z sum[MAXN];
    for (int i = 0; i < n; ++i) {
        sum[i] = Z(a.e[i]) + Z(a.e[i]);
        vf_assume(sum[i] >= Z(lo));
        vf_assume(sum[i] <= Z(hi));
    }
    M o(a.m);
    obake::monomial_mul(o, o, o, ss);
    vf_check(V::is(o, sum, n), "a monomial can be squared in place");
}

// ---- degrees -------------------------------------------------------------------------
template <typename M>
void degree()
{
    using V = view<M>;
    using T = typename V::T;
    const int n = vf::cases(0, V::max_n);
    const auto ss = mkss(n);
    any_mono<M> a(n);
    Z d = 0;
    for (int i = 0; i < n; ++i) {
        d += Z(a.e[i]);
    }
    T r = 0;
    VF_CATCH(er, r = obake::key_degree(a.m, ss));
    if (er == vf::none) {
        vf_check(Z(r) == d, "the degree is the sum of the exponents");
    } else {
        vf_check(V::dynamic && er == vf::overflow, "the degree fails only on overflow");
        if (!vf::is_sgn<T>) {
            vf_check(d > Z(std::numeric_limits<T>::max()), "the degree of unsigned exponents fails exactly on overflow");
        }
    }
}
template <typename M>
void p_degree()
{
    using V = view<M>;
    using T = typename V::T;
    const int n = vf::cases(0, V::max_n);
    const auto ss = mkss(n);
    any_mono<M> a(n);
    const auto mask = any_mask(n);
    Z d = 0;
    for (int i = 0; i < n; ++i) {
        if (mask >> i & 1) {
            d += Z(a.e[i]);
        }
    }
    T r = 0;
    const auto si = mask_set(mask, n);
    VF_CATCH(er, r = obake::key_p_degree(a.m, si, ss));
    if (er == vf::none) {
        vf_check(Z(r) == d, "the partial degree is the sum of the selected exponents");
    } else {
        vf_check(V::dynamic && er == vf::overflow, "the partial degree fails only on overflow");
        if (!vf::is_sgn<T>) {
            vf_check(d > Z(std::numeric_limits<T>::max()), "fails exactly on overflow");
        }
    }
}

// ---- differentiation and integration ----------------------------------------------------
inline int any_index(int n)
{
    if (n <= 4) {
        const int i = vf::cases(0, 3);
        vf_assume(i < n);
        return i;
    }
    switch (vf::cases(0, 3)) {
        case 0:
            return 0;
        case 1:
            return n / 2;
        case 2:
            return n - 1;
        default:
            return n - 2;
    }
}
template <typename M>
void diff()
{
    using V = view<M>;
    using T = typename V::T;
    const int n = vf::cases(1, V::max_n);
    const auto ss = mkss(n);
    const auto [lo, hi] = V::lims(n);
    any_mono<M> a(n);
    const int k = any_index(n);
    Z x[MAXN];
    for (int i = 0; i < n; ++i) {
        x[i] = Z(a.e[i]);
    }
    std::pair<T, M> r;
    VF_CATCH(er, r = obake::monomial_diff(a.m, static_cast<std::size_t>(k), ss));
    if (a.e[k] == 0) {
        vf_check(er == vf::none && r.first == 0, "the derivative of a constant has coefficient zero");
        vf_check(V::is(r.second, x, n), "and the same monomial");
    } else if (a.e[k] == lo) {
        vf_check(er == vf::overflow, "an exponent below the limits is an error");
    } else {
        x[k] -= 1;
        vf_check(er == vf::none, "the derivative exists otherwise");
        vf_check(r.first == a.e[k], "the coefficient is the exponent");
        vf_check(V::is(r.second, x, n), "only the exponent of the variable is decreased");
    }
}
template <typename M>
void integrate()
{
    using V = view<M>;
    using T = typename V::T;
    const int n = vf::cases(1, V::max_n);
    const auto ss = mkss(n);
    const auto [lo, hi] = V::lims(n);
    any_mono<M> a(n);
    const int k = any_index(n);
    Z x[MAXN];
    for (int i = 0; i < n; ++i) {
        x[i] = Z(a.e[i]);
    }
    std::pair<T, M> r;
    VF_CATCH(er, r = obake::monomial_integrate(a.m, static_cast<std::size_t>(k), ss));
    if (vf::is_sgn<T> && a.e[k] == T(-1)) {
        vf_check(er == vf::domain, "integrating the power minus one is an error");
    } else if (a.e[k] == hi) {
        vf_check(er == vf::overflow, "an exponent above the limits is an error");
    } else {
        x[k] += 1;
        vf_check(er == vf::none, "the integral exists otherwise");
        vf_check(Z(r.first) == x[k], "the divisor is the new exponent");
        vf_check(V::is(r.second, x, n), "only the exponent of the variable is increased");
    }
}

// ---- exponentiation -----------------------------------------------------------------------
template <typename M>
void power()
{
    using V = view<M>;
    const int n = vf::cases(0, std::min(V::max_n, VF_POWN));
    const auto ss = mkss(n);
    const auto [lo, hi] = V::lims(n);
    any_mono<M> a(n);
    const auto k = vf::any<long>();
    Z x[MAXN];
    bool ok = true;
    for (int i = 0; i < n; ++i) {
        x[i] = Z(a.e[i]) * Z(k);
        if (x[i] < Z(lo) || x[i] > Z(hi)) {
            ok = false;
            break;
        }
    }
    M r, r2;
    VF_CATCH(er, r = obake::monomial_pow(a.m, k, ss));
    vf_check(er == (ok ? vf::none : vf::overflow), "exponentiation fails exactly when an exponent leaves the limits");
    VF_CATCH(er2, r2 = obake::monomial_pow(a.m, mppp::integer<1>(k), ss));
    vf_check(er2 == er, "the same for integer exponents");
    if (ok) {
        vf_check(V::is(r, x, n), "every exponent is multiplied by the power");
        vf_check(V::is(r2, x, n), "every exponent is multiplied by the integer power");
    }
}

// ---- evaluation and substitution: free commutative monoid over the powers ------------------
struct prod_t {
    Z ex[MAXN];
    int cnt[MAXN];
    int one;
    prod_t() : prod_t(1) {}
    explicit prod_t(int v) : one(v)
    {
        for (int i = 0; i < MAXN; ++i) {
            ex[i] = 0;
            cnt[i] = 0;
        }
    }
    friend bool operator==(const prod_t &, const prod_t &) = default;
};
// the value assigned to variable number id
struct value_t {
    int id;
    value_t() : id(0) {}
    explicit value_t(int i) : id(i) {}
};
inline prod_t &operator*=(prod_t &p, prod_t &&q)
{
    for (int i = 0; i < MAXN; ++i) {
        p.ex[i] += q.ex[i];
        p.cnt[i] += q.cnt[i];
    }
    p.one *= q.one;
    return p;
}
template <typename T>
inline prod_t pow(const value_t &v, const T &e)
{
    prod_t r(1);
    r.ex[v.id] = Z(e);
    r.cnt[v.id] = 1;
    return r;
}
template <typename M>
void evaluate()
{
    using V = view<M>;
    const int n = vf::cases(0, V::max_n);
    const auto ss = mkss(n);
    any_mono<M> a(n);
    symbol_idx_map<value_t> sm;
    for (int i = 0; i < n; ++i) {
        sm.emplace_hint(sm.end(), static_cast<std::size_t>(i), value_t(n - 1 - i));
    }
    const prod_t r = obake::key_evaluate(a.m, sm, ss);
    vf_check(r.one == 1, "evaluation starts from one");
    for (int i = 0; i < n; ++i) {
        vf_check(r.cnt[n - 1 - i] == 1 && r.ex[n - 1 - i] == Z(a.e[i]),
                 "each value is raised once to the exponent of its variable");
    }
}
template <typename M>
void subs()
{
    using V = view<M>;
    const int n = vf::cases(0, V::max_n);
    const auto ss = mkss(n);
    any_mono<M> a(n);
    const auto mask = any_mask(n);
    symbol_idx_map<value_t> sm;
    Z x[MAXN];
    for (int i = 0; i < n; ++i) {
        x[i] = Z(a.e[i]);
        if (mask >> i & 1) {
            sm.emplace_hint(sm.end(), static_cast<std::size_t>(i), value_t(i));
            x[i] = 0;
        }
    }
    const auto r = obake::monomial_subs(a.m, sm, ss);
    vf_check(r.first.one == 1, "substitution starts from one");
    for (int i = 0; i < n; ++i) {
        const bool in = mask >> i & 1;
        vf_check(r.first.cnt[i] == (in ? 1 : 0) && r.first.ex[i] == (in ? Z(a.e[i]) : Z(0)),
                 "each substituted value is raised once to the exponent of its variable");
    }
    vf_check(V::is(r.second, x, n), "the substituted variables get exponent zero, the others keep theirs");
}

// ---- symbol merging and trimming ---------------------------------------------------------------
template <typename M>
void merge()
{
    using V = view<M>;
    const int N = vf::cases(0, V::max_n);
    const auto mask = any_mask(N); // which of the N merged symbols the monomial has
    symbol_set ss;
    symbol_idx_map<symbol_set> ins;
    int n = 0;
    for (int i = 0; i < N; ++i) {
        if (mask >> i & 1) {
            ss.insert(ss.end(), std::string(nm(i)));
            ++n;
        } else {
            ins[static_cast<std::size_t>(n)].insert(std::string(nm(i)));
        }
    }
    any_mono<M> a(n);
    const auto [lo, hi] = V::lims(N);
    Z x[MAXN];
    bool ok = true;
    int j = 0;
    for (int i = 0; i < N; ++i) {
        x[i] = mask >> i & 1 ? Z(a.e[j++]) : Z(0);
    }
    for (int i = 0; i < N; ++i) {
        if (x[i] < Z(lo) || x[i] > Z(hi)) {
            ok = false;
            break;
        }
    }
    M r;
    VF_CATCH(er, r = obake::key_merge_symbols(a.m, ins, ss));
    vf_check(er == (ok ? vf::none : vf::overflow), "merging fails exactly when an exponent leaves the limits");
    if (ok) {
        vf_check(V::is(r, x, N), "new symbols get exponent zero, the others keep theirs");
        vf_check(obake::key_merge_symbols(a.m, ins, ss) == r, "merging again yields the same");
    }
}
template <typename M>
void trim()
{
    using V = view<M>;
    const int n = vf::cases(0, V::max_n);
    const auto ss = mkss(n);
    any_mono<M> a(n);
    const auto mask = any_mask(n);
    Z x[MAXN];
    int k = 0;
    for (int i = 0; i < n; ++i) {
        if (!(mask >> i & 1)) {
            x[k++] = Z(a.e[i]);
        }
    }
    // fewer symbols never have narrower limits
    const M r = obake::key_trim(a.m, mask_set(mask, n), ss);
    vf_check(V::is(r, x, k), "trimming removes exactly the selected exponents");
}
template <typename M>
void trim_identify()
{
    using V = view<M>;
    const int n = vf::cases(0, V::max_n < 5 ? V::max_n : 5);
    const auto ss = mkss(n);
    any_mono<M> a(n);
    std::vector<int> v(static_cast<std::size_t>(n));
    int old[MAXN];
    for (int i = 0; i < n; ++i) {
        old[i] = vf::any<int>();
        v[static_cast<std::size_t>(i)] = old[i];
    }
    obake::key_trim_identify(v, a.m, ss);
    vf_check(v.size() == static_cast<std::size_t>(n), "one flag per symbol");
    for (int i = 0; i < n; ++i) {
        vf_check(v[static_cast<std::size_t>(i)] == (a.e[i] != 0 ? 0 : old[i]),
                 "exactly the flags of symbols with nonzero exponents are cleared");
    }
}

// ---- overflow check over two ranges ----------------------------------------------------------------
template <typename C, typename M>
inline void append(C &c, const M &m)
{
    if constexpr (std::is_same_v<C, std::forward_list<M>>) {
        c.push_front(m);
    } else {
        c.push_back(m);
    }
}
// degrees overflow on their own only with packs of size one and more than two variables
template <typename M, int K1, int K2, typename C>
void range_check_impl(int n, bool same = false)
{
    using V = view<M>;
    using T = typename V::T;
    const auto ss = mkss(n);
    const auto [lo, hi] = V::lims(n);
    T e1[K1 + 1][MAXN], e2[K2 + 1][MAXN];
    C r1, r2;
    for (int k = 0; k < K1; ++k) {
        any_mono<M> a(n, same);
        std::copy(a.e, a.e + n, e1[k]);
        append(r1, a.m);
    }
    for (int k = 0; k < K2; ++k) {
        any_mono<M> a(n, same);
        std::copy(a.e, a.e + n, e2[k]);
        append(r2, a.m);
    }
    bool ok = true;
    for (int k = 0; k < K1; ++k) {
        for (int l = 0; l < K2; ++l) {
            Z d = 0;
            for (int i = 0; i < n; ++i) {
                const Z s = Z(e1[k][i]) + Z(e2[l][i]);
                ok &= s >= Z(lo) && s <= Z(hi);
                d += s;
            }
            if (V::dynamic) {
                ok &= d >= Z(std::numeric_limits<T>::min()) && d <= Z(std::numeric_limits<T>::max());
            }
        }
    }
    const bool r = obake::monomial_range_overflow_check(r1, r2, ss);
    vf_check(r == ok, "the check succeeds exactly when no product of the two ranges overflows");
}
// the same through the parallel branch: ranges of more than 5000 elements, of
// which two, in different pieces, are arbitrary and the others are one
template <typename M, bool Second, int N = 1>
void range_check_par()
{
    using V = view<M>;
    using T = typename V::T;
    const int n = N;
    vf_tbb::mode = 3;
    vf_tbb::min_piece = 4998;
    const auto ss = mkss(n);
    const auto [lo, hi] = V::lims(n);
    const M one(ss);
    any_mono<M> a(n, true), b(n, true), c(n, true);
    // ranges of references
    std::vector<const M *> p1(5001, &one), p2(1, &c.m);
    // the pieces are [1, 4999), [4999, 5000) and [5000, 5001); the second one continues from the first
    p1[4998] = &a.m;
    p1[5000] = &b.m;
    const auto deref = [](const M *p) -> const M & { return *p; };
    const auto r1 = obake::detail::make_range(boost::make_transform_iterator(p1.cbegin(), deref),
                                              boost::make_transform_iterator(p1.cend(), deref));
    const auto r2 = obake::detail::make_range(boost::make_transform_iterator(p2.cbegin(), deref),
                                              boost::make_transform_iterator(p2.cend(), deref));
    const auto sum_ok = [&, lo = lo, hi = hi](const T *x) {
        bool g = true;
        Z d = 0;
        for (int i = 0; i < n; ++i) {
            const Z s = Z(x == nullptr ? T(0) : x[i]) + Z(c.e[i]);
            g &= s >= Z(lo) && s <= Z(hi);
            d += s;
        }
        return g
               && (!V::dynamic
                   || (d >= Z(std::numeric_limits<T>::min()) && d <= Z(std::numeric_limits<T>::max())));
    };
    const bool ok = sum_ok(a.e) && sum_ok(b.e) && sum_ok(nullptr);
    const bool r = Second ? obake::monomial_range_overflow_check(r2, r1, ss)
                          : obake::monomial_range_overflow_check(r1, r2, ss);
    vf_check(r == ok, "the check succeeds exactly when no product of the two ranges overflows");
}
#endif
