// Contracts of degrees, truncation and filtering (obake/series.hpp, obake/polynomials/polynomial.hpp).
#include "poly.hpp"

#include <obake/math/degree.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>

#include "src/detail/fw_utils.cpp"
#include "src/detail/hc.cpp"
#include "src/detail/to_string.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

namespace vk
{
// Coefficients with a degree: any function at all.
using dc = cf_t<3>;
inline int dtab[16], ptab[16];
inline unsigned p_mask = 0;
inline void any_degrees()
{
    for (int i = 0; i < 16; ++i) {
        dtab[i] = vf::any<int>();
        ptab[i] = vf::any<int>();
    }
}
inline int degree(const dc &c)
{
    burn();
    c.val();
    vf_check(c.id != 0, "degrees are those of the coefficients of the series");
    return dtab[c.id];
}
inline int p_degree(const dc &c, const symbol_set &s)
{
    burn();
    c.val();
    vf_check(c.id != 0, "degrees are those of the coefficients of the series");
    vf_check(s == names(p_mask), "partial degrees are with respect to the symbols asked for");
    return ptab[c.id];
}
// a key that has no degree
struct nodeg : mono {
    using mono::mono;
    nodeg() = default;
    nodeg(const mono &m) : mono(m) {}
};
inline int key_degree(const nodeg &, const symbol_set &) = delete;
inline int key_p_degree(const nodeg &, const symbol_idx_set &, const symbol_set &) = delete;
using PD = obake::polynomial<mono, dc>;
using PC = obake::series<nodeg, dc, tag>;
} // namespace vk

using namespace vk;
using i64 = std::int64_t;

template <typename Ser>
static i64 term_degree(const pspec &a, int i, unsigned m, unsigned p, bool part)
{
    using C = obake::series_cf_t<Ser>;
    i64 r = 0;
    if (!std::is_same_v<Ser, PC>) {
        r += part ? deg(a.k[i], p, m) : deg(a.k[i]);
    }
    if (std::is_same_v<C, dc>) {
        r += part ? ptab[a.id[i]] : dtab[a.id[i]];
    }
    return r;
}

static const unsigned sets[][2] = {{3, 2}, {5, 7}, {7, 5}, {1, 4}, {6, 0}, {2, 2}, {0, 3}};

template <typename Ser, bool Part>
static void degrees()
{
    const unsigned *z = sets[vf::cases(0, 6)];
    const unsigned m = z[0], p = z[1];
    const int n = vf::cases(0, m == 0 ? 1 : 3);
    vf_umap::order = n == 2;
    any_degrees();
    Ser a;
    const pspec sa = arbitrary_p(a, names(m), n == 2, n, elimit, 1);
    p_mask = p;
    bool fits = true;
    i64 r = 0;
    for (int i = 0; i < n; ++i) {
        const i64 d = term_degree<Ser>(sa, i, m, p, Part);
        fits &= (d >= std::numeric_limits<int>::min()) & (d <= std::numeric_limits<int>::max());
    }
    bool thrown = false;
    try {
        if constexpr (Part) {
            r = obake::p_degree(a, names(p));
        } else {
            r = obake::degree(a);
        }
    } catch (const std::overflow_error &) {
        thrown = true;
    }
    vf_check(thrown == !fits, "an overflow is signalled exactly if the degree of a term does not fit");
    if (!thrown) {
        bool some = n == 0 && r == 0, all = true;
        for (int i = 0; i < n; ++i) {
            const i64 d = term_degree<Ser>(sa, i, m, p, Part);
            some |= d == r;
            all &= d <= r;
        }
        vf_check(some & all, "the degree is the largest degree of the terms, and zero for an empty series");
    }
    same(a, sa);
}
VF_INST(deg_key, degrees<P, false>)
VF_INST(pdeg_key, degrees<P, true>)
VF_INST(deg_both, degrees<PD, false>)
VF_INST(pdeg_both, degrees<PD, true>)
VF_INST(deg_cf, degrees<PC, false>)
VF_INST(pdeg_cf, degrees<PC, true>)

// the terms of a specification that are kept
static pspec keep(const pspec &a, const bool *k)
{
    pspec r(a);
    for (int i = 0; i < a.n; ++i) {
        r.c[i] = sel(k[i], a.c[i]);
    }
    return r;
}

template <bool Part>
static void truncation()
{
    const unsigned *z = sets[vf::cases(0, 6)];
    const unsigned m = z[0], p = z[1];
    const int n = vf::cases(0, m == 0 ? 1 : 3);
    vf_umap::order = n == 2;
    P a;
    const pspec sa = arbitrary_p(a, names(m), n == 2, n, elimit, 1);
    const int lim = vf::any<int>();
    if constexpr (Part) {
        obake::truncate_p_degree(a, lim, names(p));
    } else {
        obake::truncate_degree(a, lim);
    }
    bool k[4];
    for (int i = 0; i < n; ++i) {
        k[i] = term_degree<P>(sa, i, m, p, Part) <= lim;
    }
    same(a, keep(sa, k));
    vf_check(a.get_symbol_set() == names(m), "truncation keeps the symbols");
}
VF_INST(trunc, truncation<false>)
VF_INST(ptrunc, truncation<true>)

// Filtering by any predicate.
template <typename Ser>
struct pred {
    const pspec *a;
    const bool *k;
    int *fuse;
    template <typename T>
    bool operator()(const T &t) const
    {
        if ((*fuse)-- == 0) {
            throw oops{};
        }
        bool r = false, known = false;
        for (int i = 0; i < a->n; ++i) {
            const bool me = (t.first == a->k[i]) & (t.second.val() == a->c[i]);
            known |= me;
            r |= me & k[i];
        }
        vf_check(known, "the predicate is evaluated on the terms of the series");
        return r;
    }
};
template <typename Ser, bool InPlace>
static void filters()
{
    const unsigned *z = sets[vf::cases(0, 2)];
    const unsigned m = z[0];
    const int n = vf::cases(0, 3), f = vf::cases(-1, n - 1);
    vf_umap::order = n == 2;
    Ser a;
    const pspec sa = arbitrary_p(a, names(m), n == 2, n, elimit, 1);
    if constexpr (std::is_same_v<Ser, PC>) {
        a.tag().n = 42;
    }
    bool k[4];
    for (int i = 0; i < n; ++i) {
        k[i] = vf::any<bool>();
    }
    int left = f;
    const pred<Ser> pr{&sa, k, &left};
    try {
        if constexpr (InPlace) {
            obake::filter(a, pr);
            same(a, keep(sa, k));
        } else {
            const auto r = obake::filtered(a, pr);
            same(r, keep(sa, k));
            vf_check(r.get_symbol_set() == names(m), "filtering keeps the symbols");
            if constexpr (std::is_same_v<Ser, PC>) {
                vf_check(r.tag().n == 42, "filtering keeps the tag");
            }
        }
        vf_check(f < 0, "exceptions of the predicate are not swallowed");
    } catch (const oops &) {
        vf_check(f >= 0, "only exceptions of the predicate are thrown");
        wf(a);
    }
    if (!InPlace) {
        same(a, sa);
    }
    vf_check(a.get_symbol_set() == names(m), "filtering keeps the symbols");
    if constexpr (std::is_same_v<Ser, PC>) {
        vf_check(a.tag().n == 42, "filtering keeps the tag");
    }
}
VF_INST(filter_p, filters<P, true>)
VF_INST(filtered_p, filters<P, false>)
VF_INST(filter_c, filters<PC, true>)
VF_INST(filtered_c, filters<PC, false>)
