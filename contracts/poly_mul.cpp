// Contracts of polynomial multiplication, truncated or not (obake/polynomials/polynomial.hpp).
#include "poly.hpp"

#include "src/detail/fw_utils.cpp"
#include "src/detail/hc.cpp"
#include "src/detail/to_string.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

using namespace vk;

// any number of cores
static unsigned cores = 8;
unsigned std::thread::hardware_concurrency() noexcept
{
    return cores;
}

enum how { plain, total, partial };

template <how H, bool Move, typename A, typename B>
static auto multiply(A &a, B &b, int lim, const symbol_set &s)
{
    if constexpr (H == plain) {
        if constexpr (Move) {
            return std::move(a) * std::move(b);
        } else {
            return std::as_const(a) * std::as_const(b);
        }
    } else if constexpr (H == total) {
        return obake::polynomials::truncated_mul(a, b, lim);
    } else {
        return obake::polynomials::truncated_mul(a, b, lim, s);
    }
}

template <typename R>
static void is_product(const R &r, const pspec &a, const pspec &b, unsigned ma, unsigned mb, how h, int lim, unsigned dm)
{
    const unsigned m = ma | mb;
    const pspec ea = ext(a, ma, m), eb = ext(b, mb, m);
    wf(r);
    const mono x = any_mono(NS, 2 * elimit);
    u64 e = 0;
    for (int i = 0; i < a.n; ++i) {
        for (int j = 0; j < b.n; ++j) {
            const bool keep
                = h == plain || static_cast<int>(deg(ea.k[i], dm, m)) + static_cast<int>(deg(eb.k[j], dm, m)) <= lim;
            e += sel((mul(ea.k[i], eb.k[j]) == x) & keep, prod(a.id[i], b.id[j]));
        }
    }
    vf_check(at(r, x) == e, "the coefficient at every monomial is the sum of the products of the coefficients whose "
                            "monomials multiply to it, within the truncation limit");
    vf_check(r.get_symbol_set() == names(m), "the symbols are merged");
}

static int limit(how h)
{
    return h == plain ? 0 : vf::in<int>(-10, 5000);
}

// Two operands over the same two symbols. The simple algorithm.
template <how H, typename A, typename B, bool Move = false>
static void simple()
{
    static const int sizes[][3] = {{1, 1, 0}, {2, 1, 0}, {1, 2, 1}, {2, 2, 0}, {0, 1, 0}, {1, 0, 2}, {0, 0, 1}, {3, 1, 0}, {1, 3, 0}};
    const int *n = sizes[vf::cases(0, H == plain ? 8 : 6)];
    vf_umap::order = n[1] == 1;
    A a;
    B b;
    const pspec sa = arbitrary_p(a, names(5), n[2], n[0], elimit / 2, 1);
    const pspec sb = arbitrary_p(b, names(5), 0, n[1], elimit / 2, 8);
    const int lim = limit(H);
    const unsigned dm = H == partial ? (n[2] ? 7 : 4) : 7;
    const auto r = multiply<H, Move>(a, b, lim, names(dm));
    is_product(r, sa, sb, 5, 5, H, lim, dm);
    if (!Move) {
        same(a, sa);
        same(b, sb);
    }
}

// The parallel algorithm with 2**l segments.
template <how H, typename A, typename B>
static void segmented(int na, int nb, unsigned l, const std::size_t *res)
{
    // such that the estimated size of the product is 1.5 * 2**(l - 1) times the size of a segment
    bsize = (std::size_t(153600) << l) / (2u * static_cast<unsigned>(na * nb));
    A a;
    B b;
    const pspec sa = arbitrary_p(a, names(5), 0, na, elimit / 2, 1);
    const pspec sb = arbitrary_p(b, names(5), 0, nb, elimit / 2, 8);
    if (res != nullptr) {
        for (int i = 0; i < na; ++i) {
            vf_assume((hash(sa.k[i]) & ((1u << l) - 1u)) == *res++);
        }
        for (int i = 0; i < nb; ++i) {
            vf_assume((hash(sb.k[i]) & ((1u << l) - 1u)) == *res++);
        }
    }
    const int lim = limit(H);
    const unsigned dm = H == partial ? (l & 1u ? 7 : 4) : 7;
    const auto r = multiply<H, false>(a, b, lim, names(dm));
    is_product(r, sa, sb, 5, 5, H, lim, dm);
}
static const int mt_sizes[][2] = {{2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}};
// any segments for the terms of the operands
template <how H, typename A, typename B>
static void mt()
{
#if defined(VF_THOROUGH)
    const int l = vf::cases(0, 2), n = l == 2 ? vf::cases(0, 1) : vf::cases(0, 4);
#else
    const int l = H == plain ? vf::cases(0, 2) : vf::cases(0, 1),
              n = l == 2 || (l == 1 && H != plain) ? vf::cases(0, 1) : l == 1 ? vf::cases(1, 3) : vf::cases(0, 4);
#endif
    segmented<H, A, B>(mt_sizes[n][0], mt_sizes[n][1], static_cast<unsigned>(l), nullptr);
}
// selected segments for the terms of the operands
template <how H, typename A, typename B>
static void mt_seg()
{
#if defined(VF_THOROUGH)
    constexpr int last = 79;
#else
    constexpr int last = H == plain ? 7 : 1;
#endif
    const int l = H == plain ? vf::cases(2, 4) : vf::cases(1, 3), n = vf::cases(0, 4), c = vf::cases(0, last);
    const int na = mt_sizes[n][0], nb = mt_sizes[n][1];
    const u32 mod = u32(1) << l;
    u64 g = static_cast<u64>(c * 97 + n * 13 + l) * 2654435761u + 12345u;
    std::size_t res[4];
    for (int i = 0; i < na + nb; ++i) {
        g = g * 6364136223846793005u + 1442695040888963407u;
        res[i] = (g >> 40) & (mod - 1);
    }
    if (na == 2 && nb == 2 && c % 2 == 0) {
        // two products in the same segment
        res[3] = (res[0] + res[2] - res[1]) & (mod - 1);
    } else if (na + nb == 4 && c % 2 == 0) {
        res[na == 3 ? 1 : 3] = res[na == 3 ? 0 : 1];
    }
    segmented<H, A, B>(na, nb, static_cast<unsigned>(l), res);
}
VF_INST(mt_seg_11, mt_seg<plain, P, P>)
VF_INST(tmt_seg_11, mt_seg<total, P, P>)
VF_INST(pmt_seg_11, mt_seg<partial, P, P>)
VF_INST(mt_seg_22, mt_seg<plain, P2, P2>)
VF_INST(mt_seg_12, mt_seg<plain, P, P2>)
VF_INST(mt_11, mt<plain, P, P>)
VF_INST(tmt_11, mt<total, P, P>)
VF_INST(pmt_11, mt<partial, P, P>)
VF_INST(simple_11, simple<plain, P, P>)
VF_INST(simple_move_11, simple<plain, P, P, true>)
VF_INST(simple_22, simple<plain, P2, P2>)
VF_INST(simple_12, simple<plain, P, P2>)
VF_INST(simple_21, simple<plain, P2, P>)
VF_INST(tsimple_11, simple<total, P, P>)
VF_INST(psimple_11, simple<partial, P, P>)

// Different symbol sets.
template <how H>
static void symbols()
{
    static const unsigned sets[][2] = {{1, 2}, {2, 1}, {3, 6}, {5, 2}, {2, 5}, {7, 3}, {1, 0}, {0, 4}, {6, 5}};
    static const int sizes[][2] = {{1, 1}, {2, 1}, {1, 2}};
    const unsigned *m = sets[vf::cases(0, 8)];
    const int *n = sizes[vf::cases(0, 2)];
    P a, b;
    const pspec sa = arbitrary_p(a, names(m[0]), m[0] == 3, n[0], elimit / 2, 1);
    const pspec sb = arbitrary_p(b, names(m[1]), m[1] == 3, n[1], elimit / 2, 8);
    const int lim = limit(H);
    const unsigned dm = H == partial ? (m[0] == 3 ? 4 : 3) : 7;
    const auto r = multiply<H, false>(a, b, lim, names(dm));
    is_product(r, sa, sb, m[0], m[1], H, lim, dm);
    same(a, sa);
    same(b, sb);
}
VF_INST(syms_11, symbols<plain>)
VF_INST(tsyms_11, symbols<total>)
VF_INST(psyms_11, symbols<partial>)

// Exponents that are too large: an overflow is signalled exactly when a product of the monomials does not fit.
template <how H>
static void overflow()
{
    const int n = vf::cases(0, 3);
    static const int sizes[][2] = {{1, 1}, {2, 1}, {1, 2}, {2, 2}};
    const int na = sizes[n][0], nb = sizes[n][1];
    if ((n == 1 || n == 2) && vf::cases(0, 1) != 0) {
        bsize = 50000;
    }
    P a, b;
    const pspec sa = arbitrary_p(a, names(1), 0, na, elimit, 1);
    const pspec sb = arbitrary_p(b, names(1), 0, nb, elimit, 8);
    bool fits = true;
    for (int i = 0; i < na; ++i) {
        for (int j = 0; j < nb; ++j) {
            fits &= sa.k[i].e[0] + sb.k[j].e[0] <= elimit;
        }
    }
    bool thrown = false;
    try {
        const auto r = multiply<H, false>(a, b, elimit + elimit, names(1));
        wf(r);
    } catch (const std::overflow_error &) {
        thrown = true;
    }
    vf_check(thrown == !fits, "an overflow error is raised exactly if a product of the monomials overflows");
    same(a, sa);
    same(b, sb);
}
VF_INST(overflow_11, overflow<plain>)
VF_INST(toverflow_11, overflow<total>)

// A coefficient operation throws.
template <how H>
static void throws()
{
    const int n = vf::cases(0, 2);
    static const int sizes[][2] = {{2, 1}, {1, 2}, {2, 2}};
    const int na = sizes[n][0], nb = sizes[n][1];
    if (vf::cases(0, 1) != 0) {
        bsize = 100000;
    }
    P a, b;
    const pspec sa = arbitrary_p(a, names(1), 0, na, elimit / 2, 1);
    const pspec sb = arbitrary_p(b, names(1), 0, nb, elimit / 2, 8);
    const int f = vf::cases(0, 11);
    fuse = f;
    try {
        const auto r = multiply<H, false>(a, b, elimit, names(1));
        vf_check(fuse >= 0, "exceptions are not swallowed");
        fuse = -1;
        wf(r);
    } catch (const oops &) {
        vf_check(fuse < 0, "only exceptions of the coefficients are thrown");
    }
    fuse = -1;
    same(a, sa);
    same(b, sb);
}
VF_INST(throws_11, throws<plain>)
VF_INST(tthrows_11, throws<total>)
