// Contracts of exponentiation (obake/series.hpp, obake/polynomials/polynomial.hpp) and of its global cache
// (src/series.cpp).
#include "powers.hpp"

#include "src/detail/fw_utils.cpp"
#include "src/detail/hc.cpp"
#include "src/detail/to_string.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

// any number of cores
unsigned std::thread::hardware_concurrency() noexcept
{
    return 8;
}

namespace vk
{
// a series that is not a polynomial
using PT = obake::series<mono, cf, tag>;
} // namespace vk

using namespace vk;

template <typename E>
static E any_exponent()
{
    if constexpr (std::is_same_v<E, ex>) {
        return ex{vf::any<u32>()};
    } else {
        return vf::any<E>();
    }
}
template <typename Ser>
static void constant(const Ser &r, u64 c)
{
    wf(r);
    const mono x = any_mono(NS, 2 * elimit);
    vf_check(at(r, x) == sel(x == mono(), c), "the power of a coefficient is the coefficient of the unitary key");
}

// Powers of coefficients.
template <typename Ser, typename E, bool Move>
static void single()
{
    const int n = vf::cases(0, 1), m = vf::cases(0, 1);
    any_powers();
    Ser a;
    const pspec sa = arbitrary_p(a, names(m ? 3 : 0), m, n, 0, 1);
    const E e = any_exponent<E>();
    if constexpr (Move) {
        const Ser r = obake::pow(std::move(a), E(e));
        constant(r, power(n, number(e)));
    } else {
        const Ser r = obake::pow(std::as_const(a), e);
        constant(r, power(n, number(e)));
        same(a, sa);
    }
    vf_check(vf_mutex_held() == 0, "no lock is held afterwards");
}
VF_INST(single_p_ull, single<P, unsigned long long, false>)
VF_INST(single_p_ull_move, single<P, unsigned long long, true>)
VF_INST(single_p_ex, single<P, ex, false>)
VF_INST(single_t_int, single<PT, int, false>)
VF_INST(single_t_ex, single<PT, ex, true>)

// Powers of a single term.
static void term()
{
    const int e = vf::cases(0, 4), m = vf::cases(0, 1);
    any_powers();
    P a;
    const pspec sa = arbitrary_p(a, names(m ? 5 : 1), m, 1, 100, 1);
    const P r = obake::pow(std::as_const(a), e);
    wf(r);
    const mono x = any_mono(NS, 2 * elimit);
    const u32 n = static_cast<u32>(e);
    const mono k(sa.k[0].e[0] * n, sa.k[0].e[1] * n, 0);
    vf_check(at(r, x) == sel(x == k, power(1, n)), "the power of a term is that of its coefficient and of its monomial");
    same(a, sa);
}
VF_INST(term, term)

// Exponents that are not natural numbers.
template <typename Ser, typename E>
static void refused()
{
    const int n = vf::cases(1, 2);
    any_powers();
    Ser a;
    const pspec sa = arbitrary_p(a, names(3), n == 2, n, elimit / 2, 1);
    if (n == 1) {
        vf_assume(sa.k[0] != mono());
    }
    const E e = any_exponent<E>();
    constexpr bool never = std::is_same_v<Ser, PT> || std::is_same_v<E, ex>;
    if constexpr (!never) {
        vf_assume(e == 0 || e < E(0) || e > std::numeric_limits<unsigned>::max());
    }
    bool thrown = false;
    try {
        const Ser r = obake::pow(std::as_const(a), e);
        constant(r, 1);
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    vf_check(thrown == (number(e) != 0), "an invalid argument is signalled if the power cannot be computed");
    same(a, sa);
    vf_check(vf_mutex_held() == 0, "no lock is held afterwards");
}
VF_INST(refused_p_ull, refused<P, unsigned long long>)
VF_INST(refused_p_ll, refused<P, long long>)
VF_INST(refused_p_ex, refused<P, ex>)
VF_INST(refused_t_int, refused<PT, int>)
VF_INST(refused_t_ex, refused<PT, ex>)

// The cache: powers do not depend on what has been computed before.
static void is_power(const P &r, const poly &b, unsigned e, unsigned mask)
{
    const poly p = power_of(b, e);
    wf(r);
    const mono x = any_mono(NS, 2 * elimit);
    vf_check(at(r, x) == at(p, x), "natural powers are repeated products");
    vf_check(e == 0 || r.get_symbol_set() == names(mask), "natural powers have the symbols of the base");
    vf_check(vf_mutex_held() == 0, "no lock is held afterwards");
}
static P power_of(const P &a, unsigned e)
{
    return obake::pow(a, static_cast<unsigned long long>(e));
}
// the second base has the hash of the first one, or is the same
static constexpr u32 seconds[][2][2] = {{{1, 0}, {0, 0}}, {{0, 0}, {1, 0}}, {{0, 0}, {0, 1}}, {{3, 0}, {0, 0}}, {{1, 1}, {0, 0}}};
static void history()
{
    static const int exps[][3] = {{2, 1, 2}, {1, 2, 1}, {2, 0, 1}, {0, 1, 2}, {1, 1, 2}};
    const int *e = exps[vf::cases(0, 4)];
    const int q = vf::cases(0, 4);
    P a, b;
    const poly pa = base(a, 3, 0, mono(1, 0, 0), mono(0, 0, 0), 1),
               pb = base(b, q == 1 ? 1 : 3, q == 0, mono(seconds[q][0][0], seconds[q][0][1], 0),
                        mono(seconds[q][1][0], seconds[q][1][1], 0), 3);
    const unsigned mb = q == 1 ? 1 : 3;
    if (q == 0) {
        vf_assume((pa.c[0] != pb.c[0]) | (pa.c[1] != pb.c[1]));
    }
    is_power(power_of(a, e[0]), pa, e[0], 3);
    is_power(power_of(b, e[1]), pb, e[1], mb);
    if (q == 2) {
        obake::customisation::internal::clear_series_pow_map();
    }
    is_power(power_of(a, e[2]), pa, e[2], 3);
}
VF_INST(history, history)
// A coefficient operation throws: what is computed afterwards is not affected.
static void throws()
{
    const int f = vf::cases(0, 15);
    P a;
    const poly pa = base(a, 1, 0, mono(1, 0, 0), mono(0, 0, 0), 1);
    fuse = f;
    try {
        const P r = power_of(a, 2);
        vf_check(fuse >= 0, "exceptions are not swallowed");
        fuse = -1;
        is_power(r, pa, 2, 1);
    } catch (const oops &) {
        vf_check(fuse < 0, "only exceptions of the coefficients are thrown");
    }
    fuse = -1;
    vf_check(vf_mutex_held() == 0, "no lock is held afterwards");
    is_power(power_of(a, 2), pa, 2, 1);
}
VF_INST(throws, throws)
// The same base again, possibly in other segments.
static void again()
{
    const int l = vf::cases(0, 1), c = vf::cases(0, 1);
    P a, b;
    poly pa = base(a, 3, 0, mono(1, 0, 0), mono(0, 2, 0), 1);
    b.set_symbol_set(names(3));
    b.set_n_segments(static_cast<unsigned>(l));
    auto &st = b._get_s_table();
    for (int i = 1; i >= 0; --i) {
        st[hash(pa.k[i]) & (st.size() - 1)].try_emplace(pa.k[i], cf(cf::raw{}, pa.c[i], pa.id[i]));
    }
    is_power(power_of(a, 1), pa, 1, 3);
    if (c) {
        obake::customisation::internal::clear_series_pow_map();
    }
    is_power(power_of(b, 2), pa, 2, 3);
    is_power(power_of(a, 0), pa, 0, 3);
    is_power(power_of(a, 2), pa, 2, 3);
}
VF_INST(again, again)
