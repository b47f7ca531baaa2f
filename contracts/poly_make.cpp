// Contracts of the construction of polynomials from generators (make_polynomials, obake/polynomials/polynomial.hpp)
// with abstract and with the real monomials, and of the sizes of terms and series (byte_size).
#include "poly.hpp"

#include <string_view>

#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>

#include "src/detail/fw_utils.cpp"
#include "src/detail/hc.cpp"
#include "src/detail/to_string.cpp"
#include "src/kpack.cpp"
#include "src/polynomials/d_packed_monomial.cpp"
#include "src/polynomials/packed_monomial.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

using namespace vk;
using std::int64_t;

// the exponents of a monomial over n symbols
template <typename K>
static int64_t expo(const K &k, unsigned n, unsigned i)
{
    if constexpr (std::is_same_v<K, mono>) {
        return k.e[i];
    } else if constexpr (requires { k.get_value(); }) {
        obake::kunpacker<typename K::value_type> u(k.get_value(), n);
        typename K::value_type e = 0;
        for (unsigned j = 0; j <= i; ++j) {
            u >> e;
        }
        return static_cast<int64_t>(e);
    } else {
        typename K::value_type e = 0;
        obake::kunpacker<typename K::value_type> u(k._container()[i / K::psize], K::psize);
        for (unsigned j = 0; j <= i % K::psize; ++j) {
            u >> e;
        }
        return static_cast<int64_t>(e);
    }
}
// p is the generator at position idx of the symbol set ss
template <typename Poly>
static void is_gen(const Poly &p, const symbol_set &ss, unsigned idx)
{
    vf_check(p.get_symbol_set() == ss, "a generator is over the given symbols");
    vf_check(p.size() == 1, "a generator has one term");
    if (p.size() != 1) {
        return;
    }
    const auto &t = *p.begin();
    const auto n = static_cast<unsigned>(ss.size());
    for (unsigned i = 0; i < n; ++i) {
        vf_check(expo(t.first, n, i) == (i == idx), "a generator is its symbol to the power one");
    }
    vf_check(obake::key_is_compatible(t.first, ss), "the key is compatible with the symbols");
    if constexpr (std::is_same_v<obake::series_cf_t<Poly>, cf>) {
        vf_check(t.second.v == 1, "the coefficient of a generator is one");
        vf_check(p._get_s_table().size() == (std::size_t(1) << p.get_s_size()), "the series is well-formed");
    } else {
        vf_check(t.second == 1, "the coefficient of a generator is one");
    }
}
template <typename Poly>
static void is_gen(const Poly &p, const char *n)
{
    const symbol_set ss{std::string(n)};
    is_gen(p, ss, 0);
}

// every subset of three symbols, up to three names in any order and of any type
static const char *const nm[] = {"b", "d", "f"};
static symbol_set subset(unsigned m)
{
    symbol_set s;
    for (unsigned i = 0; i < 3; ++i) {
        if (m >> i & 1u) {
            s.insert(s.end(), std::string(nm[i]));
        }
    }
    return s;
}
static unsigned pos(unsigned m, unsigned i)
{
    unsigned p = 0;
    for (unsigned j = 0; j < i; ++j) {
        p += m >> j & 1u;
    }
    return p;
}
template <typename Poly>
static void several()
{
    const unsigned m = static_cast<unsigned>(vf::cases(0, 7));
    const unsigned i = static_cast<unsigned>(vf::cases(0, 2)), j = static_cast<unsigned>(vf::cases(0, 2));
    const symbol_set ss = subset(m);
    const bool ok = (m >> i & 1u) && (m >> j & 1u);
    VF_CATCH(th, {
        const std::string a(nm[i]);
        const char *b = nm[j];
        const auto r = obake::make_polynomials<Poly>(ss, a, b, std::string_view(nm[i]));
        static_assert(std::is_same_v<decltype(r), const std::array<Poly, 3>>);
        is_gen(r[0], ss, pos(m, i));
        is_gen(r[1], ss, pos(m, j));
        is_gen(r[2], ss, pos(m, i));
    });
    vf_check(th == (ok ? vf::none : vf::invalid_argument),
             "an invalid argument is signalled exactly if a generator is not in the symbol set");
    // without a symbol set: each is over its own symbol
    const auto q = obake::make_polynomials<Poly>(std::string(nm[i]), nm[j]);
    is_gen(q[0], nm[i]);
    is_gen(q[1], nm[j]);
}
// any name of at most two characters against a symbol set
static void any_name()
{
    const int len = vf::cases(0, 2);
    char c[3] = {};
    for (int i = 0; i < len; ++i) {
        c[i] = vf::in<char>('a', 'g');
    }
    const symbol_set ss{"bb", "d", "dd", "f"};
    int at = -1;
    if (len == 1) {
        at = c[0] == 'd' ? 1 : c[0] == 'f' ? 3 : -1;
    } else if (len == 2 && c[0] == c[1]) {
        at = c[0] == 'b' ? 0 : c[0] == 'd' ? 2 : -1;
    }
    using Q = obake::polynomial<obake::packed_monomial<std::int64_t>, cf>;
    VF_CATCH(th, {
        const std::string s(c, static_cast<std::size_t>(len));
        const auto r = obake::make_polynomials<Q>(ss, s);
        vf_check(at >= 0, "generators that are not in the symbol set are refused");
        if (at >= 0) {
            is_gen(r[0], ss, static_cast<unsigned>(at));
        }
    });
    vf_check(th == (at >= 0 ? vf::none : vf::invalid_argument),
             "an invalid argument is signalled exactly if the generator is not in the symbol set");
}
using pm = obake::packed_monomial<std::int64_t>;
using pu = obake::packed_monomial<std::uint32_t>;
using d1 = obake::d_packed_monomial<std::int32_t, 1>;
using d2 = obake::d_packed_monomial<std::int64_t, 2>;
VF_INST(several_abstract, several<P>)
VF_INST(several_i64, several<obake::polynomial<pm, mppp::integer<1>>>)
VF_INST(several_u32, several<obake::polynomial<pu, mppp::rational<1>>>)
VF_INST(several_i32_1, several<obake::polynomial<d1, double>>)
VF_INST(several_i64_2, several<obake::polynomial<d2, cf>>)
VF_INST(name, any_name)
