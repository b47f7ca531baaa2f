// Contract of the size of series in memory (byte_size, obake/series.hpp and the monomials). The sizes that keys,
// coefficients and the tag report are arbitrary.
#include "series.hpp"

#include <obake/byte_size.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>

#include "src/detail/fw_utils.cpp"
#include "src/detail/to_string.cpp"
#include "src/kpack.cpp"
#include "src/polynomials/d_packed_monomial.cpp"
#include "src/polynomials/packed_monomial.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

namespace vk
{
// what is reported: the size of the object, or anything
inline bool arb = false;
inline std::size_t byte_size(const key &k)
{
    return arb ? k.e : sizeof(k);
}
inline std::size_t byte_size(const cf &c)
{
    return arb ? c.val() : sizeof(c);
}
inline std::size_t byte_size(const tag &t)
{
    return arb ? static_cast<std::size_t>(t.n) : sizeof(t);
}
} // namespace vk
using namespace vk;

static void series_size()
{
    static const int sel[][2] = {{0, 0}, {1, 0}, {2, 0}, {3, 0}, {0, 1}, {1, 1}, {2, 1}, {2, 2}};
    const int q = vf::cases(0, 7);
    const int n = sel[q][0];
    const unsigned l = static_cast<unsigned>(sel[q][1]);
    const symbol_set ss = names(3);
    vf_tbb::joins = l != 0 ? vf::cases(0, 2) : 1;
    S s;
    const spec m = arbitrary(s, ss, l, n);
    const int t = vf::any<int>();
    s.tag().n = t;
    arb = false;
    const std::size_t a = obake::byte_size(s);
    vf_check(a >= sizeof(S) + static_cast<std::size_t>(n) * (sizeof(key) + sizeof(cf)),
             "the size covers the series and each of its terms");
    arb = true;
    const std::size_t b = obake::byte_size(s);
    std::size_t d = static_cast<std::size_t>(t) - sizeof(tag);
    for (int i = 0; i < n; ++i) {
        d += (m.k[i] - sizeof(key)) + (m.c[i] - sizeof(cf));
    }
    vf_check(b - a == d, "the sizes of all keys, coefficients and of the tag are counted once");
    denotes(s, m);
    // moving terms between tables and copying keep the sum
    const S c(s);
    vf_check(obake::byte_size(c) - b == 0, "a copy has the size of the original");
}
VF_INST(series_size, series_size)

template <typename M>
static void mono()
{
    const int n = vf::cases(0, 9);
    int v[9];
    for (int i = 0; i < n; ++i) {
        v[i] = 0;
    }
    const M m(v, v + n);
    std::size_t dyn = 0;
    if constexpr (requires { m._container(); }) {
        const auto *d = reinterpret_cast<const char *>(m._container().data()), *o = reinterpret_cast<const char *>(&m);
        const bool inside = d >= o && d < o + sizeof(m);
        dyn = inside ? 0 : m._container().size() * sizeof(typename M::value_type);
    }
    vf_check(obake::byte_size(m) >= sizeof(m) + dyn, "the size covers the monomial and what it has allocated");
}
using p64 = obake::packed_monomial<std::int64_t>;
using p32 = obake::packed_monomial<std::uint32_t>;
using d1 = obake::d_packed_monomial<std::int32_t, 1>;
using d8 = obake::d_packed_monomial<std::int64_t, 8>;
VF_INST(mono_p64, mono<p64>)
VF_INST(mono_p32, mono<p32>)
VF_INST(mono_d1, mono<d1>)
VF_INST(mono_d8, mono<d8>)
