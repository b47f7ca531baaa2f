// Contracts of d_packed_monomial (obake/polynomials/d_packed_monomial.hpp,
// src/polynomials/d_packed_monomial.cpp).
#include "monomial.hpp"

#include "src/detail/to_string.cpp"
#include "src/kpack.cpp"
#include "src/polynomials/d_packed_monomial.cpp"
#include "src/symbols.cpp"

using i32_1 = obake::d_packed_monomial<std::int32_t, 1>;
using u32_3 = obake::d_packed_monomial<std::uint32_t, 3>;
using i64_2 = obake::d_packed_monomial<std::int64_t, 2>;
using i64_8 = obake::d_packed_monomial<std::int64_t, 8>;
using u64_1 = obake::d_packed_monomial<std::uint64_t, 1>;
using u64_4 = obake::d_packed_monomial<std::uint64_t, 4>;
#define INST(p)                                                                                                        \
    VF_INST(p##_i32_1, p<i32_1>)                                                                                       \
    VF_INST(p##_u32_3, p<u32_3>)                                                                                       \
    VF_INST(p##_i64_2, p<i64_2>)                                                                                       \
    VF_INST(p##_i64_8, p<i64_8>)                                                                                       \
    VF_INST(p##_u64_1, p<u64_1>)                                                                                       \
    VF_INST(p##_u64_4, p<u64_4>)

INST(construct)
INST(equality)
INST(mul)
INST(square)
INST(degree)
INST(p_degree)
INST(diff)
INST(integrate)
INST(power)
INST(evaluate)
INST(subs)
INST(merge)
INST(trim)
INST(trim_identify)

// compatibility of an arbitrary container with an arbitrary symbol set
template <typename M>
void compatible()
{
    using T = typename M::value_type;
    constexpr int PS = int(M::psize);
    const int n = vf::cases(0, 2 * PS + 1);
    const int k = vf::cases(0, 3);
    const auto ss = mkss(n);
    M m;
    m._container().resize(static_cast<std::size_t>(k));
    const auto [kmin, kmax] = obake::detail::kpack_get_klims<T>(unsigned(PS));
    bool ok = k == (n + PS - 1) / PS;
    for (int i = 0; i < k; ++i) {
        const auto v = vf::any<T>();
        m._container()[static_cast<std::size_t>(i)] = v;
        ok &= kmin <= v && v <= kmax;
    }
    vf_check(obake::key_is_compatible(m, ss) == ok, "compatible exactly with the right size and within the coded limits");
}
INST(compatible)

template <typename M>
void range_check()
{
    constexpr int PS = int(M::psize);
    switch (vf::cases(0, 7)) {
        case 6:
            return range_check_impl<M, 3, 1, std::vector<M>>(PS == 1 ? 3 : 1, true);
        case 7:
            return range_check_impl<M, 1, 3, std::forward_list<M>>(PS == 1 ? 3 : 1, true);
        case 0:
            return range_check_impl<M, 1, 1, std::vector<M>>(vf::cases(0, PS == 1 ? 3 : PS + 1 < 6 ? PS + 1 : 6));
        case 1:
            return range_check_impl<M, 2, 1, std::vector<M>>(PS == 1 ? 3 : 2);
        case 2:
            return range_check_impl<M, 1, 2, std::forward_list<M>>(2);
        case 3:
            return range_check_impl<M, 2, 2, std::vector<M>>(1);
        case 4:
            return range_check_impl<M, 0, 1, std::vector<M>>(2);
        case 5:
            return range_check_impl<M, 1, 0, std::vector<M>>(2);
    }
}
INST(range_check)
VF_INST(range_par_u64_4, range_check_par<u64_4, true>)
VF_INST(range_par_i32_1, range_check_par<i32_1, false, 3>)
VF_INST(range_par_u64_1, range_check_par<u64_1, true, 2>)
VF_INST(range_par_i64_2, range_check_par<i64_2, false, 1>)
