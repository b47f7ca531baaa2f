// Contracts of packed_monomial (obake/polynomials/packed_monomial.hpp,
// src/polynomials/packed_monomial.cpp), for every number of variables.
#include "monomial.hpp"

#include "src/detail/to_string.cpp"
#include "src/kpack.cpp"
#include "src/polynomials/packed_monomial.cpp"
#include "src/symbols.cpp"

using i32 = obake::packed_monomial<std::int32_t>;
using u32 = obake::packed_monomial<std::uint32_t>;
using i64 = obake::packed_monomial<std::int64_t>;
using u64 = obake::packed_monomial<std::uint64_t>;
#define INST(p)                                                                                                        \
    VF_INST(p##_i32, p<i32>)                                                                                           \
    VF_INST(p##_u32, p<u32>)                                                                                           \
    VF_INST(p##_i64, p<i64>)                                                                                           \
    VF_INST(p##_u64, p<u64>)

INST(construct)
INST(equality)
INST(mul)
INST(square)
INST(degree)
INST(p_degree)
INST(diff)
INST(integrate)
INST(power)
INST(evaluate)
INST(subs)
INST(merge)
INST(trim)
INST(trim_identify)

// compatibility of an arbitrary value with an arbitrary symbol set
template <typename M>
void compatible()
{
    using T = typename M::value_type;
    const int n = vf::cases(0, view<M>::max_n + 2);
    const auto ss = mkss(n);
    const M m(vf::any<T>());
    const bool r = obake::key_is_compatible(m, ss);
    if (n == 0) {
        vf_check(r == (m.get_value() == 0), "only zero is compatible with no symbols");
    } else if (n > view<M>::max_n) {
        vf_check(!r, "nothing is compatible with too many symbols");
    } else {
        const auto [kmin, kmax] = obake::detail::kpack_get_klims<T>(unsigned(n));
        vf_check(r == (kmin <= m.get_value() && m.get_value() <= kmax), "compatible exactly within the coded limits");
    }
}
INST(compatible)

template <typename M>
void range_check()
{
    switch (vf::cases(0, 6)) {
        case 5:
            return range_check_impl<M, 3, 1, std::vector<M>>(1);
        case 6:
            return range_check_impl<M, 1, 3, std::forward_list<M>>(1);
        case 0:
            return range_check_impl<M, 1, 1, std::vector<M>>(vf::cases(0, view<M>::max_n));
        case 1:
            return range_check_impl<M, 2, 1, std::vector<M>>(2);
        case 2:
            return range_check_impl<M, 1, 2, std::forward_list<M>>(2);
        case 3:
            return range_check_impl<M, 2, 2, std::vector<M>>(1);
        case 4:
            return range_check_impl<M, 0, 1, std::vector<M>>(2);
    }
}
INST(range_check)
VF_INST(range_par_i64_1, range_check_par<i64, false>)
VF_INST(range_par_i64_2, range_check_par<i64, true>)
VF_INST(range_par_u32_1, range_check_par<u32, false>)
VF_INST(range_par_u32_2, range_check_par<u32, true>)
