# list of bugs: id, property, file edits [(file, old, new)], demo body, sources, needs, breaks
STUB=open('/verif/tools/bugs/stub.inc').read()
B=[]
def bug(*a,**k): B.append((a,k))
S=STUB+'''#include <vector>
#include <iostream>
#include <obake/hash.hpp>
#include <obake/symbols.hpp>
'''
KEYS=''.join('#include <obake/key/key_%s.hpp>\n'%x for x in 'degree evaluate is_compatible is_one is_zero merge_symbols p_degree trim trim_identify'.split())+''.join('#include <obake/polynomials/monomial_%s.hpp>\n'%x for x in 'diff homomorphic_hash integrate mul pow range_overflow_check subs'.split())
PM=S+KEYS+'#include <obake/polynomials/packed_monomial.hpp>\n#include <obake/polynomials/d_packed_monomial.hpp>\nusing namespace obake;\n'
SRC="src/symbols.cpp src/detail/to_string.cpp src/kpack.cpp src/polynomials/packed_monomial.cpp src/polynomials/d_packed_monomial.cpp"
bug("B02","P07",[("src/symbols.cpp","""        if (*it == n) {
            // n was located in s_ref. Compute its index,
            // and bump 'it' up so that we start the next search from the
            // next element in s_ref.
            seq.push_back(s_ref.index_of(it++));
        }
    }

#if""","""        if (*it == n) {
            // n was located in s_ref. Compute its index.
            seq.push_back(s_ref.index_of(it));
        }
        // The next element of s can only be past the current one.
        ++it;
    }

#if""")],S+'''using namespace obake;
int main(){ return detail::ss_intersect_idx(symbol_set{"a","b"}, symbol_set{"b","c"}) == symbol_idx_set{0} ? 0 : 1; }
''',"src/symbols.cpp src/detail/to_string.cpp","a symbol missing from the reference set immediately followed, in the set, by the next one of the reference set","common symbols are skipped, so their positions are not reported")
bug("B03","P10",[("include/obake/polynomials/packed_monomial.hpp","ret.emplace_back(::std::min(l1[i].first, l2[i].first),","ret.emplace_back(::std::min(l1[i].first, l2[i].second),")],PM+'''int main(){ using M=packed_monomial<std::int64_t>; const symbol_set ss{"x"}; const auto lo=detail::kpack_get_lims<std::int64_t>(1).first;
 int bad=0;
 for(int pos : {1,2500,4999,7000,9999}) { std::vector<M> a(10000,M{1}), b(1,M{-1}); a[pos]=M{lo}; bad += monomial_range_overflow_check(a,b,ss) ? 1 : 0; }
 return bad ? 1 : 0; }
''',SRC,"a range of more than 5000 monomials and a very negative exponent in a piece that is joined on the right","an exponent underflow of the product goes unnoticed")
bug("B04","P12",[("include/obake/polynomials/d_packed_monomial.hpp","""                    if (obake_unlikely(tmp == T(-1))) {
                        obake_throw(
                            ::std::domain_error,
                            fmt::format(
                                "Cannot integrate a dynamic""","""                    if (obake_unlikely(tmp == T(-1) && i < PSize)) {
                        obake_throw(
                            ::std::domain_error,
                            fmt::format(
                                "Cannot integrate a dynamic""")],PM+'''int main(){ using M=d_packed_monomial<std::int64_t,2>; const symbol_set ss{"x","y","z"};
 try { monomial_integrate(M{1,2,-1}, symbol_idx(2), ss); } catch (const std::domain_error &) { return 0; } return 1; }
''',SRC,"exponent -1 in a variable stored after the first packed block","integrating x**-1 is not rejected and yields the divisor zero")
bug("B05","P11",[("src/polynomials/packed_monomial.cpp","""        if (i == *si_it) {
            retval += tmp;
            ++si_it;
        }""","""        if (i == *si_it) {
            retval += tmp;
            ++si_it;
        } else if (i > 3u && si_it + 1 == si_it_end && *si_it + 1u == s_size) {
            // Only the last variable is left: it is the quotient of what remains.
            retval = static_cast<T>(retval + p.get_value() / ::obake::detail::kpack_get_delta<T>(s_size));
            return retval;
        }""")],PM+'''int main(){ using M=packed_monomial<std::int64_t>; const symbol_set ss{"a","b","c","d","e","f","g"};
 return key_p_degree(M{1,2,3,4,5,6,7}, symbol_idx_set{6}, ss) == 7 ? 0 : 1; }
''',SRC,"at least six variables, a partial degree in which the last variable is selected and the one at position four is not","the partial degree is wrong")
bug("B06","P14",[("include/obake/polynomials/d_packed_monomial.hpp","for (auto j = 0u; j < PSize && sm_it != sm_end; ++j, ++sm_it) {\n            ku >> tmp;\n            retval *= ::obake::pow(sm_it->second, ::std::as_const(tmp));","if (n == T(0)) {\n            // Nothing but ones in this block.\n            continue;\n        }\n\n        for (auto j = 0u; j < PSize && sm_it != sm_end; ++j, ++sm_it) {\n            ku >> tmp;\n            retval *= ::obake::pow(sm_it->second, ::std::as_const(tmp));")],PM+'''#include <obake/math/pow.hpp>
int main(){ using M=d_packed_monomial<std::int64_t,2>; const symbol_set ss{"a","b","c","d"};
 symbol_idx_map<mppp::integer<1>> m; for(int i=0;i<4;++i) m.emplace(i, mppp::integer<1>(i+2));
 const auto r = key_evaluate(M{0,0,1,0}, m, ss); return r == mppp::integer<1>(4) ? 0 : 1; }
''',SRC,"a monomial whose first packed block is zero and a later one is not","the values of the wrong variables are used after a skipped block")
bug("B07","P08",[("include/obake/polynomials/d_packed_monomial.hpp","""    for (const auto &n : c) {
        if (n < klim_min || n > klim_max) {
            return false;
        }
    }

    return true;""","""    return c.empty() || (*c.begin() >= klim_min && *c.begin() <= klim_max);""")],PM+'''int main(){ using M=d_packed_monomial<std::int64_t,3>; const symbol_set ss{"a","b","c","d"}; M m{1,2,3,4};
 m._container()[1] = std::numeric_limits<std::int64_t>::max(); return key_is_compatible(m, ss) ? 1 : 0; }
''',SRC,"an invalid code in a block other than the first","an incompatible key is reported as compatible")
bug("B08","P04",[("src/detail/to_string.cpp","""    ::std::size_t len = 0;
    while (n) {
        buffer[len++] = static_cast<char>('0' + n % 10u);
        n /= 10u;
    }

    // Construct the return value, special-casing zero.
    if (len) {
        if (negative)""","""    ::std::size_t len = 0;
    if constexpr (sizeof(T) > 8u) {
        // Split off nineteen digits, so that most divisions are 64-bit ones.
        while (n > static_cast<make_unsigned_t<T>>(limits_max<unsigned long long>)) {
            auto lo = static_cast<unsigned long long>(n % 10000000000000000000ull);
            n /= 10000000000000000000ull;
            do {
                buffer[len++] = static_cast<char>('0' + lo % 10u);
                lo /= 10u;
            } while (lo);
        }
    }
    while (n) {
        buffer[len++] = static_cast<char>('0' + n % 10u);
        n /= 10u;
    }

    // Construct the return value, special-casing zero.
    if (len) {
        if (negative)""")],S+'''#include <obake/detail/to_string.hpp>
int main(){ __int128_t n = __int128_t(10000000000000000000ull) * 7 + 42; return obake::detail::to_string(n) == "70000000000000000042" ? 0 : 1; }
''',"src/detail/to_string.cpp","a signed 128-bit value above 2^64 whose nineteen low decimal digits start with a zero","digits are lost in the printed number")
bug("B09","P05",[("include/obake/math/safe_convert.hpp","if (n < U(0) || static_cast<make_unsigned_t<U>>(n) > Tmax) {","// An unsigned type of the same size can represent every non-negative value.\n            if (n < U(0) || (sizeof(U) > sizeof(T) && static_cast<make_unsigned_t<U>>(n) > Tmax)) {")],S+'''#include <obake/math/safe_convert.hpp>
int main(){ bool c=false; return obake::safe_convert(c, static_cast<signed char>(5)) ? 1 : 0; }
''',"","a signed one-byte source with a value above 1 and bool as the target","a conversion that loses the value is reported as successful")
