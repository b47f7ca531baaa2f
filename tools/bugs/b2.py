# list of bugs: id, property, file edits [(file, old, new)], demo body, sources, needs, breaks
STUB=open('/verif/tools/bugs/stub.inc').read()
B=[]
def bug(*a,**k):
    if a and isinstance(a[-1],dict): k=dict(a[-1],**k); a=a[:-1]
    B.append((a,k))
S=STUB+'''#include <vector>
#include <iostream>
#include <obake/hash.hpp>
#include <obake/symbols.hpp>
'''
KEYS=''.join('#include <obake/key/key_%s.hpp>\n'%x for x in 'degree evaluate is_compatible is_one is_zero merge_symbols p_degree trim trim_identify'.split())+''.join('#include <obake/polynomials/monomial_%s.hpp>\n'%x for x in 'diff homomorphic_hash integrate mul pow range_overflow_check subs'.split())
PM=S+KEYS+'#include <obake/polynomials/packed_monomial.hpp>\n#include <obake/polynomials/d_packed_monomial.hpp>\nusing namespace obake;\n'
SRC="src/symbols.cpp src/detail/to_string.cpp src/kpack.cpp src/polynomials/packed_monomial.cpp src/polynomials/d_packed_monomial.cpp"
SER=SRC+" src/series.cpp src/detail/fw_utils.cpp src/detail/hc.cpp"
PO=PM+'''#include <obake/series.hpp>
#include <obake/polynomials/polynomial.hpp>
using M=packed_monomial<std::int64_t>; using Zi=mppp::integer<1>; using P=polynomial<M,Zi>; using PU=polynomial<M,unsigned>;
template <typename Q> Q poly(const symbol_set &ss, unsigned l, std::initializer_list<std::pair<M,int>> ts){ Q q; q.set_symbol_set(ss); q.set_n_segments(l); for(const auto &[k,c]:ts) q.add_term(k,c); return q; }
template <typename Q> bool valid(const Q &q){ for(const auto &t:q) if(is_zero(t.second)) return false; for(const auto &t:q) if(q.find(t.first)==q.end()) return false; return true; }
'''
h="include/obake/series.hpp"
ph="include/obake/polynomials/polynomial.hpp"
dh="include/obake/polynomials/d_packed_monomial.hpp"
bug("B10","P19",[(h,"""            if (obake_unlikely(::obake::key_is_zero(res.first->first, ss)
                               || ::obake::is_zero(::std::as_const(res.first->second)))) {""","""            // NOTE: a newly-inserted term can be dropped only because of its key,
            // a merged one only because of its coefficient.
            if (obake_unlikely(res.second ? ::obake::key_is_zero(res.first->first, ss)
                                          : ::obake::is_zero(::std::as_const(res.first->second)))) {""")],PO+'''int main(){ P p; p.set_symbol_set(symbol_set{"x"}); p.add_term(M{1},Zi(0)); return p.empty() ? 0 : 1; }
''',SER,"a term whose coefficient is already zero when it is first inserted under its key","a zero coefficient is stored in the series")
bug("B11","P20",[(h,"""                    if constexpr (::std::is_same_v<remove_cvref_t<decltype(lhs)>, remove_cvref_t<decltype(rhs)>>) {
                        if (&lhs == &rhs) {
                            return ret_t(lhs);
                        } else {
                            return ret_t(::std::forward<decltype(lhs)>(lhs));
                        }
                    } else {""","""                    if constexpr (::std::is_same_v<decltype(lhs), decltype(rhs)>
                                  && !is_mutable_rvalue_reference_v<decltype(lhs)>) {
                        if (&lhs == &rhs) {
                            return ret_t(lhs);
                        } else {
                            return ret_t(::std::forward<decltype(lhs)>(lhs));
                        }
                    } else {""")],PO+'''int main(){ auto p=poly<P>(symbol_set{"x"},0,{{M{1},3},{M{2},4}}); auto q=std::move(p)+std::move(p); const auto it=q.find(M{1}); return it!=q.end() && it->second==Zi(6) ? 0 : 1; }
''',SER,"the same series passed as rvalue for both operands of an addition","the sum of a series with itself yields the series instead of its double")
bug("B12","P20",[(h,"""                // Erase any term whose coefficient became zero.
                for (const auto &k : v_keys) {
                    assert(t.find(k) != t.end());
                    t.erase(k);
                }
            }

            return retval;""","""            }

            // Erase any term whose coefficient became zero.
            for (const auto &k : v_keys) {
                retval._get_s_table()[::obake::hash(k) & (s_table.size() - 1u)].erase(k);
            }

            return retval;""")],PO+'''int main(){ auto p=poly<PU>(symbol_set{"x"},1,{{M{2},int(0x80000000u)},{M{1},3}}); const auto q=p*2u; return valid(q) ? 0 : 1; }
''',SER,"a segmented series with a coefficient that vanishes when multiplied by the scalar (a ring with zero divisors) in a table before the last one","the product with a scalar contains a zero coefficient")
bug("B13","P21",[(h,"    if (from_log2_size) {\n        for (auto &t : from","    if (from_log2_size > 1u) {\n        for (auto &t : from")],PO+'''int main(){ auto p=poly<P>(symbol_set{"x"},1,{{M{1},1},{M{2},5}}); const auto q=p+poly<P>(symbol_set{"y"},0,{{M{1},1}}); return q.size()==3 ? 0 : 1; }
''',SER,"operands over different symbols, one of them in exactly two segments","terms of the second segment are lost")
bug("B14","P22",[(h,"""    // If the series have different sizes,
    // they cannot be equal.
    if (lhs.size() != rhs.size()) {""","""    // If the left-hand side has more terms,
    // the series cannot be equal.
    if (lhs.size() > rhs.size()) {""")],PO+'''int main(){ const symbol_set ss{"x"}; auto p=poly<P>(ss,0,{{M{1},1}}), q=poly<P>(ss,0,{{M{1},1},{M{2},5}}); return p==q ? 1 : 0; }
''',SER,"a first operand whose terms all occur in the second operand, which has more terms","a series compares equal to a different one that contains it")
bug("B16","P23",[(ph,"if (!wrap_around && bi1 > seg_idx) {","if (!wrap_around && bi1 >= seg_idx) {",)],PO+'''int main(){ const symbol_set ss{"x","y"}; P a,b; a.set_symbol_set(ss); b.set_symbol_set(ss);
 for(int i=0;i<20;++i) a.add_term(M{i*37,i*i*11},1); for(int i=0;i<20000;++i) b.add_term(M{(i%200)*101,(i/200)*1009},1);
 const auto c=a*b; Zi s(0); for(const auto &t:c) s+=t.second; return s==Zi(400000) ? 0 : 1; }
''',SER,"a sparse parallel product in which a term of the shorter factor lies in the same segment as the one computed","products with terms of the first segment of the longer factor are lost")
bug("B17","P23",[(ph,"""        // Determine and remove the keys whose coefficients are zero
        // in the return value.
        const auto it_f = tab.end();
        for (auto it = tab.begin(); it != it_f;) {""","""        // Determine and remove the keys whose coefficients are zero
        // in the return value. With a single term, no cancellation can take place.
        const auto it_f = tab.end();
        for (auto it = (v1_size == 1u ? it_f : tab.begin()); it != it_f;) {""")],PO+'''int main(){ const symbol_set ss{"x"}; auto p=poly<PU>(ss,0,{{M{1},1<<16}}), q=poly<PU>(ss,0,{{M{1},1<<16},{M{2},3}}); return valid(p*q) ? 0 : 1; }
''',SER,"a factor with one term and coefficients of a ring with zero divisors","the product contains a zero coefficient")
bug("B18","P24",[(ph,"""                ::std::get<1>(degree_data) = customisation::internal::make_p_degree_vector<S2>(
                    y.cbegin(), y.cend(), ss, ::std::get<1>(::std::forward_as_tuple(args...)), true);
            } else {
                ::obake::detail::ignore(ss, degree_data, args...);
            }

            vidx2 =""","""                ::std::get<1>(degree_data)
                    = customisation::internal::make_degree_vector<S2>(y.cbegin(), y.cend(), ss, true);
            } else {
                ::obake::detail::ignore(ss, degree_data, args...);
            }

            vidx2 =""")],PO+'''int main(){ const symbol_set ss{"x","y"}; P a,b; a.set_symbol_set(ss); b.set_symbol_set(ss);
 for(int i=0;i<3000;++i) a.add_term(M{i%3,1+i},1); for(int i=0;i<3000;++i) b.add_term(M{i%3,5000+i},1);
 const auto c=obake::polynomials::truncated_mul(a,b,4,symbol_set{"x"}); return c.empty() ? 1 : 0; }
''',SER,"a partial-degree truncation of a large product in which every total degree exceeds the limit","a truncated product is empty although terms are within the limit")
bug("B20","P01",[("src/kpack.cpp","58951599632637155ull","58951599632637154ull")],S+'''#include <obake/kpack.hpp>
using namespace obake;
int main(){ using T=std::int64_t; const unsigned n=6; const auto [lo,hi]=detail::kpack_get_lims<T>(n); int bad=0;
 for(T u=hi-20;u<=hi;++u) for(T v=hi-20;v<=hi;++v){ const T in[6]={lo,lo,lo,lo,u,v}; kpacker<T> p(n); for(T x:in) p<<x; kunpacker<T> q(p.get(),n); for(T x:in){ T o; q>>o; bad+=o!=x; } }
 return bad ? 1 : 0; }
''',"src/kpack.cpp src/detail/to_string.cpp","six packed components of which the first four are at the lower limit and the last two large","unpacking returns other values than those packed")
bug("B21","P03",[("include/obake/detail/safe_integral_arith.hpp","    return (a - b) != 0;","    return a || b;")],S+'''#include <obake/detail/safe_integral_arith.hpp>
int main(){ return obake::detail::safe_int_sub(true,true) ? 1 : 0; }
''',"src/detail/to_string.cpp","the subtraction true - true","the checked subtraction of booleans is wrong")
bug("B22","P09",[(dh,"b._container().cbegin(), out._container().begin(),\n                     [](const T &x, const T &y) { return x + y; });","b._container().cbegin(), out._container().begin(),\n                     [&out, &b](const T &x, const T &y) {\n                         // NOTE: squares can be computed by doubling.\n                         return &out == &b ? static_cast<T>(x + x) : static_cast<T>(x + y);\n                     });")],PM+'''int main(){ using M=d_packed_monomial<std::int64_t,3>; const symbol_set ss{"x","y"}; M a{1,2}, b{3,4}; monomial_mul(b,a,b,ss); return b==M{4,6} ? 0 : 1; }
''',SRC,"a product written over its second factor","the first factor is squared")
bug("B23","P13",[(dh,"""            tmp_int = tmp;
            tmp_int *= exp;
            kp << static_cast<T>(tmp_int);""","""            if (tmp == T(0)) {
                // The exponent remains zero.
                continue;
            }

            tmp_int = tmp;
            tmp_int *= exp;
            kp << static_cast<T>(tmp_int);""")],PM+'''#include <obake/math/safe_convert.hpp>
int main(){ using M=d_packed_monomial<std::int64_t,2>; const symbol_set ss{"x","y","z"}; return monomial_pow(M{2,0,5}, 3, ss)==M{6,0,15} && monomial_pow(M{0,1,5}, 3, ss)==M{0,3,15} ? 0 : 1; }
''',SRC,"a zero exponent followed by a non-zero one in the same packed block","the exponents of the power belong to the wrong variables")
bug("B24","P15",[(dh,"""    // We could still have symbols which need to be appended at the end.
    if (map_it != map_end) {
        tmp_v.insert(tmp_v.end(), ::obake::safe_cast<decltype(tmp_v.size())>(map_it->second.size()), T(0));
        assert(map_it + 1 == map_end);
    }

    return d_packed_monomial<T, PSize>(tmp_v);""","""    // We could still have symbols which need to be appended at the end.
    // NOTE: zeroes at the end of a packed value do not change its code.
    if (map_it != map_end && (c.empty() || s_size % PSize == 0u || map_it->second.size() > PSize)) {
        tmp_v.insert(tmp_v.end(), ::obake::safe_cast<decltype(tmp_v.size())>(map_it->second.size()), T(0));
        assert(map_it + 1 == map_end);
    }

    return d_packed_monomial<T, PSize>(tmp_v);""")],PM+'''int main(){ using M=d_packed_monomial<std::int64_t,2>; const symbol_set ss{"x"}; const auto r=key_merge_symbols(M{3}, symbol_idx_map<symbol_set>{{1,symbol_set{"y","z"}}}, ss); return r==M{3,0,0} && key_is_compatible(r, symbol_set{"x","y","z"}) ? 0 : 1; }
''',SRC,"appending symbols that cross the boundary of the last packed block","the extended monomial has too few blocks")
bug("B25","P02",[("src/kpack.cpp","4297377374304698943ll, 2148812914851778824ll","4297377374304698943ll, 2148812914851778825ll")],S+'''#include <obake/kpack.hpp>
using namespace obake;
int main(){ try { kunpacker<std::int64_t> q(2148812914851778825ll,10); } catch (const std::overflow_error &) { return 0; } return 1; }
''',"src/kpack.cpp src/detail/to_string.cpp","a packed value exactly one above the limit for ten components","a value that no vector packs to is accepted")
B=[b for b in B if b]
