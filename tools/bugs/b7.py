exec(open('/verif/tools/bugs/b6.py').read().split('bug("B45"')[0])
bug("B48","P34",[(ph,"""        const auto it = ss.find(s);
        if (obake_unlikely(it == ss.end() || *it != s)) {""","""        const auto it = ss.lower_bound(s);
        if (obake_unlikely(it == ss.end() || it->compare(0, s.size(), s) != 0)) {""")],PM+MA+'''int main(){ using P=polynomial<M,long>; try { auto [x]=make_polynomials<P>(symbol_set{"dt","omega"},"d"); } catch (const std::invalid_argument &) { return 0; } return 1; }
''',ws,'a generator that is not in the symbol set but is the beginning of the name of another symbol','another generator is returned instead of an error')
bug("B49","P34",[(ph,"""        // Set to 1 the exponent of the corresponding generator.
        tmp[static_cast<::std::vector<int>::size_type>(ss.index_of(it))] = 1;
""","""        // Set to 1 the exponent of the corresponding generator, clearing
        // the exponents of the preceding ones.
        const auto idx = static_cast<::std::vector<int>::size_type>(ss.index_of(it));
        ::std::fill_n(tmp.begin(), idx, 0);
        tmp[idx] = 1;
"""),(ph,"""        // Set back to zero the exponent that was previously set to 1.
        tmp[static_cast<::std::vector<int>::size_type>(ss.index_of(it))] = 0;

""","")],PM+MA+'''int main(){ using P=polynomial<M,long>; auto [y,x]=make_polynomials<P>(symbol_set{"x","y"},"y","x"); auto [z]=make_polynomials<P>(symbol_set{"x","y"},"x"); return x==z ? 0 : 1; }
''',ws,'several generators requested in an order other than the alphabetical one','a generator is a product of symbols')
NU=PM+MA+'''#include <obake/math/evaluate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/symbols.hpp>
'''
bug("B50","P35",[("include/obake/math/evaluate.hpp","""const symbol_map<U> &sm, priority_tag<3>)""","""const symbol_map<U> &sm, priority_tag<9>)"""),
 ("include/obake/math/evaluate.hpp","""const symbol_map<U> &sm, priority_tag<2>)""","""const symbol_map<U> &sm, priority_tag<3>)"""),
 ("include/obake/math/evaluate.hpp","""const symbol_map<U> &sm, priority_tag<9>)""","""const symbol_map<U> &sm, priority_tag<2>)""")],NU+'''namespace u { struct t {}; inline int evaluate(const t &, const obake::symbol_map<int> &) { return 2; } }
struct f { int operator()(const u::t &, const obake::symbol_map<int> &) const { return 1; } };
namespace obake::customisation { template <typename T> requires std::is_same_v<remove_cvref_t<T>, u::t> inline constexpr auto evaluate<T, int> = f{}; }
int main(){ obake::symbol_map<int> m; return obake::evaluate(u::t{}, m)==1 ? 0 : 1; }
''',ws,'a type with both a customisation of evaluate() and a function evaluate() in its namespace','the customisation is ignored')
bug("B51","P35",[("include/obake/math/is_zero.hpp","""#if defined(MPPP_WITH_MPFR)

// NOTE: make""","""// Fast path for integers.
template <typename T>
requires(::std::is_integral_v<T> && !::std::is_same_v<T, bool>) constexpr bool is_zero(const T &n)
{
    return !static_cast<unsigned>(n);
}

#if defined(MPPP_WITH_MPFR)

// NOTE: make""")],NU+'''int main(){ for (int i=0;i<63;++i) if (obake::is_zero(1ll<<i)) return 1; return obake::is_zero(0ll) ? 0 : 1; }
''',ws,'an integer of more than 32 bits that is a multiple of two to the 32','a non-zero coefficient is taken for zero and dropped')
