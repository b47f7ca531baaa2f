import re
exec(open('/verif/tools/bugs/b2.py').read().split('bug("B10"')[0])
MA=''.join('#include <obake/math/%s.hpp>\n'%x for x in 'degree diff evaluate integrate p_degree pow subs trim truncate_degree truncate_p_degree'.split())
PM=PO+MA+'''using PP=polynomial<M,P>;
template <typename Q> auto cf_at(const Q &q, const M &m){ const auto it=q.find(m); return it==q.end() ? typename std::decay_t<decltype(it->second)>(0) : it->second; }
'''
ds=SER
bug("B26","P25",[(ph,"""            retval.add_term(k, ::obake::diff(c, s));

            if (s_present) {""","""            if (!s_present) {
                retval.add_term(k, ::obake::diff(c, s));
            } else {""")],PM+'''int main(){ PP p; p.set_symbol_set(symbol_set{"x"}); p.add_term(M{1},poly<P>(symbol_set{"x","z"},0,{{M{1,1},3}}));
 const auto d=diff(p,"x"); return d.size()==2 ? 0 : 1; }
''',ds,"a polynomial whose coefficients depend on the symbol that is also a symbol of the polynomial itself","the derivatives of the coefficients are lost")
bug("B27","P25",[(ph,"""            for (const auto &t : x) {
                const auto &c = t.second;

                if (obake_unlikely(!::obake::is_zero(::obake::diff(c, s)))) {
                    obake_throw(::std::invalid_argument, cf_diff_err_msg);
                }

                // Do the monomial integration, mix it with the coefficient.""","""            // Check the coefficients.
            if (!x.empty() && obake_unlikely(!::obake::is_zero(::obake::diff(x.begin()->second, s)))) {
                obake_throw(::std::invalid_argument, cf_diff_err_msg);
            }

            for (const auto &t : x) {
                const auto &c = t.second;

                // Do the monomial integration, mix it with the coefficient.""")],PM+'''template <typename F> bool throws(F f){ try { f(); } catch(const std::invalid_argument &) { return true; } return false; }
int main(){ int bad=0; for(int a=1;a<4;++a) for(int b=1;b<4;++b) if(a!=b) { using Q=mppp::rational<1>; using PQ=polynomial<M,Q>; using PPQ=polynomial<M,PQ>; PPQ p; p.set_symbol_set(symbol_set{"y"});
 p.add_term(M{a},poly<PQ>(symbol_set{"x"},0,{{M{1},3}})); p.add_term(M{b},PQ(2)); if(!throws([&]{ integrate(p,"x"); })) ++bad; } return bad; }
''',ds,"at least two terms, where the coefficient of one that is not visited first depends on the integration variable","the polynomial is integrated as if all coefficients were constant")
bug("B28","P26",[(h,"""        // Find the maximum degree.
        // NOTE: parallelisation opportunities here for
        // segmented tables.
        auto it = x.cbegin();
        const auto end = x.cend();
        ret_t<T &&> max_deg(d_extract(*it));
        for (++it; it != end; ++it) {
            ret_t<T &&> cur(d_extract(*it));
            if (::std::as_const(max_deg) < ::std::as_const(cur)) {
                max_deg = ::std::move(cur);
            }
        }

        return max_deg;
    }
};

template <typename T>
    requires(series_default_p_degree_impl""","""        // Find the maximum degree.
        // NOTE: parallelisation opportunities here for
        // segmented tables.
        ret_t<T &&> max_deg(0);
        for (const auto &t : x) {
            ret_t<T &&> cur(d_extract(t));
            if (::std::as_const(max_deg) < ::std::as_const(cur)) {
                max_deg = ::std::move(cur);
            }
        }

        return max_deg;
    }
};

template <typename T>
    requires(series_default_p_degree_impl""")],PM+'''int main(){ const auto p=poly<P>(symbol_set{"x","y"},0,{{M{-2,5},3},{M{-3,1},4}}); return p_degree(p,symbol_set{"x"})==-2 ? 0 : 1; }
''',ds,"a series all of whose terms have a negative partial degree","the partial degree is zero instead of negative")
bug("B29","P26",[(ph,"""    const auto &ss = x.get_symbol_set();
    const auto si = ::obake::detail::ss_intersect_idx(s, ss);

    // Implement on top of filter().""","""    const auto &ss = x.get_symbol_set();
    const auto si = ::obake::detail::ss_intersect_idx(ss, s);

    // Implement on top of filter().""")],PM+'''int main(){ auto p=poly<P>(symbol_set{"x","y"},0,{{M{2,5},3},{M{5,2},4}}); truncate_p_degree(p,3,symbol_set{"y"}); return p.size()==1 && cf_at(p,M{5,2})==Zi(4) ? 0 : 1; }
''',ds,"a set of symbols whose positions in the symbol set of the polynomial differ from those in the set itself","the partial degree of the wrong symbols decides about truncation")
bug("B30","P27",[(h,"""    if (ins_map.empty()) {
        // Empty insertion map: there are no
        // symbols to add.
        return s;
    }

    series<K, C, Tag> retval;
    // NOTE: the sym""","""    if (ins_map.empty() || s.empty()) {
        // Empty insertion map: there are no
        // symbols to add, or no keys to extend.
        return s;
    }

    series<K, C, Tag> retval;
    // NOTE: the sym""")],PM+'''int main(){ P p; p.set_symbol_set(symbol_set{"x"}); return add_symbols(p,symbol_set{"y"}).get_symbol_set()==symbol_set{"x","y"} ? 0 : 1; }
''',ds,"an empty series","the symbols are not added")
bug("B31","P27",[(h,"""        for (const auto &t : x) {
            ::obake::key_trim_identify(trim_v, t.first, ss);
        }
""","""        for (const auto &tab : x._get_s_table()) {
            for (const auto &t : tab) {
                ::obake::key_trim_identify(trim_v, t.first, ss);
            }
            if (::std::any_of(trim_v.begin(), trim_v.end(), [](int n) { return n == 0; })) {
                // The symbols which are in use have been identified.
                break;
            }
        }
""")],PM+'''int main(){ int bad=0; for(int i=1;i<6;++i) { const auto p=poly<P>(symbol_set{"x","y"},2,{{M{i,0},3},{M{0,1},4}}); try { const auto t=trim(p); bad+=!(t.get_symbol_set()==symbol_set{"x","y"} && t.size()==2); } catch(...) { ++bad; } } return bad; }
''',ds,"a segmented series whose symbols do not all occur in the first non-empty table","symbols that are in use are removed")
bug("B32","P28",[(h,"""        if (obake_unlikely(si.size() != ss.size())) {
            // If""","""        if (obake_unlikely(sm.size() < ss.size())) {
            // If""")],PM+'''#include <cstdlib>
int main(){ const auto p=poly<P>(symbol_set{"x","y"},0,{{M{1,0},3}}); symbol_map<Zi> m; m.emplace("y",Zi(2)); m.emplace("z",Zi(3)); try { evaluate(p,m); } catch(const std::invalid_argument &) { return 0; } return 1; }
''',ds,"an evaluation map with as many entries as there are symbols, but not for all of them","the missing value is not noticed and the evaluation reads beyond the map")
bug("B33","P28",[(ph,"""    // Init a temp poly that we will use in the loop below.
    remove_cvref_t<T> tmp_poly;
    tmp_poly.set_symbol_set_fw(x.get_symbol_set_fw());
    tmp_poly.tag() = x.tag();

    // The return value (this""","""    if constexpr (::std::is_same_v<poly_subs_ret_t<T &&, U>, remove_cvref_t<T>>) {
        if (si.empty()) {
            // None of the symbols is being substituted.
            return poly_subs_ret_t<T &&, U>(x);
        }
    }

    // Init a temp poly that we will use in the loop below.
    remove_cvref_t<T> tmp_poly;
    tmp_poly.set_symbol_set_fw(x.get_symbol_set_fw());
    tmp_poly.tag() = x.tag();

    // The return value (this""")],PM+'''int main(){ PP p; p.set_symbol_set(symbol_set{"y"}); p.add_term(M{1},poly<P>(symbol_set{"x"},0,{{M{1},3}})); symbol_map<Zi> m; m.emplace("x",Zi(2));
 const auto r=subs(p,m); return r.size()==1 && r.begin()->second==P(6) ? 0 : 1; }
''',ds,"a substitution that affects only the coefficients of the polynomial, with a result of the type of the polynomial","the coefficients are not substituted")
bug("B34","P29",[(h,"""            return internal::series_are_identical(::std::any_cast<const Base &>(x), ::std::any_cast<const Base &>(y));""","""            return ::std::any_cast<const Base &>(x) == ::std::any_cast<const Base &>(y);""")],PM+'''int main(){ const auto a=poly<polynomial<M,double>>(symbol_set{"x"},0,{{M{1},3},{M{2},4}}), b=poly<polynomial<M,double>>(symbol_set{"x","y"},0,{{M{1,0},3},{M{2,0},4}});
 const auto pa=obake::pow(a,2), pb=obake::pow(b,2); return pb.get_symbol_set()==symbol_set{"x","y"} && pa.get_symbol_set()==symbol_set{"x"} ? 0 : 1; }
''',ds,"two series that are equal up to symbols that do not occur, with the same hash, raised to a power one after the other","the second power has the symbols of the first base")
bug("B35","P29",[(h,"""    while (v.size() <= n) {
        v.emplace_back(::std::any_cast<const Base &>(v.back()) * b);
    }
""","""    if (auto i = v.size(); i <= n) {
        v.resize(static_cast<decltype(v.size())>(n) + 1u);
        for (; i <= n; ++i) {
            v[i] = ::std::any_cast<const Base &>(v[i - 1u]) * b;
        }
    }
""")],PM+'''int main(){ const auto a=poly<polynomial<M,double>>(symbol_set{"x","y"},0,{{M{800000000,1},3},{M{2,1},4}}); for(int i=0;i<3;++i) { try { obake::pow(a,3); return 1; } catch(const std::overflow_error &) {} catch(...) { return 2; } } return 0; }
''',ds,"a power that throws half-way (an overflow of the exponents), and another attempt","the cache keeps an incomplete entry, and later powers fail with bad_any_cast")
