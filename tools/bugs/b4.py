exec(open('/verif/tools/bugs/b3.py').read().split('bug("B26"')[0])
wh="include/obake/power_series/power_series.hpp"
PW=PM+MA+'''#include <obake/power_series/power_series.hpp>
using W=p_series<M,Zi>;
'''
ws=ds+" src/tex_stream_insert.cpp"
bug("B36","P30",[(wh,"""                    auto orig_tag = ::std::is_same_v<type1, detail::no_truncation> ? x.tag() : y.tag();
                    decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(
                        ::std::forward<T>(x), ::std::forward<U>(y));
                    ret.tag() = ::std::move(orig_tag);
""","""                    decltype(auto) ret = ::obake::detail::series_default_in_place_addsub_impl<AddOrSub>(
                        ::std::forward<T>(x), ::std::forward<U>(y));
                    if constexpr (::std::is_same_v<type0, detail::no_truncation>) {
                        // The truncation of y must be transferred to x.
                        ret.tag() = y.tag();
                    }
""")],PW+'''int main(){ auto [x,y]=make_p_series_t<W>(symbol_set{"x","y"},3,"x","y"); auto [u]=make_p_series<W>("u"); auto a=u*u*u*u+u; a+=x+y; if(get_truncation(a).index()!=1||a.size()!=3) return 1;
 auto b=x*x; b-=u*u*u*u+u*u+u; return get_truncation(b).index()==1 && b.size()==3 ? 0 : 2; }
''',ws,"an in-place operation of a truncated series with an untruncated one that has more terms or other symbols","the truncation is lost or replaced")
bug("B37","P30",[(wh,"""            if constexpr (::std::is_same_v<type0, type1>) {
                // The truncation policies match. In this case, we first
                // check that the truncation levels also match, then
                // we run the truncated multiplication. We will have
                // to assign the tag to the return value.
                if (obake_unlikely(v0 != v1)) {
                    throw""","""            if constexpr (::std::is_same_v<type0, type1>) {
                // The truncation policies match. In this case, we first
                // check that the truncation levels also match, then
                // we run the truncated multiplication. We will have
                // to assign the tag to the return value.
                const auto level = [](const auto &v) -> const auto & {
                    if constexpr (requires { v.first; }) {
                        return v.first;
                    } else {
                        return v;
                    }
                };
                if (obake_unlikely(level(v0) != level(v1))) {
                    throw""")],PW+'''int main(){ auto [x,y]=make_p_series_p<W>(symbol_set{"x","y"},2,symbol_set{"x"},"x","y"); auto [u]=make_p_series_p<W>(symbol_set{"x","y"},2,symbol_set{"y"},"x"); try { const auto r=x*y*u; } catch(const std::invalid_argument &) { return 0; } return 1; }
''',ws,"two power series truncated at the same partial degree, but in different symbols","they are multiplied with the truncation of one of them instead of signalling the mismatch")
bug("B38","P30",[(wh,"""        power_series::truncate_p_degree(ps, deg, ss);

        // Set the truncation policy/level in ps.
        ps.tag().trunc = power_series::detail::trunc_t<detail::psk_deg_t<K>>(::std::pair{deg, ::std::move(ss)});
""","""        // Set the truncation policy/level in ps.
        ps.tag().trunc = power_series::detail::trunc_t<detail::psk_deg_t<K>>(::std::pair{deg, ::std::move(ss)});
        power_series::truncate_p_degree(ps, deg, ss);
""")],PW+'''int main(){ auto [x,y]=make_p_series<W>(symbol_set{"x","y"},"x","y"); auto a=x*x*x+x*y*y+y*y*y; set_truncation(a,2,symbol_set{"x"}); return a.size()==2 ? 0 : 1; }
''',ws,"a partial truncation set on a series that has terms beyond it","the terms beyond the truncation are kept")
bug("B39","P31",[(ph,"""        ret_t retval;
        retval.set_symbol_set_fw(ss_fw);
        retval.tag() = x.tag();
        retval.set_n_segments(x.get_s_size());
""","""        ret_t retval;
        retval.set_symbol_set_fw(ss_fw);
        retval.set_n_segments(x.get_s_size());
""")],PW+'''int main(){ auto [x,y]=make_p_series_t<W>(symbol_set{"x","y"},3,"x","y"); const auto d=diff(x*x*y+y,"y"); return get_truncation(d).index()==1 && (d*d).size()==2 ? 0 : 1; }
''',ws,"the derivative of a truncated power series, and products of it","the derivative is not truncated")
bug("B40","P31",[(ph,"""        rT merged_x;
        merged_x.set_symbol_set(new_ss);
        merged_x.tag() = x_.tag();
        ::obake::detail::series_sym_extender(merged_x, ::std::forward<T>(x_), symbol_idx_map<symbol_set>{{s_idx, {s}}});
""","""        rT merged_x;
        merged_x.set_symbol_set(new_ss);
        ::obake::detail::series_sym_extender(merged_x, ::std::forward<T>(x_), symbol_idx_map<symbol_set>{{s_idx, {s}}});
""")],PW+'''int main(){ auto [x]=make_p_series_t<W>(1,"x"); const auto d=integrate(x+1,"y"); return get_truncation(d).index()==1 && d.size()==1 ? 0 : 1; }
''',ws,"the integral of a truncated power series with respect to a symbol it does not have","the integral is not truncated")
bug("B41","P31",[(wh,"""    // Store x's tag.
    auto orig_tag = x.tag();

    // Perform the operation.
    auto ret = polynomials::detail::pow_poly_impl(::std::forward<T>(x), ::std::forward<U>(y));

    // Re-assign the tag and truncate.
    ret.tag() = ::std::move(orig_tag);
    ::obake::truncate(ret);
""","""    if (x.size() == 1u) {
        // Store x's tag.
        auto orig_tag = x.tag();

        // Perform the operation.
        auto ret = polynomials::detail::pow_poly_impl(::std::forward<T>(x), ::std::forward<U>(y));

        // Re-assign the tag and truncate.
        ret.tag() = ::std::move(orig_tag);
        ::obake::truncate(ret);

        return ret;
    }

    // NOTE: repeated multiplications truncate.
    auto ret = polynomials::detail::pow_poly_impl(::std::forward<T>(x), ::std::forward<U>(y));
""")],PW+'''int main(){ auto [x,y]=make_p_series_t<W>(symbol_set{"x","y"},2,"x","y"); const auto d=obake::pow(x+y,0); return get_truncation(d).index()==1 ? 0 : 1; }
''',ws,"the zero-th power of a truncated power series that has more than one term","the result is not truncated")
