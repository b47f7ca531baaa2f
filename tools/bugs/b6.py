exec(open('/verif/tools/bugs/b5.py').read().split('bug("B42"')[0])
ss="src/series.cpp"
pm="src/polynomials/packed_monomial.cpp"
dm="include/obake/polynomials/d_packed_monomial.hpp"
TX='''#include <sstream>
#include <iostream>
#include <obake/tex_stream_insert.hpp>
#include <obake/cf/cf_stream_insert.hpp>
template <typename T> std::string txt(const T &x){ std::ostringstream o; o << x; auto s = o.str(); return s.substr(s.rfind('\\n')+1); }
template <typename T> std::string tex(const T &x){ std::ostringstream o; obake::tex_stream_insert(o, x); return o.str(); }
template <typename T> std::string cft(const T &x){ std::ostringstream o; obake::cf_stream_insert(o, x); return o.str(); }
'''
bug("B45","P33",[(ss,"""    } else if (cf_is_minus_one && !key_is_one) {
        // Turn the coefficient into a minus sign
        // if it is -1 and the key is not "1".
        str_cf = '-';
    }""","""    } else if (cf_is_minus_one && (!key_is_one || !ret.empty())) {
        // Turn the coefficient into a minus sign
        // if it is -1 and the key is not "1" (or it will be joined
        // with the plus sign of the previous term).
        str_cf = '-';
    }""")],TX+PW+'''int main(){ polynomial<M,long> p; p.set_symbol_set(symbol_set{"x"}); p.add_term(M{1},3); p.add_term(M{0},-1); auto s=txt(p); std::cout<<s<<"\\n"; polynomial<M,long> q; q.set_symbol_set(symbol_set{"x"}); for(int i=1;i<9;++i) q.add_term(M{i},7); q.add_term(M{0},-1); auto t=txt(q); std::cout<<t<<"\\n"; for (auto &u : {s,t}) { auto i=u.find("-"); if (i==std::string::npos || i+1>=u.size() || u[i+1]!='1') return 1; } return 0; }
''',ws,'a constant term -1 that is not the first one printed','the constant is lost: 3*x-1 is printed as 3*x-')
bug("B46","P33",[(pm,"""    if (!num_str.empty() && !den_str.empty()) {
        // We have both negative and positive exponents,
        // print them both in a fraction.""","""    if (!num_str.empty() && den_str.size() > num_str.size()) {
        // Mostly negative exponents: keep the fraction small, in front.
        os << fmt::format("\\\\frac{{1}}{{{}}}", den_str);
    } else if (!num_str.empty() && !den_str.empty()) {
        // We have both negative and positive exponents,
        // print them both in a fraction.""")],TX+PW+'''#include <obake/key/key_tex_stream_insert.hpp>
int main(){ std::ostringstream o; key_tex_stream_insert(o, M{1,-2}, symbol_set{"x","y"}); std::cout<<o.str()<<"\\n"; return o.str()=="\\\\frac{{x}}{{y}^{2}}" ? 0 : 1; }
''',ws,'a monomial with positive and negative exponents whose denominator is longer than its numerator','the positive powers are lost in the TeX form')
bug("B47","P33",[(h,"""    // If we reached the limit without printing all terms in the series, print the ellipsis.
    if (limit && count == limit && it != end) {""","""    // If we reached the limit without printing all terms in the series, print the ellipsis.
    if (limit && s.size() >= limit) {""")],TX+PW+'''int main(){ for (int n=48;n<53;++n) { polynomial<M,long> p; p.set_symbol_set(symbol_set{"x"}); for(int i=0;i<n;++i) p.add_term(M{i},7); auto s=txt(p); if ((s.find("...")!=std::string::npos)!=(n>50)) return 1; } return 0; }
''',ws,'a series of exactly 50 terms','an ellipsis is printed although all terms are')
