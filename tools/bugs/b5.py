exec(open('/verif/tools/bugs/b4.py').read().split('bug("B36"')[0])
AR='''#include <sstream>
#include <boost/archive/binary_iarchive.hpp>
#include <boost/archive/binary_oarchive.hpp>
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
'''
sh="include/obake/symbols.hpp"
LB=ws
bug("B42","P32",[(sh,"""    // Extract the underlying sequence from ss
    // and prepare its size.
    auto seq(ss.extract_sequence());
    seq.resize(size);

    // Fetch the symbol names from the archive.
    for (auto &n : seq) {
        ar >> n;
    }

    // Move the sequence back into ss.
    ss.adopt_sequence(::boost::container::ordered_unique_range_t{}, ::std::move(seq));
""","""    ss.reserve(size);

    // Fetch the symbol names from the archive.
    // NOTE: they are sorted.
    for (decltype(ss.size()) i = 0; i < size; ++i) {
        ::std::string n;
        ar >> n;
        ss.insert(ss.end(), ::std::move(n));
    }
""")],AR+PW+'''int main(){ symbol_set a{"x","y"}, b{"a","x","z"}; std::stringstream ss; { boost::archive::text_oarchive o(ss); o << a; } { boost::archive::text_iarchive i(ss); i >> b; } return a==b ? 0 : 1; }
''',LB+"",'a set of symbols loaded into one that is not empty','the symbols that were there before are kept',dict(flags="-lboost_serialization"))
bug("B43","P32",[(h,"""        for (const auto &tab : m_s_table) {
            ar << tab.size();

            // Save""","""        for (const auto &tab : m_s_table) {
            if (tab.empty() && &tab != &m_s_table.front()) {
                // Nothing to save.
                continue;
            }
            ar << tab.size();

            // Save""")],AR+PW+'''int main(){ int bad=0; for(unsigned l=0;l<4;++l) for(int n=0;n<4;++n) { polynomial<M,double> p, q; p.set_symbol_set(symbol_set{"x"}); p.set_n_segments(l); for(int i=0;i<n;++i) p.add_term(M{i},1); std::stringstream ss; { boost::archive::text_oarchive o(ss); o << p << 42; }
 try { boost::archive::text_iarchive i(ss); int k; i >> q >> k; if(k!=42||!(p==q)) ++bad; } catch(...) { ++bad; } } return bad; }
''',LB,'a segmented series in which a table other than the first is empty','the archive cannot be read back',dict(flags="-lboost_serialization"))
bug("B44","P32",[(wh,"""    // Save the index.
    ar << t.index();
""","""    // Save the index.
    const auto idx = static_cast<unsigned>(t.index());
    ar << idx;
""")],AR+PW+'''int main(){ auto [x]=make_p_series_t<p_series<M,double>>(3,"x"); p_series<M,double> q; std::stringstream ss; { boost::archive::binary_oarchive o(ss); o << x << 42; } try { boost::archive::binary_iarchive i(ss); int k; i >> q >> k; return k==42 && q==x ? 0 : 1; } catch(...) { return 2; } }
''',LB,'a power series in an archive that does not delimit values, such as a binary archive','the archive cannot be read back',dict(flags="-lboost_serialization"))
