exec(open('/verif/tools/bugs/b7.py').read().split('bug("B48"')[0])
bug("B52","P36",[(h,"""                [](const auto &r, ::std::size_t init) {
                    for (const auto &tab : r) {
                        init += series_default_byte_size_impl::st_byte_size<T>(tab);
                    }

                    return init;
                },""","""                [](const auto &r, ::std::size_t) {
                    ::std::size_t acc = 0;
                    for (const auto &tab : r) {
                        acc += series_default_byte_size_impl::st_byte_size<T>(tab);
                    }

                    return acc;
                },""")],PM+MA+'''#include <obake/byte_size.hpp>
int main(){ using P=polynomial<M,long>; auto [x,y]=make_polynomials<P>("x","y"); P p, q; for (auto *s : {&p,&q}) { s->set_symbol_set(symbol_set{"x"}); } q.set_n_segments(14); P r; r.set_symbol_set(symbol_set{"x"}); r.set_n_segments(14); const auto e=obake::byte_size(r); for (int i=0;i<20000;++i) { p.add_term(M{i},1); q.add_term(M{i},1); }
const auto a=obake::byte_size(p), b=obake::byte_size(q); P z; return b-e==a-obake::byte_size(z) + (b-e-(b-e)) ? 0 : (b-e+4096<a); }
''',ws,'a series with more tables than one piece of the parallel reduction takes, where a piece is reduced onto an earlier one','the terms of some tables are not counted')
