// Contracts of trimming, extension with symbols, evaluation and substitution (obake/series.hpp,
// obake/polynomials/polynomial.hpp).
#include "values.hpp"

#include "src/detail/fw_utils.cpp"
#include "src/detail/hc.cpp"
#include "src/detail/to_string.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

namespace vk
{
// a series that is not a polynomial
using PT = obake::series<mono, cf, tag>;
template <typename Ser>
inline void mark(Ser &s)
{
    if constexpr (std::is_same_v<Ser, PT>) {
        s.tag().n = 42;
    }
}
template <typename Ser>
inline void marked(const Ser &s)
{
    if constexpr (std::is_same_v<Ser, PT>) {
        vf_check(s.tag().n == 42, "the tag is kept");
    }
}
} // namespace vk

using namespace vk;

static const unsigned sets[][2] = {{3, 2}, {5, 7}, {7, 5}, {1, 4}, {6, 0}, {2, 2}, {4, 3}, {0, 3}};

#define GUARD(...)                                                                                                     \
    try {                                                                                                              \
        __VA_ARGS__;                                                                                                   \
        vf_check(f < 0 || fuse >= 0, "exceptions are not swallowed");                                                  \
    } catch (const oops &) {                                                                                           \
        vf_check(f >= 0, "only exceptions of the coefficients are thrown");                                            \
    }                                                                                                                  \
    fuse = -1;

template <typename Ser, bool Throw>
static void trims()
{
    const int q = Throw ? 0 : vf::cases(0, 7);
    const unsigned m = sets[q][0];
    const int n = Throw ? 2 : vf::cases(0, m == 0 ? 1 : m == 7 ? 2 : 3), f = Throw ? vf::cases(0, 5) : -1;
    vf_umap::order = n == 2;
    any_functions();
    Ser a;
    const pspec sa = arbitrary_p(a, names(m), n == 2 && m == 3, n, elimit, 1);
    mark(a);
    fuse = f;
    GUARD(const Ser r = obake::trim(std::as_const(a)); fuse = f < 0 ? -1 : fuse; wf(r); marked(r);
          unsigned kept = 0;
          for (unsigned i = 0, j = 0; i < 3; ++i) {
              const auto &ss = r.get_symbol_set();
              const bool in = ss.find(std::string(1, static_cast<char>('x' + i))) != ss.end();
              bool used = false;
              if (m >> i & 1u) {
                  for (int t = 0; t < n; ++t) {
                      used |= sa.k[t].e[j] != 0;
                  }
                  ++j;
              }
              vf_check(in == used, "trimming removes exactly the symbols that do not occur");
              kept |= unsigned(in) << i;
          };
          vf_check(r.get_symbol_set() == names(kept), "trimming keeps the order of the symbols");
          const mono x = any_mono(NS, 2 * elimit); u64 e = 0;
          for (int t = 0; t < n; ++t) { e += sel(ext(sa.k[t], m, kept) == x, ctab[sa.id[t]]); }
          vf_check(at(r, x) == e, "trimming keeps the terms, with trimmed coefficients"))
    same(a, sa);
    marked(a);
}
VF_INST(trim_p, trims<P, false>)
VF_INST(trim_t, trims<PT, false>)
VF_INST(trim_throws, trims<P, true>)

template <typename Ser, bool Throw>
static void adds()
{
    const int q = Throw ? 0 : vf::cases(0, 7);
    const unsigned m = sets[q][0], p = sets[q][1];
    const int n = Throw ? 2 : vf::cases(0, m == 0 ? 1 : 3), f = Throw ? vf::cases(0, 3) : -1;
    vf_umap::order = n == 2;
    Ser a;
    const pspec sa = arbitrary_p(a, names(m), n == 2 && m == 3, n, elimit, 1);
    mark(a);
    fuse = f;
    GUARD(const Ser r = obake::add_symbols(std::as_const(a), names(p)); marked(r);
          vf_check(r.get_symbol_set() == names(m | p), "the symbols are added"); same(r, ext(sa, m, m | p)))
    same(a, sa);
    marked(a);
}
VF_INST(add_p, adds<P, false>)
VF_INST(add_t, adds<PT, false>)
VF_INST(add_throws, adds<P, true>)

static const unsigned vsets[][2] = {{3, 3}, {3, 7}, {5, 7}, {7, 7}, {1, 5}, {6, 6}, {4, 6}, {0, 0}, {0, 2}, {3, 1}, {3, 6}, {7, 6}, {1, 0}};

template <typename Ser, bool Throw>
static void evaluates()
{
    const int q = Throw ? 0 : vf::cases(0, 12);
    const unsigned m = vsets[q][0], p = vsets[q][1];
    const int n = Throw ? 2 : vf::cases(0, m == 0 ? 1 : 3), f = Throw ? vf::cases(0, 3) : -1;
    vf_umap::order = n == 2;
    any_functions();
    Ser a;
    const pspec sa = arbitrary_p(a, names(m), n == 2 && m == 3, n, elimit, 1);
    u64 v[3];
    const auto sm = any_values(p, v);
    bool thrown = false;
    fuse = f;
    try {
        GUARD(const num r = obake::evaluate(std::as_const(a), sm); u64 e = 0; u64 w[3]; unsigned j = 0;
              for (unsigned i = 0; i < 3; ++i) { w[j] = v[i]; j += m >> i & 1u; };
              for (int t = 0; t < n; ++t) { e += product(vk::value(sa.k[t], w, j), vk::value(sa.id[t], sm)); }
              vf_check(r.v == e, "the value is the sum of the products of the values of keys and coefficients"))
    } catch (const std::invalid_argument &) {
        thrown = true;
    }
    vf_check(thrown == ((m & ~p) != 0), "an invalid argument is signalled exactly if there is no value for a symbol");
    same(a, sa);
}
VF_INST(eval_p, evaluates<P, false>)
VF_INST(eval_t, evaluates<PT, false>)
VF_INST(eval_throws, evaluates<P, true>)

#if defined(VF_THOROUGH)
constexpr int most = 3;
#else
constexpr int most = 2;
#endif
template <bool Throw>
static void substitutes()
{
    const int q = Throw ? 9 : vf::cases(0, 12);
    const unsigned m = vsets[q][0], p = vsets[q][1];
    const int n = Throw ? 2 : vf::cases(0, m == 0 || m == 7 ? 1 : q == 9 || q == 4 || q == 12 ? 2 : most), f = Throw ? vf::cases(0, 15) : -1;
    vf_umap::order = n == 2;
    any_functions();
    P a;
    const pspec sa = arbitrary_p(a, names(m), n == 2 && m == 3, n, elimit, 1);
    u64 v[3];
    const auto sm = any_values(p, v);
    fuse = f;
    GUARD(const P r = obake::subs(std::as_const(a), sm); wf(r); u64 w[3] = {}; unsigned j = 0; mono left(1, 1, 1);
          for (unsigned i = 0; i < 3; ++i) {
              if (m >> i & 1u) {
                  w[j] = p >> i & 1u ? v[i] : 0;
                  left.e[j] = !(p >> i & 1u);
                  ++j;
              }
          };
          const mono x = any_mono(NS, 2 * elimit); u64 e = 0;
          for (int t = 0; t < n; ++t) {
              mono k(sa.k[t]), z(sa.k[t]);
              for (unsigned i = 0; i < j; ++i) {
                  k.e[i] *= left.e[i];
                  z.e[i] -= k.e[i];
              }
              e += sel(k == x, product(vk::value(z, w, j), vk::value(sa.id[t], sm)));
          };
          vf_check(at(r, x) == e, "substitution yields the sum of the products of the substituted keys and coefficients");
          vf_check(n == 0 || r.get_symbol_set() == names(m), "substitution keeps the symbols"))
    same(a, sa);
}
VF_INST(subs_p, substitutes<false>)
VF_INST(subs_throws, substitutes<true>)
