// Contracts of the mathematical functions on plain numbers (obake/math/*.hpp, obake/hash.hpp, obake/byte_size.hpp) and
// of the order in which the implementations of a function are looked for: the user's customisation first, then what
// argument-dependent lookup finds, then the default.
#include <cstdint>
#include <string>
#include <type_traits>

#include <mp++/integer.hpp>
#include <mp++/rational.hpp>

#include <obake/byte_size.hpp>
#include <obake/hash.hpp>
#include <obake/key/key_degree.hpp>
#include <obake/key/key_evaluate.hpp>
#include <obake/key/key_is_compatible.hpp>
#include <obake/key/key_is_one.hpp>
#include <obake/key/key_is_zero.hpp>
#include <obake/key/key_merge_symbols.hpp>
#include <obake/key/key_p_degree.hpp>
#include <obake/key/key_trim.hpp>
#include <obake/key/key_trim_identify.hpp>
#include <obake/math/degree.hpp>
#include <obake/math/diff.hpp>
#include <obake/math/evaluate.hpp>
#include <obake/math/fma3.hpp>
#include <obake/math/integrate.hpp>
#include <obake/math/is_zero.hpp>
#include <obake/math/negate.hpp>
#include <obake/math/p_degree.hpp>
#include <obake/math/pow.hpp>
#include <obake/math/safe_cast.hpp>
#include <obake/math/safe_convert.hpp>
#include <obake/math/subs.hpp>
#include <obake/math/trim.hpp>
#include <obake/math/truncate_degree.hpp>
#include <obake/math/truncate_p_degree.hpp>
#include <obake/polynomials/monomial_diff.hpp>
#include <obake/polynomials/monomial_integrate.hpp>
#include <obake/polynomials/monomial_mul.hpp>
#include <obake/polynomials/monomial_pow.hpp>
#include <obake/polynomials/monomial_range_overflow_check.hpp>
#include <obake/polynomials/monomial_subs.hpp>
#include <obake/symbols.hpp>

#include "vf.hpp"

#include "src/detail/to_string.cpp"
#include "src/symbols.cpp"

using vf::Z;
using obake::symbol_map;
using obake::symbol_set;
using zint = mppp::integer<1>;
using rat = mppp::rational<1>;

static const std::string sym("x");
static symbol_map<int> some_map()
{
    symbol_map<int> m;
    m.emplace("x", vf::any<int>());
    return m;
}

// ---- integral types
template <typename T>
static void integral()
{
    const T x = vf::any<T>();
    const auto m = some_map();
    vf_check(obake::diff(x, sym) == T(0), "the derivative of a number is zero");
    static_assert(std::is_same_v<decltype(obake::diff(x, sym)), T>);
    vf_check(obake::evaluate(x, m) == x, "the value of a number is the number");
    static_assert(std::is_same_v<decltype(obake::evaluate(x, m)), T>);
    vf_check(obake::trim(x) == x, "trimming a number does nothing");
    vf_check(obake::is_zero(x) == (x == T(0)), "exactly zero is zero");
    vf_check(obake::byte_size(x) == sizeof(T), "the size of a number");
    const T y = vf::any<T>();
    if (x == y) {
        vf_check(obake::hash(x) == obake::hash(y), "equal numbers have equal hashes");
    }
    if constexpr (!std::is_same_v<T, bool>) {
        const bool sgn = std::is_signed_v<T>;
        vf_assume(!sgn || x != std::numeric_limits<T>::min());
        T z = x;
        T &r = obake::negate(z);
        vf_check(&r == &z, "negation is in place");
        vf_check(z == static_cast<T>(T(0) - x), "negation changes the sign");
        vf_check(obake::negate(T(x)) == static_cast<T>(T(0) - x), "negation of a temporary");
    }
}
VF_INST(int_bool, integral<bool>)
VF_INST(int_schar, integral<signed char>)
VF_INST(int_ushort, integral<unsigned short>)
VF_INST(int_int, integral<int>)
VF_INST(int_uint, integral<unsigned>)
VF_INST(int_long, integral<long>)
VF_INST(int_ulong, integral<unsigned long>)

// ---- multiprecision
static zint any_z()
{
    return zint(vf::any<std::int64_t>());
}
static void integers()
{
    const auto v = vf::any<std::int64_t>(), w = vf::any<std::int64_t>(), u = vf::any<std::int64_t>();
    const zint x(v), y(w);
    const auto m = some_map();
    vf_check(obake::diff(x, sym) == 0, "the derivative of a number is zero");
    vf_check(obake::evaluate(x, m) == x, "the value of a number is the number");
    vf_check(obake::trim(x) == x, "trimming a number does nothing");
    vf_check(obake::is_zero(x) == (v == 0), "exactly zero is zero");
    zint z(x);
    zint &r = obake::negate(z);
    vf_check(&r == &z && z + x == 0, "negation is in place");
    vf_check(obake::negate(zint(v)) == z, "negation of a temporary");
    z = zint(u);
    obake::fma3(z, x, y);
    vf_check(z == zint(u) + x * y, "a fused product is added to the accumulator");
    // operands may be the accumulator
    z = x;
    obake::fma3(z, z, y);
    vf_check(z == x + x * y, "the accumulator may be an operand");
    z = x;
    obake::fma3(z, y, z);
    vf_check(z == x + y * x, "the accumulator may be an operand");
    z = x;
    obake::fma3(z, z, z);
    vf_check(z == x + x * x, "the accumulator may be both operands");
    vf_check(obake::byte_size(x) >= sizeof(x), "the size covers the object");
    if (x == y) {
        vf_check(obake::hash(x) == obake::hash(y), "equal numbers have equal hashes");
    }
}
VF_INST(integers, integers)
static void rationals()
{
    const auto v = vf::any<int>();
    const rat q(v);
    const auto m = some_map();
    vf_check(obake::diff(q, sym) == 0, "the derivative of a number is zero");
    vf_check(obake::evaluate(q, m) == q, "the value of a number is the number");
    vf_check(obake::trim(q) == q, "trimming a number does nothing");
    vf_check(obake::is_zero(q) == (v == 0), "exactly zero is zero");
    rat z(q);
    rat &r = obake::negate(z);
    vf_check(&r == &z && z + q == 0, "negation is in place");
    vf_check(obake::negate(rat(q)) == z, "negation of a temporary");
    vf_check(obake::byte_size(q) >= sizeof(q), "the size covers the object");
}
VF_INST(rationals, rationals)

// ---- where implementations are looked for
namespace usr
{
// 1: customisation, 2: argument-dependent lookup, 3: the default
inline int who = 0;
// has both a customisation and functions in its namespace
struct both {
    int v = 0;
    both() = default;
    explicit both(int n) : v(n) {}
    bool operator==(const both &o) const
    {
        who = 3;
        return v == o.v;
    }
    both operator-() const
    {
        who = 3;
        return both(-v);
    }
};
// has functions in its namespace only
struct adl {
    int v = 0;
    adl() = default;
    explicit adl(int n) : v(n) {}
    bool operator==(const adl &o) const
    {
        who = 3;
        return v == o.v;
    }
    adl operator-() const
    {
        who = 3;
        return adl(-v);
    }
};
#define ADL(T)                                                                                                         \
    inline int diff(const T &x, const std::string &)                                                                   \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return x.v;                                                                                                    \
    }                                                                                                                  \
    inline int integrate(const T &x, const std::string &)                                                              \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return x.v;                                                                                                    \
    }                                                                                                                  \
    inline int degree(const T &x)                                                                                      \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return x.v;                                                                                                    \
    }                                                                                                                  \
    inline int p_degree(const T &x, const symbol_set &)                                                                \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return x.v;                                                                                                    \
    }                                                                                                                  \
    inline int evaluate(const T &x, const symbol_map<int> &)                                                           \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return x.v;                                                                                                    \
    }                                                                                                                  \
    inline int subs(const T &x, const symbol_map<int> &)                                                               \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return x.v;                                                                                                    \
    }                                                                                                                  \
    inline int pow(const T &x, int)                                                                                    \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return x.v;                                                                                                    \
    }                                                                                                                  \
    inline bool is_zero(const T &x)                                                                                    \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return x.v == 0;                                                                                               \
    }                                                                                                                  \
    inline void negate(T &x)                                                                                           \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        x.v = ~x.v;                                                                                                    \
    }                                                                                                                  \
    inline T trim(const T &x)                                                                                          \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return x;                                                                                                      \
    }                                                                                                                  \
    inline std::size_t byte_size(const T &)                                                                            \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return 2;                                                                                                      \
    }                                                                                                                  \
    inline std::size_t hash(const T &)                                                                                 \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return 2;                                                                                                      \
    }                                                                                                                  \
    inline bool safe_convert(T &x, const T &y)                                                                         \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        x.v = y.v;                                                                                                     \
        return false;                                                                                                  \
    }                                                                                                                  \
    inline void fma3(T &x, const T &, const T &)                                                                       \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        x.v = 2;                                                                                                       \
    }                                                                                                                  \
    inline void truncate_degree(T &x, int n)                                                                           \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        x.v = n;                                                                                                       \
    }                                                                                                                  \
    inline void truncate_p_degree(T &x, int n, const symbol_set &)                                                     \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        x.v = n;                                                                                                       \
    }
ADL(both)
ADL(adl)
} // namespace usr

namespace obake::customisation
{
#define CUST_FN(name, ret, params, ...)                                                                                \
    struct name##_f {                                                                                                  \
        ret operator() params const                                                                                    \
        {                                                                                                              \
            usr::who = 1;                                                                                              \
            __VA_ARGS__;                                                                                               \
        }                                                                                                              \
    };
CUST_FN(vdiff, int, (const usr::both &x, const std::string &), return x.v)
CUST_FN(vdeg, int, (const usr::both &x), return x.v)
CUST_FN(vpdeg, int, (const usr::both &x, const symbol_set &), return x.v)
CUST_FN(veval, int, (const usr::both &x, const symbol_map<int> &), return x.v)
CUST_FN(vtrim, usr::both, (const usr::both &x), return usr::both(x.v))
CUST_FN(vsize, std::size_t, (const usr::both &), return 1)
CUST_FN(vfma, void, (usr::both & x, const usr::both &, const usr::both &), x.v = 1)
CUST_FN(vtd, void, (usr::both & x, int n), x.v = n)
CUST_FN(vtpd, void, (usr::both & x, int n, const symbol_set &), x.v = n)
template <typename T>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto diff<T> = vdiff_f{};
template <typename T>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto integrate<T> = vdiff_f{};
template <typename T>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto degree<T> = vdeg_f{};
template <typename T>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto p_degree<T> = vpdeg_f{};
template <typename T>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto evaluate<T, int> = veval_f{};
template <typename T>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto trim<T> = vtrim_f{};
template <typename T>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto byte_size<T> = vsize_f{};
template <typename T>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto hash<T> = vsize_f{};
template <typename T, typename U, typename V>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto fma3<T, U, V> = vfma_f{};
template <typename T, typename U>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto truncate_degree<T, U> = vtd_f{};
template <typename T, typename U>
requires std::is_same_v<remove_cvref_t<T>, usr::both> inline constexpr auto truncate_p_degree<T, U> = vtpd_f{};
} // namespace obake::customisation
namespace usr
{
inline int subs(obake::customisation::subs_t, const both &x, const symbol_map<int> &)
{
    who = 1;
    return x.v;
}
inline int pow(obake::customisation::pow_t, const both &x, int)
{
    who = 1;
    return x.v;
}
inline bool is_zero(obake::customisation::is_zero_t, const both &x)
{
    who = 1;
    return x.v == 0;
}
inline void negate(obake::customisation::negate_t, both &x)
{
    who = 1;
    x.v = ~x.v;
}
inline bool safe_convert(obake::customisation::safe_convert_t, both &x, const both &y)
{
    who = 1;
    x.v = y.v;
    return false;
}
} // namespace usr

template <typename T>
static void lookup()
{
    constexpr int w = std::is_same_v<T, usr::both> ? 1 : 2;
    const int v = vf::any<int>();
    const T x(v);
    const auto m = some_map();
    const symbol_set ss{"x"};
#define BY(e, what)                                                                                                    \
    usr::who = 0;                                                                                                      \
    vf_check((e), what);                                                                                               \
    vf_check(usr::who == w, what ": the implementation with the highest precedence is used")
    BY(obake::diff(x, sym) == v, "diff");
    BY(obake::integrate(x, sym) == v, "integrate");
    BY(obake::degree(x) == v, "degree");
    BY(obake::p_degree(x, ss) == v, "p_degree");
    BY(obake::evaluate(x, m) == v, "evaluate");
    BY(obake::subs(x, m) == v, "subs");
    BY(obake::pow(x, 3) == v, "pow");
    BY(obake::is_zero(x) == (v == 0), "is_zero");
    BY(obake::trim(x).v == v, "trim");
    BY(obake::byte_size(x) == w, "byte_size");
    BY(obake::hash(x) == w, "hash");
    T y(0);
    BY(!obake::safe_convert(y, x), "safe_convert");
    vf_check(y.v == v, "safe_convert assigns");
    usr::who = 0;
    bool thrown = false;
    try {
        obake::safe_cast<T>(x);
    } catch (const obake::safe_cast_failure &) {
        thrown = true;
    }
    vf_check(thrown && usr::who == w, "a refused conversion is signalled");
    BY(&obake::negate(y) == &y, "negate");
    vf_check(y.v == ~v, "the operand is negated in place");
    usr::who = 0;
    obake::fma3(y, x, x);
    vf_check(y.v == w && usr::who == w, "fma3: the implementation with the highest precedence is used");
    usr::who = 0;
    obake::truncate_degree(y, v);
    vf_check(y.v == v && usr::who == w, "truncate_degree: the implementation with the highest precedence is used");
    usr::who = 0;
    y.v = 0;
    obake::truncate_p_degree(y, v, ss);
    vf_check(y.v == v && usr::who == w, "truncate_p_degree: the implementation with the highest precedence is used");
}
VF_INST(lookup_custom, lookup<usr::both>)
VF_INST(lookup_adl, lookup<usr::adl>)

// ---- the same for keys and monomials: first the customisation, then what argument-dependent lookup finds
namespace usr
{
struct kboth {
    int v = 0;
    bool operator==(const kboth &) const = default;
};
struct kadl {
    int v = 0;
    bool operator==(const kadl &) const = default;
};
using sidx = obake::symbol_idx;
using sidx_set = obake::symbol_idx_set;
using sidx_map = obake::symbol_idx_map<int>;
using ins_map = obake::symbol_idx_map<symbol_set>;
// name, result, parameters, arguments of the customisation's template, value
#define FNS(F, T)                                                                                                      \
    F(key_degree, int, (const T &x, const symbol_set &), x.v, (T))                                                     \
    F(key_p_degree, int, (const T &x, const sidx_set &, const symbol_set &), x.v, (T))                                 \
    F(key_evaluate, int, (const T &x, const sidx_map &, const symbol_set &), x.v, (T))                                 \
    F(key_is_compatible, bool, (const T &x, const symbol_set &), x.v > 0, (T))                                         \
    F(key_is_one, bool, (const T &x, const symbol_set &), x.v > 0, (T))                                                \
    F(key_is_zero, bool, (const T &x, const symbol_set &), x.v > 0, (T))                                               \
    F(key_merge_symbols, T, (const T &x, const ins_map &, const symbol_set &), x, (T))                                 \
    F(key_trim, T, (const T &x, const sidx_set &, const symbol_set &), x, (T))                                         \
    F(key_trim_identify, void, (std::vector<int> & o, const T &x, const symbol_set &), void(o[0] = x.v), (T))          \
    F(monomial_diff, U_PAIR(T), (const T &x, const sidx &, const symbol_set &), U_PAIR(T)(x.v, x), (T))                \
    F(monomial_integrate, U_PAIR(T), (const T &x, const sidx &, const symbol_set &), U_PAIR(T)(x.v, x), (T))           \
    F(monomial_mul, void, (T & r, const T &x, const T &, const symbol_set &), void(r = x), (T))                        \
    F(monomial_pow, T, (const T &x, int, const symbol_set &), x, (T))                                                  \
    F(monomial_subs, U_PAIR(T), (const T &x, const sidx_map &, const symbol_set &), U_PAIR(T)(x.v, x), (T))            \
    F(monomial_range_overflow_check, bool, (const std::vector<T> &x, const std::vector<T> &, const symbol_set &),      \
      x[0].v > 0, (std::vector<T>))
#define U_PAIR(T) std::pair<int, T>
#define ADL_FN(name, ret, params, val, key)                                                                            \
    inline ret name params                                                                                             \
    {                                                                                                                  \
        who = 2;                                                                                                       \
        return val;                                                                                                    \
    }
FNS(ADL_FN, kboth)
FNS(ADL_FN, kadl)
#define CU_FN(name, ret, params, val, key)                                                                             \
    struct c_##name {                                                                                                  \
        ret operator() params const                                                                                    \
        {                                                                                                              \
            who = 1;                                                                                                   \
            return val;                                                                                                \
        }                                                                                                              \
    };
FNS(CU_FN, kboth)
} // namespace usr
namespace obake::customisation
{
#define KC1(name)                                                                                                      \
    template <typename T>                                                                                              \
    requires std::is_same_v<remove_cvref_t<T>, usr::kboth> inline constexpr auto name<T> = usr::c_##name{};
KC1(key_degree)
KC1(key_p_degree)
KC1(key_is_compatible)
KC1(key_is_one)
KC1(key_is_zero)
KC1(key_merge_symbols)
KC1(key_trim)
KC1(key_trim_identify)
} // namespace obake::customisation
namespace obake::customisation
{
template <typename T, typename U>
requires std::is_same_v<remove_cvref_t<T>, usr::kboth> inline constexpr auto key_evaluate<T, U> = usr::c_key_evaluate{};
} // namespace obake::customisation
namespace obake::customisation
{
KC1(monomial_diff)
KC1(monomial_integrate)
template <typename T, typename U, typename V>
requires std::is_same_v<remove_cvref_t<T>, usr::kboth> inline constexpr auto monomial_mul<T, U, V> = usr::c_monomial_mul{};
template <typename T, typename U>
requires std::is_same_v<remove_cvref_t<T>, usr::kboth> inline constexpr auto monomial_pow<T, U> = usr::c_monomial_pow{};
template <typename T, typename U>
requires std::is_same_v<remove_cvref_t<T>, usr::kboth> inline constexpr auto monomial_subs<T, U>
    = usr::c_monomial_subs{};
template <typename T, typename U>
requires std::is_same_v<remove_cvref_t<T>, std::vector<usr::kboth>> inline constexpr auto
    monomial_range_overflow_check<T, U>
    = usr::c_monomial_range_overflow_check{};
} // namespace obake::customisation

template <typename T>
static void lookup_keys()
{
    constexpr int w = std::is_same_v<T, usr::kboth> ? 1 : 2;
    const int v = vf::any<int>();
    const T x{v};
    const symbol_set ss{"x"};
    const obake::symbol_idx_set si{0};
    obake::symbol_idx_map<int> sm;
    sm.emplace(0u, 1);
    const obake::symbol_idx_map<symbol_set> im;
    BY(obake::key_degree(x, ss) == v, "key_degree");
    BY(obake::key_p_degree(x, si, ss) == v, "key_p_degree");
    BY(obake::key_evaluate(x, sm, ss) == v, "key_evaluate");
    BY(obake::key_is_compatible(x, ss) == (v > 0), "key_is_compatible");
    BY(obake::key_is_one(x, ss) == (v > 0), "key_is_one");
    BY(obake::key_is_zero(x, ss) == (v > 0), "key_is_zero");
    BY(obake::key_merge_symbols(x, im, ss) == x, "key_merge_symbols");
    BY(obake::key_trim(x, si, ss) == x, "key_trim");
    std::vector<int> o(1);
    usr::who = 0;
    obake::key_trim_identify(o, x, ss);
    vf_check(o[0] == v && usr::who == w, "key_trim_identify: the implementation with the highest precedence is used");
    BY(obake::monomial_diff(x, 0u, ss) == std::make_pair(v, x), "monomial_diff");
    BY(obake::monomial_integrate(x, 0u, ss) == std::make_pair(v, x), "monomial_integrate");
    T y{};
    usr::who = 0;
    obake::monomial_mul(y, x, x, ss);
    vf_check(y == x && usr::who == w, "monomial_mul: the implementation with the highest precedence is used");
    BY(obake::monomial_pow(x, 2, ss) == x, "monomial_pow");
    BY(obake::monomial_subs(x, sm, ss) == std::make_pair(v, x), "monomial_subs");
    const std::vector<T> r(1, x);
    BY(obake::monomial_range_overflow_check(r, r, ss) == (v > 0), "monomial_range_overflow_check");
}
VF_INST(lookup_key_custom, lookup_keys<usr::kboth>)
VF_INST(lookup_key_adl, lookup_keys<usr::kadl>)
