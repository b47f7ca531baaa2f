// Contracts of the checked integer arithmetic (obake/detail/safe_integral_arith.hpp)
// and of the checked conversions (obake/math/safe_convert.hpp, safe_cast.hpp).
#include <obake/config.hpp>
#include <cstddef>
#include <cstring>
#include <limits>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>
#include <fmt/core.h>
#include <mp++/integer.hpp>
#if defined(VF_NO_BUILTINS)
// the implementation without overflow builtins
#undef OBAKE_COMPILER_IS_GCC
#undef __clang__
#endif
#include <obake/detail/safe_integral_arith.hpp>
#if defined(VF_NO_BUILTINS)
#define __clang__ 1
#endif
#include <stdexcept>

#include <obake/math/safe_cast.hpp>
#include <obake/math/safe_convert.hpp>

#include "src/detail/to_string.cpp"
#include "vf.hpp"

using vf::Z;
using i128 = __int128_t;
using u128 = __uint128_t;

template <typename T>
constexpr Z zmin = std::is_same_v<T, bool> ? Z(0) : (vf::is_sgn<T> ? -(Z(1) << (sizeof(T) * 8 - 1)) : Z(0));
template <typename T>
constexpr Z zmax
    = std::is_same_v<T, bool> ? Z(1) : (vf::is_sgn<T> ? (Z(1) << (sizeof(T) * 8 - 1)) - 1 : (Z(1) << (sizeof(T) * 8)) - 1);

// The exact sum or difference, or overflow_error exactly when it is not representable.
template <typename T>
void add_sub()
{
    const T a = vf::any<T>(), b = vf::any<T>();
    const Z s = Z(a) + Z(b), d = Z(a) - Z(b);
    T r{};
    VF_CATCH(e1, r = obake::detail::safe_int_add(a, b));
    const bool sfits = s >= zmin<T> && s <= zmax<T>;
    vf_check(e1 == (sfits ? vf::none : vf::overflow), "addition throws overflow_error exactly on overflow");
    if (sfits) {
        vf_check(Z(r) == s, "addition is exact");
    }
    VF_CATCH(e2, r = obake::detail::safe_int_sub(a, b));
    const bool dfits = d >= zmin<T> && d <= zmax<T>;
    vf_check(e2 == (dfits ? vf::none : vf::overflow), "subtraction throws overflow_error exactly on overflow");
    if (dfits) {
        vf_check(Z(r) == d, "subtraction is exact");
    }
}
#define INST(T) VF_INST(add_sub_##T, add_sub<T>)
using schar = signed char;
using uchar = unsigned char;
using ushort_ = unsigned short;
using uint_ = unsigned;
using ulong_ = unsigned long;
using llong = long long;
using ullong = unsigned long long;
#if !defined(VF_NO_BUILTINS)
INST(bool)
INST(char)
#endif
INST(schar)
INST(uchar)
INST(short)
INST(ushort_)
INST(int)
INST(uint_)
INST(long)
INST(ulong_)
INST(llong)
INST(ullong)
INST(i128)
INST(u128)

// Conversion between integral types: succeeds exactly on the values that the
// target represents, preserves the value, and leaves the target alone otherwise.
template <typename To, typename From>
void conv()
{
    const From x = vf::any<From>();
    const To old = vf::any<To>();
    To out = old;
    const bool r = obake::safe_convert(out, x);
    const bool fits = Z(x) >= zmin<To> && Z(x) <= zmax<To>;
    vf_check(r == fits, "conversion succeeds exactly for representable values");
    vf_check(Z(out) == (fits ? Z(x) : Z(old)), "the value is preserved, and a failed conversion writes nothing");
    To c{};
    bool thrown = false;
    try {
        c = obake::safe_cast<To>(x);
    } catch (const obake::safe_cast_failure &) {
        thrown = true;
    }
    vf_check(thrown == !fits, "safe_cast throws safe_cast_failure exactly for unrepresentable values");
    if (fits) {
        vf_check(Z(c) == Z(x), "safe_cast preserves the value");
    }
}
template <typename To>
void conv_to()
{
    switch (vf::cases(0, 12)) {
        case 0:
            return conv<To, bool>();
        case 1:
            return conv<To, char>();
        case 2:
            return conv<To, schar>();
        case 3:
            return conv<To, uchar>();
        case 4:
            return conv<To, short>();
        case 5:
            return conv<To, ushort_>();
        case 6:
            return conv<To, int>();
        case 7:
            return conv<To, uint_>();
        case 8:
            return conv<To, long>();
        case 9:
            return conv<To, ulong_>();
        case 10:
            return conv<To, llong>();
        case 11:
            return conv<To, ullong>();
        case 12:
            conv<To, i128>();
            conv<To, u128>();
    }
}
#undef INST
#define INST(T) VF_INST(conv_##T, conv_to<T>)
INST(bool)
INST(char)
INST(schar)
INST(uchar)
INST(short)
INST(ushort_)
INST(int)
INST(uint_)
INST(long)
INST(ulong_)
INST(llong)
INST(ullong)
INST(i128)
INST(u128)

// Conversions from and to multiprecision integers and rationals.
template <typename T>
void conv_mp()
{
    using I = mppp::integer<1>;
    using Q = mppp::rational<1>;
    const T x = vf::any<T>();
    I n;
    vf_check(obake::safe_convert(n, x), "an integral converts to an integer");
    vf_check(n == I(x), "an integral converts to the same integer");
    Q q;
    vf_check(obake::safe_convert(q, x), "an integral converts to a rational");
    vf_check(q.get_num() == I(x) && q.get_den() == I(1), "an integral converts to the same rational");
    const auto m = vf::any<i128>();
    const I big(m);
    const T old = vf::any<T>();
    T out = old;
    const bool fits = Z(m) >= zmin<T> && Z(m) <= zmax<T>;
    vf_check(obake::safe_convert(out, big) == fits, "an integer converts exactly when representable");
    vf_check(Z(out) == (fits ? Z(m) : Z(old)), "the value is preserved");
    // a rational is a pair in lowest terms: an integer if the denominator is one
    const auto den = vf::in<int>(1, 1000);
    const Q qq(Q::raw{}, big, I(den));
    const bool integral_ = den == 1;
    out = old;
    const bool r = obake::safe_convert(out, qq);
    const bool qfits = integral_ && fits;
    vf_check(r == qfits, "a rational converts exactly when it is a representable integer");
    vf_check(Z(out) == (qfits ? Z(m) : Z(old)), "the value of a rational is preserved");
    I in(old);
    const bool r2 = obake::safe_convert(in, qq);
    vf_check(r2 == integral_, "a rational converts to an integer exactly when its denominator is one");
    vf_check(in == (integral_ ? big : I(old)), "the value of a rational is preserved");
    Q q3;
    vf_check(obake::safe_convert(q3, big), "an integer converts to a rational");
    vf_check(q3.get_num() == big && q3.get_den() == I(1), "an integer converts to the same rational");
}
#undef INST
#define INST(T) VF_INST(mp_##T, conv_mp<T>)
INST(schar)
INST(ushort_)
INST(int)
INST(uint_)
INST(llong)
INST(ullong)
