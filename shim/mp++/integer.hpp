// Stand-in for mp++'s multiprecision integer: the same interface as far as
// obake uses it, with values represented exactly in 512 bits. Arithmetic that
// would not fit is undefined behaviour of _BitInt, hence a failed obligation:
// where a proof succeeds, the stand-in computed the mathematical result.
#ifndef MPPP_INTEGER_HPP
#define MPPP_INTEGER_HPP
#include <cstddef>
#include <functional>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <utility>

#include <fmt/core.h>
#if defined(VF_NATIVE)
#include <fmt/format.h>
#endif

#include <mp++/config.hpp>

using mp_limb_t = unsigned long;

namespace mppp
{
using wide_t = _BitInt(512);

template <typename T>
struct is_cpp_int : ::std::is_integral<T> {
};
template <>
struct is_cpp_int<__int128> : ::std::true_type {
};
template <>
struct is_cpp_int<unsigned __int128> : ::std::true_type {
};
template <typename T>
inline constexpr bool is_cpp_int_v = is_cpp_int<::std::remove_cv_t<T>>::value;
template <typename T>
inline constexpr bool is_cpp_fp_v = ::std::is_floating_point_v<::std::remove_cv_t<T>>;
template <typename T>
inline constexpr bool is_cpp_arith_v = is_cpp_int_v<T> || is_cpp_fp_v<T>;

template <typename T>
inline constexpr wide_t int_min_v = (T(-1) < T(0)) ? -(wide_t(1) << (sizeof(T) * 8 - 1)) : wide_t(0);
template <typename T>
inline constexpr wide_t int_max_v = (wide_t(1) << (sizeof(T) * 8 - ((T(-1) < T(0)) ? 1 : 0))) - 1;
template <>
inline constexpr wide_t int_max_v<bool> = 1;

struct zero_division_error : ::std::domain_error {
    using ::std::domain_error::domain_error;
};

template <::std::size_t SSize>
class rational;

template <::std::size_t SSize>
class integer
{
public:
    static constexpr ::std::size_t ssize = SSize;
    wide_t v = 0;

    integer() = default;
    integer(const integer &) = default;
    integer &operator=(const integer &) = default;
    // a moved-from integer is valid but unspecified: here, an unlikely value
    static constexpr int moved_from = 0x5a5a5a;
    integer(integer &&o) noexcept : v(o.v)
    {
        o.v = moved_from;
    }
    integer &operator=(integer &&o) noexcept
    {
        if (this != &o) {
            v = o.v;
            o.v = moved_from;
        }
        return *this;
    }
    template <typename T>
    requires(is_cpp_int_v<T>) integer(const T &x) : v(x)
    {
    }
    template <typename T>
    requires(is_cpp_fp_v<T>) explicit integer(const T &x) : v(static_cast<wide_t>(static_cast<long long>(x)))
    {
    }
    explicit integer(const ::std::string &s)
    {
        bool neg = false;
        ::std::size_t i = 0;
        if (!s.empty() && (s[0] == '-' || s[0] == '+')) {
            neg = s[0] == '-';
            i = 1;
        }
        for (; i < s.size(); ++i) {
            v = v * 10 + (s[i] - '0');
        }
        if (neg) {
            v = -v;
        }
    }
    explicit integer(const char *s) : integer(::std::string(s)) {}
    explicit integer(const rational<SSize> &q);

    struct raw {
    };
    integer(raw, wide_t x) : v(x) {}

    // the number of limbs, and whether they fit the static storage
    ::std::size_t size() const
    {
        ::std::size_t n = 0;
        for (wide_t a = v < 0 ? -v : v; a != 0; a >>= 64) {
            ++n;
        }
        return n;
    }
    bool is_static() const
    {
        return size() <= SSize;
    }

    template <typename T>
    requires(is_cpp_int_v<T>) integer &operator=(const T &x)
    {
        v = x;
        return *this;
    }

    template <typename T>
    requires(is_cpp_int_v<T>) explicit operator T() const
    {
        if constexpr (::std::is_same_v<T, bool>) {
            return v != 0;
        } else {
            if (v < int_min_v<T> || v > int_max_v<T>) {
                throw ::std::overflow_error("mppp: the integer does not fit in the target type");
            }
            return static_cast<T>(v);
        }
    }
    template <typename T>
    requires(is_cpp_fp_v<T>) explicit operator T() const
    {
        return static_cast<T>(static_cast<long long>(v));
    }
    // get(): true if the conversion is exact
    template <typename T>
    requires(is_cpp_int_v<T>) bool get(T &out) const
    {
        if constexpr (::std::is_same_v<T, bool>) {
            out = v != 0;
            return true;
        } else {
            if (v < int_min_v<T> || v > int_max_v<T>) {
                return false;
            }
            out = static_cast<T>(v);
            return true;
        }
    }

    int sgn() const
    {
        return v < 0 ? -1 : (v > 0 ? 1 : 0);
    }
    bool is_zero() const
    {
        return v == 0;
    }
    bool is_one() const
    {
        return v == 1;
    }
    bool is_negative_one() const
    {
        return v == -1;
    }
    integer &neg()
    {
        v = -v;
        return *this;
    }
    bool odd_p() const
    {
        return (v & 1) != 0;
    }
    ::std::size_t nbits() const
    {
        wide_t x = v < 0 ? -v : v;
        ::std::size_t r = 0;
        while (x != 0) {
            x >>= 1;
            ++r;
        }
        return r;
    }
    ::std::string to_string() const
    {
        if (v == 0) {
            return "0";
        }
        wide_t x = v < 0 ? -v : v;
        ::std::string s;
        while (x != 0) {
            s.insert(s.begin(), static_cast<char>('0' + static_cast<int>(x % 10)));
            x /= 10;
        }
        return v < 0 ? "-" + s : s;
    }
    integer operator+() const
    {
        return *this;
    }
    integer operator-() const
    {
        return integer(raw{}, -v);
    }
    integer &operator++()
    {
        v = v + 1;
        return *this;
    }
    integer operator++(int)
    {
        auto r = *this;
        v = v + 1;
        return r;
    }
    integer &operator--()
    {
        v = v - 1;
        return *this;
    }
    integer operator--(int)
    {
        auto r = *this;
        v = v - 1;
        return r;
    }
#define MPPP_SHIM_OP(op)                                                                                               \
    friend integer operator op(const integer &a, const integer &b)                                                     \
    {                                                                                                                  \
        return integer(raw{}, a.v op b.v);                                                                             \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    requires(is_cpp_int_v<T>) friend integer operator op(const integer &a, const T &b)                                 \
    {                                                                                                                  \
        return integer(raw{}, a.v op static_cast<wide_t>(b));                                                          \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    requires(is_cpp_int_v<T>) friend integer operator op(const T &a, const integer &b)                                 \
    {                                                                                                                  \
        return integer(raw{}, static_cast<wide_t>(a) op b.v);                                                          \
    }                                                                                                                  \
    integer &operator op##=(const integer &b)                                                                          \
    {                                                                                                                  \
        v = v op b.v;                                                                                                  \
        return *this;                                                                                                  \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    requires(is_cpp_int_v<T>) integer &operator op##=(const T &b)                                                      \
    {                                                                                                                  \
        v = v op static_cast<wide_t>(b);                                                                               \
        return *this;                                                                                                  \
    }
    MPPP_SHIM_OP(+)
    MPPP_SHIM_OP(-)
    MPPP_SHIM_OP(*)
    MPPP_SHIM_OP(&)
    MPPP_SHIM_OP(|)
#undef MPPP_SHIM_OP
#define MPPP_SHIM_DIV(op)                                                                                              \
    friend integer operator op(const integer &a, const integer &b)                                                     \
    {                                                                                                                  \
        if (b.v == 0) {                                                                                                \
            throw zero_division_error("mppp: division by zero");                                                       \
        }                                                                                                              \
        return integer(raw{}, a.v op b.v);                                                                             \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    requires(is_cpp_int_v<T>) friend integer operator op(const integer &a, const T &b)                                 \
    {                                                                                                                  \
        return a op integer(b);                                                                                        \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    requires(is_cpp_int_v<T>) friend integer operator op(const T &a, const integer &b)                                 \
    {                                                                                                                  \
        return integer(a) op b;                                                                                        \
    }                                                                                                                  \
    integer &operator op##=(const integer &b)                                                                          \
    {                                                                                                                  \
        return *this = *this op b;                                                                                     \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    requires(is_cpp_int_v<T>) integer &operator op##=(const T &b)                                                      \
    {                                                                                                                  \
        return *this = *this op integer(b);                                                                            \
    }
    MPPP_SHIM_DIV(/)
    MPPP_SHIM_DIV(%)
#undef MPPP_SHIM_DIV
    friend double operator*(double a, const integer &b)
    {
        return a * static_cast<double>(b.v);
    }
    friend double operator*(const integer &a, double b)
    {
        return static_cast<double>(a.v) * b;
    }
    template <typename T>
    requires(is_cpp_int_v<T>) friend integer operator>>(const integer &a, const T &b)
    {
        return integer(raw{}, a.v >> b);
    }
    template <typename T>
    requires(is_cpp_int_v<T>) friend integer operator<<(const integer &a, const T &b)
    {
        return integer(raw{}, a.v * (wide_t(1) << b));
    }
#define MPPP_SHIM_CMP(op)                                                                                              \
    friend bool operator op(const integer &a, const integer &b)                                                        \
    {                                                                                                                  \
        return a.v op b.v;                                                                                             \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    requires(is_cpp_int_v<T>) friend bool operator op(const integer &a, const T &b)                                    \
    {                                                                                                                  \
        return a.v op static_cast<wide_t>(b);                                                                          \
    }                                                                                                                  \
    template <typename T>                                                                                              \
    requires(is_cpp_int_v<T>) friend bool operator op(const T &a, const integer &b)                                    \
    {                                                                                                                  \
        return static_cast<wide_t>(a) op b.v;                                                                          \
    }
    MPPP_SHIM_CMP(==)
    MPPP_SHIM_CMP(!=)
    MPPP_SHIM_CMP(<)
    MPPP_SHIM_CMP(>)
    MPPP_SHIM_CMP(<=)
    MPPP_SHIM_CMP(>=)
#undef MPPP_SHIM_CMP
    friend ::std::ostream &operator<<(::std::ostream &os, const integer &n)
    {
        return os << n.to_string();
    }
    template <typename Archive>
    void save(Archive &ar, unsigned) const
    {
        ar << v;
    }
};

template <typename T>
struct is_integer : ::std::false_type {
};
template <::std::size_t S>
struct is_integer<integer<S>> : ::std::true_type {
};

template <::std::size_t S>
inline integer<S> &addmul(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    r.v = r.v + a.v * b.v;
    return r;
}
template <::std::size_t S>
inline integer<S> &submul(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    r.v = r.v - a.v * b.v;
    return r;
}
template <::std::size_t S>
inline integer<S> &mul(integer<S> &r, const integer<S> &a, const integer<S> &b)
{
    r.v = a.v * b.v;
    return r;
}
template <::std::size_t S>
inline integer<S> &neg(integer<S> &n)
{
    return n.neg();
}
template <::std::size_t S>
inline integer<S> abs(const integer<S> &n)
{
    return n.v < 0 ? -n : n;
}
template <::std::size_t S>
inline bool is_zero(const integer<S> &n)
{
    return n.is_zero();
}
template <::std::size_t S>
inline int sgn(const integer<S> &n)
{
    return n.sgn();
}
template <typename T, ::std::size_t S>
inline bool get(T &out, const integer<S> &n)
{
    return n.get(out);
}
template <::std::size_t S>
inline integer<S> ipow(const integer<S> &b, unsigned long e)
{
    integer<S> r(1);
    for (unsigned long i = 0; i < e; ++i) {
        r.v = r.v * b.v;
    }
    return r;
}
template <::std::size_t S, typename T>
requires(is_cpp_int_v<T>) inline integer<S> pow(const integer<S> &b, const T &e)
{
    if (e < 0) {
        if (b.v == 0) {
            throw zero_division_error("mppp: zero to a negative power");
        }
        if (b.v == 1) {
            return b;
        }
        if (b.v == -1) {
            return (e & 1) ? b : integer<S>(1);
        }
        return integer<S>();
    }
    return ipow(b, static_cast<unsigned long>(e));
}
template <::std::size_t S>
inline integer<S> pow(const integer<S> &b, const integer<S> &e)
{
    return pow(b, static_cast<long long>(e.v));
}
template <typename T, ::std::size_t S>
requires(is_cpp_int_v<T>) inline integer<S> pow(const T &b, const integer<S> &e)
{
    return pow(integer<S>(b), e);
}
template <::std::size_t S>
inline ::std::size_t hash(const integer<S> &n)
{
    return static_cast<::std::size_t>(static_cast<unsigned _BitInt(512)>(n.v));
}

inline namespace literals
{
inline integer<1> operator""_z1(unsigned long long n)
{
    return integer<1>(n);
}
} // namespace literals
} // namespace mppp

namespace std
{
template <::std::size_t S>
struct hash<::mppp::integer<S>> {
    ::std::size_t operator()(const ::mppp::integer<S> &n) const
    {
        return ::mppp::hash(n);
    }
};
} // namespace std
template <::std::size_t S>
struct fmt::formatter<::mppp::integer<S>> : fmt::formatter<::std::string> {
    template <typename C>
    auto format(const ::mppp::integer<S> &n, C &ctx) const
    {
        return fmt::formatter<::std::string>::format(n.to_string(), ctx);
    }
};
#endif
