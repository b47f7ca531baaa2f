// Stand-in for mp++'s multiprecision rational; see integer.hpp.
#ifndef MPPP_RATIONAL_HPP
#define MPPP_RATIONAL_HPP
#include <mp++/integer.hpp>
namespace mppp
{
template <::std::size_t SSize>
class rational
{
public:
    using int_t = integer<SSize>;
    static constexpr ::std::size_t ssize = SSize;
    int_t m_num, m_den{1};

    rational() = default;
    // a rational from its canonical parts
    struct raw {
    };
    rational(raw, const int_t &n, const int_t &d) : m_num(n), m_den(d) {}
    template <typename T>
    requires(is_cpp_int_v<T>) rational(const T &x) : m_num(x)
    {
    }
    template <typename T>
    requires(is_cpp_fp_v<T>) explicit rational(const T &x) : m_num(x)
    {
    }
    rational(const int_t &n) : m_num(n) {}
    rational(const int_t &n, const int_t &d) : m_num(n), m_den(d)
    {
        canon();
    }
    template <typename T, typename U>
    requires(is_cpp_int_v<T> &&is_cpp_int_v<U>) rational(const T &n, const U &d) : m_num(n), m_den(d)
    {
        canon();
    }
    void canon()
    {
        if (m_den.v == 0) {
            throw zero_division_error("mppp: zero denominator");
        }
        if (m_den.v < 0) {
            m_num.v = -m_num.v;
            m_den.v = -m_den.v;
        }
        wide_t a = m_num.v < 0 ? -m_num.v : m_num.v, b = m_den.v;
        while (b != 0) {
            wide_t t = a % b;
            a = b;
            b = t;
        }
        if (a != 1 && a != 0) {
            m_num.v = m_num.v / a;
            m_den.v = m_den.v / a;
        } else if (a == 0) {
            m_den.v = 1;
        }
    }
    const int_t &get_num() const
    {
        return m_num;
    }
    const int_t &get_den() const
    {
        return m_den;
    }
    int_t &_get_num()
    {
        return m_num;
    }
    int_t &_get_den()
    {
        return m_den;
    }
    bool is_zero() const
    {
        return m_num.v == 0;
    }
    bool is_one() const
    {
        return m_num.v == 1 && m_den.v == 1;
    }
    rational &neg()
    {
        m_num.neg();
        return *this;
    }
    template <typename T>
    requires(is_cpp_int_v<T>) explicit operator T() const
    {
        return static_cast<T>(integer<SSize>(typename int_t::raw{}, m_num.v / m_den.v));
    }
    template <typename T>
    requires(is_cpp_fp_v<T>) explicit operator T() const
    {
        return static_cast<T>(m_num) / static_cast<T>(m_den);
    }
    rational operator+() const
    {
        return *this;
    }
    rational operator-() const
    {
        auto r = *this;
        r.neg();
        return r;
    }
    friend rational operator+(const rational &a, const rational &b)
    {
        return rational(a.m_num * b.m_den + b.m_num * a.m_den, a.m_den * b.m_den);
    }
    friend rational operator-(const rational &a, const rational &b)
    {
        return rational(a.m_num * b.m_den - b.m_num * a.m_den, a.m_den * b.m_den);
    }
    friend rational operator*(const rational &a, const rational &b)
    {
        return rational(a.m_num * b.m_num, a.m_den * b.m_den);
    }
    friend rational operator/(const rational &a, const rational &b)
    {
        return rational(a.m_num * b.m_den, a.m_den * b.m_num);
    }
    rational &operator+=(const rational &b)
    {
        return *this = *this + b;
    }
    rational &operator-=(const rational &b)
    {
        return *this = *this - b;
    }
    rational &operator*=(const rational &b)
    {
        return *this = *this * b;
    }
    rational &operator/=(const rational &b)
    {
        return *this = *this / b;
    }
    friend bool operator==(const rational &a, const rational &b)
    {
        return a.m_num == b.m_num && a.m_den == b.m_den;
    }
    friend bool operator!=(const rational &a, const rational &b)
    {
        return !(a == b);
    }
    friend bool operator<(const rational &a, const rational &b)
    {
        return a.m_num * b.m_den < b.m_num * a.m_den;
    }
    ::std::string to_string() const
    {
        return m_den.v == 1 ? m_num.to_string() : m_num.to_string() + "/" + m_den.to_string();
    }
    friend ::std::ostream &operator<<(::std::ostream &os, const rational &q)
    {
        return os << q.to_string();
    }
};
template <::std::size_t S>
inline integer<S>::integer(const rational<S> &q) : v(q.m_num.v / q.m_den.v)
{
}
template <::std::size_t S>
inline bool is_zero(const rational<S> &q)
{
    return q.is_zero();
}
template <::std::size_t S>
inline rational<S> &neg(rational<S> &q)
{
    return q.neg();
}
} // namespace mppp
namespace std
{
template <::std::size_t S>
struct hash<::mppp::rational<S>> {
    ::std::size_t operator()(const ::mppp::rational<S> &q) const
    {
        return ::mppp::hash(q.get_num()) * 31u + ::mppp::hash(q.get_den());
    }
};
} // namespace std
#endif
