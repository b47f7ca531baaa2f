// Contracts of the integer printers (src/detail/to_string.cpp, src/cf/cf_stream_insert.cpp).
#include <ostream>
#include <sstream>
#include <string>

#include <obake/cf/cf_stream_insert.hpp>
#include <obake/detail/to_string.hpp>

#include "src/cf/cf_stream_insert.cpp"
#include "src/detail/to_string.cpp"
#include "vf.hpp"

using vf::Z;

// s[0..n) is the canonical decimal representation of x.
template <typename T>
void check_dec(const T &x, const char *s, std::size_t n)
{
    vf_check(n >= 1 && n <= 40, "the length is within the number of digits of the type");
    const bool neg = x < T(0);
    std::size_t i = 0;
    if (neg) {
        vf_check(s[0] == '-', "negative values start with a minus sign");
        i = 1;
    }
    vf_check(n > i, "there is at least one digit");
    vf_check(n == i + 1 || s[i] != '0', "no leading zeroes");
    // the digits, from the least significant one: digit k is floor(|x| / 10^k) mod 10
    using U = std::conditional_t<sizeof(T) == 16, __uint128_t, unsigned long>;
    U q = neg ? -static_cast<U>(x) : static_cast<U>(x);
    for (std::size_t k = n; k > i; --k) {
        vf_check(s[k - 1] == static_cast<char>('0' + static_cast<int>(q % 10u)), "each digit is the decimal digit of the value");
        q /= 10u;
    }
    vf_check(q == 0, "no digits are missing");
}
template <typename T>
void to_str()
{
    const T x = vf::any<T>();
    const auto s = obake::detail::to_string(x);
    check_dec(x, s.data(), s.size());
    vf_check(s.data()[s.size()] == 0, "terminated");
}
using schar = signed char;
using uchar = unsigned char;
using ushort_ = unsigned short;
using uint_ = unsigned;
using ulong_ = unsigned long;
using llong = long long;
using ullong = unsigned long long;
using i128 = __int128_t;
using u128 = __uint128_t;
#define INST(T) VF_INST(str_##T, to_str<T>)
INST(char)
INST(schar)
INST(uchar)
INST(short)
INST(ushort_)
INST(int)
INST(uint_)
INST(long)
INST(ulong_)
INST(llong)
INST(ullong)
INST(i128)
INST(u128)

template <typename T>
void stream()
{
    const T x = vf::any<T>();
    std::ostream *os = vf_os_new();
    obake::cf_stream_insert(*os, x);
    char buf[48];
    const auto n = vf_os_read(os, buf, 48);
    vf_os_free(os);
    vf_check(n <= 48, "length");
    check_dec(x, buf, n);
}
VF_INST(stream_i128, stream<i128>)
VF_INST(stream_u128, stream<u128>)
