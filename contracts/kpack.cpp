// Contracts of the Kronecker packer and unpacker (obake/kpack.hpp, src/kpack.cpp).
#include <stdexcept>

#include <obake/kpack.hpp>

#include "src/kpack.cpp"
#include "vf.hpp"

using obake::kpacker;
using obake::kunpacker;
using obake::detail::kpack_get_delta;
using obake::detail::kpack_get_klims;
using obake::detail::kpack_get_lims;
using vf::Z;

template <typename T>
constexpr int max_size = sizeof(T) == 4 ? 10 : 21;

// Specification: the largest odd-symmetric (or [0, delta)) alphabet.
// enc(e) = sum e_i * delta^i, lim = (delta-1)/2 (signed) or delta-1 (unsigned).
template <typename T>
struct spec {
    static Z delta(int n)
    {
        return kpack_get_delta<T>(unsigned(n));
    }
};

// Round trip: packing any in-range vector succeeds, yields its Kronecker code
// inside the coded limits, and unpacking returns the vector.
template <typename T>
void round_trip()
{
    const int n = vf::cases(1, max_size<T>);
    const auto [lmin, lmax] = kpack_get_lims<T>(unsigned(n));
    const auto [kmin, kmax] = kpack_get_klims<T>(unsigned(n));
    T e[21];
    kpacker<T> kp{unsigned(n)};
    Z code = 0, prod = 1;
    for (int i = 0; i < n; ++i) {
        e[i] = vf::in<T>(lmin, lmax);
        kp << e[i];
        code += Z(e[i]) * prod;
        prod *= spec<T>::delta(n);
    }
    const T v = kp.get();
    vf_check(Z(v) == code, "packed value is the Kronecker code of the vector");
    vf_check(kmin <= v && v <= kmax, "packed value is within the coded limits");
    kunpacker<T> ku(v, unsigned(n));
    for (int i = 0; i < n; ++i) {
        T out;
        ku >> out;
        vf_check(out == e[i], "unpacking returns the packed component");
    }
}
VF_INST(round_trip_i32, round_trip<std::int32_t>)
VF_INST(round_trip_u32, round_trip<std::uint32_t>)
VF_INST(round_trip_i64, round_trip<std::int64_t>)
VF_INST(round_trip_u64, round_trip<std::uint64_t>)

// The other direction: every code within the coded limits unpacks to in-range
// components, which pack to the same code.
template <typename T>
void unpack_pack()
{
    const int n = vf::cases(1, max_size<T>);
    const auto [lmin, lmax] = kpack_get_lims<T>(unsigned(n));
    const auto [kmin, kmax] = kpack_get_klims<T>(unsigned(n));
    const T v = vf::in<T>(kmin, kmax);
    kunpacker<T> ku(v, unsigned(n));
    Z code = 0, prod = 1;
    for (int i = 0; i < n; ++i) {
        T out;
        ku >> out;
        vf_check(lmin <= out && out <= lmax, "unpacked component is within the limits");
        code += Z(out) * prod;
        prod *= spec<T>::delta(n);
    }
    vf_check(code == Z(v), "the unpacked components encode the code");
}
VF_INST(unpack_pack_i32, unpack_pack<std::int32_t>)
VF_INST(unpack_pack_u32, unpack_pack<std::uint32_t>)
VF_INST(unpack_pack_i64, unpack_pack<std::int64_t>)
VF_INST(unpack_pack_u64, unpack_pack<std::uint64_t>)

// Limits and exceptions.
template <typename T>
void pack_errors()
{
    const unsigned n = vf::any<unsigned>();
    VF_CATCH(e0, kpacker<T> kp0(n));
    vf_check(e0 == (n > unsigned(max_size<T>) ? vf::overflow : vf::none), "packer size check");
}
VF_INST(pack_size_i32, pack_errors<std::int32_t>)
VF_INST(pack_size_u32, pack_errors<std::uint32_t>)
VF_INST(pack_size_i64, pack_errors<std::int64_t>)
VF_INST(pack_size_u64, pack_errors<std::uint64_t>)

// Pushing: fails exactly outside of the limits or when full, and a failed push leaves the packer alone.
template <typename T>
void pack_push()
{
    const int n = vf::cases(0, max_size<T>);
    kpacker<T> kp{unsigned(n)};
    vf_check(kp.get() == T(0), "an empty packer holds zero");
    T e[22];
    Z code = 0, prod = 1;
    const int k = vf::cases(0, 21);
    vf_assume(k <= n);
    if (n > 0) {
        const auto [lmin, lmax] = kpack_get_lims<T>(unsigned(n));
        for (int i = 0; i < k; ++i) {
            e[i] = vf::in<T>(lmin, lmax);
            kp << e[i];
            code += Z(e[i]) * prod;
            prod *= spec<T>::delta(n);
        }
        vf_check(Z(kp.get()) == code, "a partially filled packer encodes zeroes for the missing components");
    }
    const T x = vf::any<T>();
    const T before = kp.get();
    VF_CATCH(er, kp << x);
    if (k == n) {
        vf_check(er == vf::out_of_range, "pushing to a full packer throws");
        vf_check(kp.get() == before, "a failed push changes nothing");
    } else {
        const auto [lmin, lmax] = kpack_get_lims<T>(unsigned(n));
        const bool bad = x < lmin || x > lmax;
        vf_check(er == (bad ? vf::overflow : vf::none), "pushing throws exactly outside of the limits");
        if (bad) {
            vf_check(kp.get() == before, "a failed push changes nothing");
            const T y = vf::in<T>(lmin, lmax);
            kp << y;
            vf_check(Z(kp.get()) == code + Z(y) * prod, "a failed push does not consume a slot");
        } else {
            vf_check(Z(kp.get()) == code + Z(x) * prod, "a push adds the component times its weight");
        }
    }
}
VF_INST(pack_push_i32, pack_push<std::int32_t>)
VF_INST(pack_push_u32, pack_push<std::uint32_t>)
VF_INST(pack_push_i64, pack_push<std::int64_t>)
VF_INST(pack_push_u64, pack_push<std::uint64_t>)

template <typename T>
void unpack_errors()
{
    const unsigned n = vf::any<unsigned>();
    const T v = vf::any<T>();
    VF_CATCH(er, kunpacker<T> ku0(v, n));
    if (n == 0u) {
        vf_check(er == (v != T(0) ? vf::invalid_argument : vf::none), "a zero-size unpacker accepts only zero");
    } else if (n > unsigned(max_size<T>)) {
        vf_check(er == vf::overflow, "unpacker size check");
    } else {
        const auto [kmin, kmax] = kpack_get_klims<T>(n);
        vf_check(er == (v < kmin || v > kmax ? vf::overflow : vf::none), "unpacker value check");
    }
}
VF_INST(unpack_ctor_i32, unpack_errors<std::int32_t>)
VF_INST(unpack_ctor_u32, unpack_errors<std::uint32_t>)
VF_INST(unpack_ctor_i64, unpack_errors<std::int64_t>)
VF_INST(unpack_ctor_u64, unpack_errors<std::uint64_t>)

template <typename T>
void unpack_exhausted()
{
    const int n = vf::cases(0, max_size<T>);
    T v = 0;
    if (n > 0) {
        const auto [kmin, kmax] = kpack_get_klims<T>(unsigned(n));
        v = vf::in<T>(kmin, kmax);
    }
    kunpacker<T> ku(v, unsigned(n));
    T out = 0;
    for (int i = 0; i < n; ++i) {
        VF_CATCH(e1, ku >> out);
        vf_check(e1 == vf::none, "the first size extractions succeed");
    }
    const T x = vf::any<T>();
    out = x;
    VF_CATCH(e2, ku >> out);
    vf_check(e2 == vf::out_of_range, "unpacking more than size components throws");
    vf_check(out == x, "a failed extraction writes nothing");
}
VF_INST(unpack_exhausted_i32, unpack_exhausted<std::int32_t>)
VF_INST(unpack_exhausted_u32, unpack_exhausted<std::uint32_t>)
VF_INST(unpack_exhausted_i64, unpack_exhausted<std::int64_t>)
VF_INST(unpack_exhausted_u64, unpack_exhausted<std::uint64_t>)

// The limits tables: the limits are the symmetric alphabet of delta values,
// the coded limits are the extreme codes, and they fit T.
template <typename T>
void tables()
{
    const int n = vf::cases(1, max_size<T>);
    vf_check(unsigned(max_size<T>) == obake::detail::kpack_max_size<T>(), "maximum packable size");
    const Z d = spec<T>::delta(n);
    const auto [lmin, lmax] = kpack_get_lims<T>(unsigned(n));
    const auto [kmin, kmax] = kpack_get_klims<T>(unsigned(n));
    vf_check(d >= 3, "delta is at least three");
    vf_check(Z(lmax) - Z(lmin) + 1 == d, "the limits span delta values");
    if (T(-1) < T(0)) {
        vf_check(Z(lmin) == -Z(lmax) && Z(kmin) == -Z(kmax), "the limits are symmetric");
    } else {
        vf_check(lmin == T(0) && kmin == T(0), "the limits start at zero");
    }
    Z p = 1, s = 0;
    for (int i = 0; i < n; ++i) {
        s += Z(lmax) * p;
        p *= d;
    }
    vf_check(Z(kmax) == s, "the coded limit is the largest code");
    vf_check(p - 1 <= Z(std::numeric_limits<T>::max()), "all the codes fit the type");
}
VF_INST(tables_i32, tables<std::int32_t>)
VF_INST(tables_u32, tables<std::uint32_t>)
VF_INST(tables_i64, tables<std::int64_t>)
VF_INST(tables_u64, tables<std::uint64_t>)
