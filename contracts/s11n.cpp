// Contracts of serialisation (obake/series.hpp, obake/symbols.hpp, obake/s11n.hpp, monomials, power series).
// The archive is abstract: a sequence of values, each read back with the type it was written with.
#include "poly.hpp"

#include <boost/serialization/nvp.hpp>
#include <boost/serialization/serialization.hpp>

#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/power_series/power_series.hpp>

#include "src/detail/fw_utils.cpp"
#include "src/detail/hc.cpp"
#include "src/detail/to_string.cpp"
#include "src/kpack.cpp"
#include "src/polynomials/d_packed_monomial.cpp"
#include "src/polynomials/packed_monomial.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

namespace vk
{
// the values that have been written
constexpr int room = 64;
inline u64 values[room];
inline unsigned types[room];
inline std::string strings[room];
inline int written = 0, got = 0;

template <typename T>
inline constexpr bool simple = std::is_arithmetic_v<T>;
template <typename T>
inline constexpr unsigned type_code = unsigned(sizeof(T)) * 2u + (std::is_signed_v<T> ? 1u : 0u);

struct out {
    using is_saving = std::bool_constant<true>;
    using is_loading = std::bool_constant<false>;
    template <typename T>
    out &operator<<(const T &x)
    {
        if constexpr (simple<T>) {
            vf_check(written < room, "bound of the specification");
            types[written] = type_code<T>;
            values[written++] = static_cast<u64>(x);
        } else if constexpr (std::is_same_v<T, std::string>) {
            vf_check(written < room, "bound of the specification");
            types[written] = 0;
            strings[written++] = x;
        } else {
            boost::serialization::serialize_adl(*this, const_cast<T &>(x), 0u);
        }
        return *this;
    }
    template <typename T>
    out &operator<<(const boost::serialization::nvp<T> &x)
    {
        return *this << x.const_value();
    }
    template <typename T>
    out &operator&(const T &x)
    {
        return *this << x;
    }
};
struct in {
    using is_saving = std::bool_constant<false>;
    using is_loading = std::bool_constant<true>;
    template <typename T>
    in &operator>>(T &x)
    {
        if constexpr (simple<T>) {
            burn();
            vf_check(got < written, "only what has been written is read");
            vf_check(types[got] == type_code<T>, "values are read with the type they were written with");
            x = static_cast<T>(values[got++]);
        } else if constexpr (std::is_same_v<T, std::string>) {
            burn();
            vf_check(got < written, "only what has been written is read");
            vf_check(types[got] == 0, "values are read with the type they were written with");
            x = strings[got++];
        } else {
            boost::serialization::serialize_adl(*this, x, 0u);
        }
        return *this;
    }
    template <typename T>
    in &operator>>(const boost::serialization::nvp<T> &x)
    {
        return *this >> x.value();
    }
    template <typename T>
    in &operator&(T &x)
    {
        return *this >> x;
    }
    template <typename T>
    in &operator&(const boost::serialization::nvp<T> &x)
    {
        return *this >> x.value();
    }
    template <typename T>
    void reset_object_address(const T *, const T *)
    {
    }
};
template <typename Ar, int I>
inline void serialize(Ar &ar, cf_t<I> &c, unsigned)
{
    if constexpr (Ar::is_saving::value) {
        c.val();
    } else {
        c.gone = false;
        c.id = 0;
    }
    ar & c.v;
}
template <typename Ar>
inline void serialize(Ar &ar, mono &k, unsigned)
{
    ar & k.e[0];
    ar & k.e[1];
    ar & k.e[2];
}
template <typename Ar>
inline void serialize(Ar &ar, tag &t, unsigned)
{
    ar & t.n;
}
using PT = obake::series<mono, cf, tag>;
using PS = obake::p_series<mono, cf>;
} // namespace vk

using namespace vk;

template <typename T>
static void save(const T &x)
{
    out ar;
    ar << x;
}
template <typename T>
static void load(T &x)
{
    in ar;
    ar >> x;
}
static void all_read()
{
    vf_check(got == written, "everything that was written is read");
}

// Sets of symbols.
static void sets()
{
    const int m = vf::cases(0, 7), q = vf::cases(0, 7);
    const symbol_set a = names(static_cast<unsigned>(m));
    symbol_set b = names(static_cast<unsigned>(q));
    save(a);
    save(b);
    load(b);
    vf_check(b == names(static_cast<unsigned>(m)), "the set of symbols is restored");
    symbol_set c;
    load(c);
    vf_check(c == names(static_cast<unsigned>(q)), "the set of symbols is restored");
    all_read();
    vf_check(a == names(static_cast<unsigned>(m)), "what is saved does not change");
}
VF_INST(symbols, sets)

// Monomials.
template <typename T>
static void packed()
{
    using M = obake::packed_monomial<T>;
    M a, b;
    const T x = vf::any<T>();
    a._set_value(x);
    b._set_value(vf::any<T>());
    save(a);
    load(b);
    vf_check(b.get_value() == x && a.get_value() == x && a == b, "the monomial is restored");
    all_read();
}
VF_INST(packed_i32, packed<std::int32_t>)
VF_INST(packed_u32, packed<std::uint32_t>)
VF_INST(packed_i64, packed<std::int64_t>)
VF_INST(packed_u64, packed<std::uint64_t>)
template <typename T, unsigned N>
static void dynamic()
{
    using M = obake::d_packed_monomial<T, N>;
    const int n = vf::cases(0, 4), m = vf::cases(0, 4);
    M a, b;
    T x[4];
    a._container().resize(static_cast<std::size_t>(n));
    b._container().resize(static_cast<std::size_t>(m));
    for (int i = 0; i < n; ++i) {
        a._container()[static_cast<std::size_t>(i)] = x[i] = vf::any<T>();
    }
    for (auto &v : b._container()) {
        v = vf::any<T>();
    }
    save(a);
    load(b);
    all_read();
    for (const auto *c : {&a, &b}) {
        vf_check(std::as_const(*c)._container().size() == static_cast<std::size_t>(n), "the monomial is restored");
        for (int i = 0; i < n; ++i) {
            vf_check(c->_container()[static_cast<std::size_t>(i)] == x[i], "the monomial is restored");
        }
    }
}
VF_INST(dynamic_i32, dynamic<std::int32_t, 2>)
VF_INST(dynamic_u64, dynamic<std::uint64_t, 8>)

// Series.
template <typename Ser>
static void mark(Ser &s, int kind, int lim)
{
    if constexpr (std::is_same_v<Ser, PT>) {
        s.tag().n = lim;
    } else if constexpr (std::is_same_v<Ser, PS>) {
        if (kind == 1) {
            obake::set_truncation(s, lim);
        } else if (kind == 2) {
            obake::set_truncation(s, lim, names(5));
        }
    }
}
template <typename Ser>
static void marked(const Ser &s, int kind, int lim)
{
    if constexpr (std::is_same_v<Ser, PT>) {
        vf_check(s.tag().n == lim, "the tag is restored");
    } else if constexpr (std::is_same_v<Ser, PS>) {
        const auto &v = obake::get_truncation(s);
        vf_check(v.index() == static_cast<std::size_t>(kind), "the truncation is restored");
        if (kind == 1) {
            vf_check(std::get<1>(v) == lim, "the truncation is restored");
        } else if (kind == 2) {
            vf_check(std::get<2>(v).first == lim && std::get<2>(v).second == names(5), "the truncation is restored");
        }
    }
}
template <typename Ser>
static void series()
{
    static const unsigned sets[][2] = {{3, 3}, {5, 1}, {0, 6}, {7, 0}};
    const int q = vf::cases(0, 3), n = vf::cases(0, q == 2 ? 1 : 3), l = vf::cases(0, n == 3 ? 1 : 2),
              kind = std::is_same_v<Ser, PS> ? vf::cases(0, 2) : 0;
    vf_umap::order = n == 2;
    Ser a, b;
    const int lim = vf::any<int>();
    mark(a, kind, lim);
    mark(b, kind == 0 ? 2 : 0, vf::any<int>());
    const pspec sa = arbitrary_p(a, names(sets[q][0]), static_cast<unsigned>(l), n);
    arbitrary_p(b, names(sets[q][1]), static_cast<unsigned>(2 - l), q == 2 ? 2 : 1);
    save(a);
    load(b);
    all_read();
    same(b, sa);
    vf_check(b.get_symbol_set() == names(sets[q][0]), "the symbols are restored");
    marked(b, kind, lim);
    same(a, sa);
    marked(a, kind, lim);
    // (loaded terms can be used further)
    Ser c(b);
    same(c, sa);
}
VF_INST(series_t, series<PT>)
VF_INST(series_p, series<P>)
VF_INST(series_ps, series<PS>)
// Several objects.
static void several()
{
    const int n = vf::cases(0, 2), m = vf::cases(0, 2);
    P a, b, r;
    PS p, q;
    const pspec sa = arbitrary_p(a, names(3), 1, n), sb = arbitrary_p(b, names(5), 0, m);
    const int lim = vf::any<int>();
    mark(p, 1, lim);
    save(a);
    save(p);
    save(b);
    load(r);
    same(r, sa);
    load(q);
    marked(q, 1, lim);
    load(r);
    same(r, sb);
    all_read();
}
VF_INST(several, several)
// The archive or a coefficient fails.
template <typename Ser>
static void throws()
{
    const int f = vf::cases(0, 21), l = vf::cases(0, 1), kind = std::is_same_v<Ser, PS> ? vf::cases(0, 2) : 0;
    Ser a, b;
    mark(a, kind, 7000);
    const pspec sa = arbitrary_p(a, names(3), static_cast<unsigned>(l), 2);
    arbitrary_p(b, names(5), 1, 1);
    save(a);
    fuse = f;
    try {
        load(b);
        vf_check(fuse >= 0, "exceptions are not swallowed");
        fuse = -1;
        same(b, sa);
    } catch (const oops &) {
        vf_check(fuse < 0, "only exceptions of the archive are thrown");
    }
    fuse = -1;
    wf(b);
    same(a, sa);
}
VF_INST(throws_p, throws<P>)
VF_INST(throws_ps, throws<PS>)
