// Contracts of the printed and TeX forms (obake/series.hpp, src/series.cpp, monomials, power series,
// obake/tex_stream_insert.hpp): read back as an expression, the text denotes the object.
#include "vf.hpp"

#include <obake/cf/cf_stream_insert.hpp>
#include <obake/cf/cf_tex_stream_insert.hpp>
#include <obake/key/key_stream_insert.hpp>
#include <obake/key/key_tex_stream_insert.hpp>
#include <obake/polynomials/d_packed_monomial.hpp>
#include <obake/polynomials/packed_monomial.hpp>
#include <obake/polynomials/polynomial.hpp>
#include <obake/power_series/power_series.hpp>
#include <obake/tex_stream_insert.hpp>

#include "src/cf/cf_stream_insert.cpp"
#include "src/detail/fw_utils.cpp"
#include "src/detail/hc.cpp"
#include "src/detail/to_string.cpp"
#include "src/kpack.cpp"
#include "src/polynomials/d_packed_monomial.cpp"
#include "src/polynomials/packed_monomial.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"
#include "src/tex_stream_insert.cpp"

using obake::symbol_set;

namespace vt
{
constexpr int nsym = 4, room = 24;
// the value of an expression: a sum of terms (coefficient and exponents of w, x, y, z)
struct term {
    long c = 0;
    long e[nsym] = {0, 0, 0, 0};
};
struct val {
    int n = 0;
    term t[room];
    void add(const term &x)
    {
        vf_check(n < room, "bound of the specification");
        t[n++] = x;
    }
    // the coefficient of a monomial
    long at(const long *e) const
    {
        long r = 0;
        for (int i = 0; i < n; ++i) {
            bool same = true;
            for (int j = 0; j < nsym; ++j) {
                same &= t[i].e[j] == e[j];
            }
            r += same ? t[i].c : 0;
        }
        return r;
    }
};
inline val number(long c)
{
    val v;
    term t;
    t.c = c;
    v.add(t);
    return v;
}
inline val times(const val &a, const val &b)
{
    val r;
    for (int i = 0; i < a.n; ++i) {
        for (int j = 0; j < b.n; ++j) {
            term t;
            t.c = a.t[i].c * b.t[j].c;
            for (int k = 0; k < nsym; ++k) {
                t.e[k] = a.t[i].e[k] + b.t[j].e[k];
            }
            r.add(t);
        }
    }
    return r;
}
inline void same(const val &a, const val &b)
{
    long e[nsym];
    for (auto &x : e) {
        x = vf::any<long>();
    }
    vf_check(a.at(e) == b.at(e), "the text denotes the object");
}

// the text
struct text {
    char s[1024];
    int n = 0, at = 0;
    bool again = false; // the specification has added to the text
    bool is(const char *t) const
    {
        int i = at;
        for (; *t; ++t, ++i) {
            if (i >= n || s[i] != *t) {
                return false;
            }
        }
        return true;
    }
    bool eat(const char *t)
    {
        if (!is(t)) {
            return false;
        }
        for (; *t; ++t) {
            ++at;
        }
        return true;
    }
    void need(const char *t)
    {
        const bool r = eat(t);
        vf_check(r, "the text is well formed");
        vf_assume(r);
    }
    bool digit() const
    {
        return at < n && (s[at] >= '0') & (s[at] <= '9');
    }
    bool letter() const
    {
        return at < n && (s[at] >= 'w') & (s[at] <= 'z');
    }
    bool end() const
    {
        return at == n;
    }
    long integer()
    {
        vf_check(digit(), "the text is well formed");
        long r = 0;
        while (digit()) {
            r = r * 10 + (s[at++] - '0');
        }
        return r;
    }
    void line()
    {
        while (at < n && s[at] != '\n') {
            ++at;
        }
        need("\n");
    }
    void add(const char *t)
    {
        for (; *t; ++t) {
            s[n++] = *t;
        }
    }
};

// plain expressions: sums of products of numbers, powers of symbols, and sums in brackets
inline val expr(text &);
inline val factor(text &t)
{
    if (t.eat("(")) {
        const val v = expr(t);
        t.need(")");
        return v;
    }
    if (t.letter()) {
        val v = number(1);
        const int i = t.s[t.at++] - 'w';
        long e = 1;
        if (t.eat("**")) {
            const bool neg = t.eat("-");
            e = t.integer();
            e = neg ? -e : e;
            vf_check(e != 1, "unit exponents are not printed");
        }
        v.t[0].e[i] = e;
        return v;
    }
    return number(t.integer());
}
inline val signed_sum(text &t, val (*product)(text &))
{
    val r;
    bool neg = t.eat("-");
    while (true) {
        const val v = product(t);
        for (int i = 0; i < v.n; ++i) {
            term x = v.t[i];
            x.c = neg ? -x.c : x.c;
            r.add(x);
        }
        if (t.eat("+")) {
            neg = false;
            vf_check(!t.is("-"), "a plus sign is not followed by a minus sign");
        } else if (t.eat("-")) {
            neg = true;
        } else {
            return r;
        }
    }
}
inline val product(text &t)
{
    vf_check(t.again || !t.is("1*"), "unit coefficients are not printed");
    val r = factor(t);
    while (t.eat("*")) {
        r = times(r, factor(t));
        vf_check(!t.is("("), "the text is well formed");
    }
    return r;
}
inline val expr(text &t)
{
    return signed_sum(t, product);
}

// TeX expressions
inline val tex_expr(text &);
inline bool tex_factor(text &t, val &v)
{
    if (t.eat("\\left(")) {
        v = tex_expr(t);
        t.need("\\right)");
    } else if (t.eat("\\frac{")) {
        v = tex_expr(t);
        t.need("}{");
        val d = tex_expr(t);
        t.need("}");
        vf_check(d.n == 1, "the text is well formed");
        vf_check(d.t[0].c == 1, "the text is well formed");
        for (auto &e : d.t[0].e) {
            e = -e;
        }
        v = times(v, d);
    } else if (t.eat("{")) {
        vf_check(t.letter(), "the text is well formed");
        v = number(1);
        const int i = t.s[t.at++] - 'w';
        t.need("}");
        long e = 1;
        if (t.eat("^{")) {
            const bool neg = t.eat("-");
            e = t.integer();
            e = neg ? -e : e;
            t.need("}");
            vf_check(e != 1, "unit exponents are not printed");
        }
        v.t[0].e[i] = e;
    } else {
        return false;
    }
    return true;
}
inline val tex_product(text &t)
{
    val r, f;
    vf_check(t.again || (!t.is("1{") && !t.is("1\\frac") && !t.is("1\\left")), "unit coefficients are not printed");
    bool any = t.digit();
    r = number(any ? t.integer() : 1);
    while (tex_factor(t, f)) {
        r = times(r, f);
        any = true;
    }
    vf_check(any, "the text is well formed");
    return r;
}
inline val tex_expr(text &t)
{
    return signed_sum(t, tex_product);
}
inline val parse(text &t, bool tex)
{
    return tex ? tex_expr(t) : expr(t);
}

template <typename F>
inline text printed(const F &f)
{
    text t;
    std::ostream *os = vf_os_new();
    f(*os);
    t.n = static_cast<int>(vf_os_read(os, t.s, 900));
    vf_os_free(os);
    vf_check(t.n <= 900, "bound of the specification");
    return t;
}

// a value of a class of texts
inline long pick(int c, long most = 99)
{
    switch (c) {
        case 0:
            return 0;
        case 1:
            return 1;
        case 2:
            return vf::in<long>(2, 9);
        case 3:
            return vf::in<long>(10, most);
        case 4:
            return -1;
        default:
            return vf::in<long>(-most, -2);
    }
}
inline symbol_set names(unsigned mask)
{
    symbol_set::sequence_type s;
    for (int i = 0; i < nsym; ++i) {
        if (mask >> i & 1u) {
            s.push_back(std::string(1, char('w' + i)));
        }
    }
    symbol_set r;
    r.adopt_sequence(boost::container::ordered_unique_range_t{}, std::move(s));
    return r;
}

// ---- monomials ----
template <typename M>
static void monomial(bool tex)
{
    using T = typename M::value_type;
    constexpr bool sgn = std::is_signed_v<T>;
    const int n = vf::cases(0, 2);
    const unsigned mask = n == 2 ? 10u : n == 1 ? 2u : 0u;
    val want = number(1);
    T e[2] = {0, 0};
    for (int i = 0; i < n; ++i) {
        e[i] = static_cast<T>(pick(vf::cases(0, sgn ? 5 : 3), 1000));
        want.t[0].e[1 + 2 * i] = static_cast<long>(e[i]);
    }
    const M m(e, e + n);
    const auto ss = names(mask);
    text t = printed([&](std::ostream &os) {
        if (tex) {
            obake::key_tex_stream_insert(os, m, ss);
        } else {
            obake::key_stream_insert(os, m, ss);
        }
    });
    const bool one = t.n == 1 && t.is("1");
    const val got = parse(t, tex);
    vf_check(t.end(), "the text is well formed");
    same(got, want);
    vf_check(one == ((e[0] == 0) & (e[1] == 0)), "the unit monomial is printed as 1");
}
template <typename M>
static void plain_monomial()
{
    monomial<M>(false);
}
template <typename M>
static void tex_monomial()
{
    monomial<M>(true);
}
using pi32 = obake::packed_monomial<std::int32_t>;
using pu32 = obake::packed_monomial<std::uint32_t>;
using pi64 = obake::packed_monomial<std::int64_t>;
using pu64 = obake::packed_monomial<std::uint64_t>;
using di32 = obake::d_packed_monomial<std::int32_t, 1>;
using du32 = obake::d_packed_monomial<std::uint32_t, 3>;
using di64 = obake::d_packed_monomial<std::int64_t, 1>;
using du64 = obake::d_packed_monomial<std::uint64_t, 2>;
#define INST(p, T) VF_INST(p##_##T, p<T>)
#define INSTS(p) INST(p, pi32) INST(p, pu32) INST(p, pi64) INST(p, pu64) INST(p, di32) INST(p, du32) INST(p, di64) INST(p, du64)
INSTS(plain_monomial)
INSTS(tex_monomial)

// ---- series ----
using key = obake::packed_monomial<std::int32_t>;
using P1 = obake::polynomial<key, long>;
using P2 = obake::polynomial<key, P1>;
using P3 = obake::polynomial<key, P2>;
using PS = obake::p_series<key, long>;

// exponents of the terms (in two symbols)
constexpr int ex[][2] = {{0, 0}, {1, 0}, {2, 3}, {0, 12}, {-1, 1}, {-2, 0}, {0, 1}, {-1, -5}};
inline void put(val &want, const val &c, int i, int first)
{
    val m = number(1);
    m.t[0].e[first] = ex[i][0];
    m.t[0].e[first + 1] = ex[i][1];
    const val x = times(c, m);
    for (int j = 0; j < x.n; ++j) {
        want.add(x.t[j]);
    }
}
// a series with n terms in two symbols, with coefficients of arbitrary classes
template <typename S>
static val fill(S &s, int n, int shift)
{
    val want;
    s.set_symbol_set(names(12));
    for (int i = 0; i < n; ++i) {
        const int j = (i + shift) % 8;
        const long c = pick(i == 0 ? vf::cases(1, 5) : i == 1 ? 3 + vf::cases(0, 2) : 2);
        s.add_term(key(ex[j], ex[j] + 2), c);
        put(want, number(c), j, 2);
    }
    return want;
}
template <typename S>
static text body(const S &s, bool tex, bool factor)
{
    return printed([&](std::ostream &os) {
        if (tex && factor) {
            obake::cf_tex_stream_insert(os, s);
        } else if (tex) {
            obake::tex_stream_insert(os, s);
        } else if (factor) {
            obake::cf_stream_insert(os, s);
        } else {
            os << s;
        }
    });
}
inline void header(text &t, int rank, const char *syms, long n)
{
    t.need("Key type: ");
    t.line();
    t.need("Coefficient type: ");
    t.line();
    t.need("Rank: ");
    vf_check(t.integer() == rank, "the header shows the rank");
    t.need("\nSymbol set: ");
    t.need(syms);
    t.need("\nNumber of terms: ");
    vf_check(t.integer() == n, "the header shows the number of terms");
    t.need("\n");
}
// as a stand-alone expression, or as a factor of a product
template <typename S>
static void denotes_in(const S &s, val want, int rank, const char *syms)
{
    const bool tex = vf::cases(0, 1) == 1, factor = vf::cases(0, 1) == 1;
    text t = body(s, tex, factor);
    if (!tex && !factor) {
        header(t, rank, syms, static_cast<long>(s.size()));
    }
    const int from = t.at;
    if (s.empty()) {
        vf_check(t.is("0") && t.n == t.at + 1, "an empty series is printed as 0");
        return;
    }
    val got = parse(t, tex);
    vf_check(t.end(), "the text is well formed");
    same(got, want);
    if (factor) {
        // what follows multiplies all of it
        t.at = from;
        t.again = true;
        t.add(tex ? "{w}" : "*w");
        got = parse(t, tex);
        for (int i = 0; i < want.n; ++i) {
            want.t[i].e[0] += 1;
        }
        vf_check(t.end(), "the text is well formed");
        same(got, want);
    }
}
template <typename S>
static void denotes(const S &s, const val &want, int rank)
{
    denotes_in(s, want, rank, "{'y', 'z'}");
}
static void flat()
{
    P1 p;
    const int n = vf::cases(0, 3), shift = n == 1 ? vf::cases(0, 7) : n == 2 ? 2 * vf::cases(0, 1) : 0;
    const val want = fill(p, n, shift);
    [[maybe_unused]] const int order = n > 1 ? vf::cases(0, 1) : 0;
#if !defined(VF_NATIVE)
    vf_umap::order = order;
#endif
    denotes(p, want, 1);
}
VF_INST(flat, flat)

// coefficients that are series themselves (in w, x, or constant)
template <typename S>
static val coefficient(S &s, int shape)
{
    // the coefficients and exponents of the terms
    static constexpr int shapes[][7] = {
        // n, coefficient class and exponents
        {1, 1, 0, 0, 0, 0, 0}, {1, 4, 0, 0, 0, 0, 0}, {1, 5, 1, 0, 0, 0, 0}, {2, 1, 0, 1, 2, 2, 0}, {2, 4, 0, 0, 2, 0, 3},
        {1, 4, 1, 1, 0, 0, 0}, {1, 3, 0, 0, 0, 0, 0}};
    const auto &d = shapes[shape];
    val want;
    s.set_symbol_set(names(3));
    for (int i = 0; i < d[0]; ++i) {
        const int *e = d + 3 * i + 1;
        const long c = pick(e[0]);
        const int x[2] = {e[1], e[2]};
        s.add_term(key(x, x + 2), c);
        term t;
        t.c = c;
        t.e[0] = e[1];
        t.e[1] = e[2];
        want.add(t);
    }
    return want;
}
static void nested()
{
    P2 p;
    val want;
    const int n = vf::cases(1, 2), shift = n == 1 ? 2 * vf::cases(0, 1) : 0;
    p.set_symbol_set(names(12));
    for (int i = 0; i < n; ++i) {
        P1 c;
        const int j = i + shift;
        const val v = coefficient(c, i == 0 ? vf::cases(0, 6) : 3 + vf::cases(0, 2));
        p.add_term(key(ex[j], ex[j] + 2), c);
        put(want, v, j, 2);
    }
    denotes(p, want, 2);
}
VF_INST(nested, nested)
static void nested_twice()
{
    P3 p;
    P2 q;
    val want, inner;
    // the symbols of q: y, or none
    const int n = vf::cases(1, 2), m = n == 1 ? vf::cases(0, 1) : 0;
    q.set_symbol_set(names(4));
    for (int i = 0; i < n; ++i) {
        P1 c;
        val v = coefficient(c, i == 0 ? vf::cases(0, 6) : 3 + vf::cases(0, 1));
        const int e[] = {i + m};
        q.add_term(key(e, e + 1), c);
        for (int k = 0; k < v.n; ++k) {
            v.t[k].e[2] += e[0];
            inner.add(v.t[k]);
        }
    }
    p.set_symbol_set(names(8));
    const int e[] = {vf::cases(0, 1)};
    p.add_term(key(e, e + 1), q);
    for (int k = 0; k < inner.n; ++k) {
        inner.t[k].e[3] += e[0];
        want.add(inner.t[k]);
    }
    denotes_in(p, want, 3, "{'z'}");
}
VF_INST(nested_twice, nested_twice)

// More than 50 terms: the first 50 are printed, and an ellipsis.
static void long_series()
{
    const int n = 49 + vf::cases(0, 2);
    P1 p;
    p.set_symbol_set(names(8));
    const long c = pick(2);
    for (int i = 0; i < n; ++i) {
        p.add_term(key(&i, &i + 1), i == 5 ? c : 7l);
    }
    const bool tex = vf::cases(0, 1) == 1;
    text t = body(p, tex, false);
    if (!tex) {
        header(t, 1, "{'z'}", n);
    }
    const char *const dots = tex ? "\\ldots" : "...";
    int terms = 0;
    bool seen[52] = {};
    while (terms < 50 && !t.end()) {
        const val v = tex ? tex_product(t) : product(t);
        vf_check(v.n == 1 && v.t[0].e[3] < n && !seen[v.t[0].e[3]], "each term is printed once");
        seen[v.t[0].e[3]] = true;
        vf_check(v.t[0].c == (v.t[0].e[3] == 5 ? c : 7l), "the terms are those of the series");
        ++terms;
        if (!t.end()) {
            t.need("+");
        }
    }
    vf_check(terms == (n < 50 ? n : 50), "at most 50 terms are printed");
    vf_check(n <= 50 ? t.end() : t.is(dots) && t.n == t.at + (tex ? 6 : 3), "the terms that are not printed are replaced by an ellipsis");
}
VF_INST(long_series, long_series)

// ---- power series ----
static void power_series()
{
    PS p;
    const int kind = vf::cases(0, 2), n = vf::cases(0, 1), shift = n != 0 ? vf::cases(1, 2) : 0;
    const bool tex = vf::cases(0, 1) == 1;
    const val want = fill(p, n, shift);
    const int lim = static_cast<int>(pick(vf::cases(2, 3)));
    if (kind == 1) {
        obake::set_truncation(p, lim);
    } else if (kind == 2) {
        obake::set_truncation(p, lim, names(9));
    }
    text t = body(p, tex, false);
    if (!tex) {
        t.need("Series type: power series\n");
        t.need(kind == 0 ? "Truncation: none" : kind == 1 ? "Truncation degree: " : "Partial truncation degree: ");
        if (kind != 0) {
            vf_check(t.integer() == lim, "the truncation degree is shown");
        }
        if (kind == 2) {
            t.need(", {'w', 'z'}");
        }
        t.need("\n");
        header(t, 1, "{'y', 'z'}", static_cast<long>(p.size()));
    }
    if (p.empty()) {
        t.need("0");
    } else {
        const val got = parse(t, tex);
        same(got, want);
    }
    if (tex && kind != 0) {
        t.need(" + \\mathcal{O}\\left( > ");
        vf_check(t.integer() == lim, "the truncation degree is shown");
        if (kind == 2) {
            t.need(" ; w, z");
        }
        t.need(" \\right)");
    }
    vf_check(t.end(), "the text is well formed");
}
VF_INST(power_series, power_series)

// ---- coefficients ----
using i128 = __int128_t;
using u128 = __uint128_t;
template <typename T>
static void tex_128()
{
    const T x = vf::any<T>();
    const text t = printed([&](std::ostream &os) { obake::tex_stream_insert(os, x); });
    const std::string s = obake::detail::to_string(x);
    vf_check(static_cast<std::size_t>(t.n) == s.size(), "TeX integers are the decimal ones");
    for (int i = 0; i < t.n; ++i) {
        vf_check(t.s[i] == s[static_cast<std::size_t>(i)], "TeX integers are the decimal ones");
    }
}
VF_INST(tex_128_i128, tex_128<i128>)
VF_INST(tex_128_u128, tex_128<u128>)
static void tex_rational()
{
    static constexpr long nums[] = {0, 1, -1, 6, -6, 35, -1001}, dens[] = {1, 2, 4, 35};
    const long n = nums[vf::cases(0, 6)], d = dens[vf::cases(0, 3)];
    mppp::rational<1> q(n, d);
    text t = printed([&](std::ostream &os) { obake::tex_stream_insert(os, q); });
    const bool neg = t.eat("-");
    const bool frac = t.eat("\\frac{");
    long a = t.integer(), b = 1;
    if (frac) {
        t.need("}{");
        b = t.integer();
        t.need("}");
        vf_check(b > 1, "integers are not printed as fractions");
    }
    a = neg ? -a : a;
    vf_check(t.end(), "the text is well formed");
    vf_check(a * d == b * n, "the text denotes the object");
}
VF_INST(tex_rational, tex_rational)
} // namespace vt
