// Contracts of the arithmetic of series (obake/series.hpp): sums, differences, negation, scalar products and
// quotients, comparison.
#include "series.hpp"

#include "src/detail/fw_utils.cpp"
#include "src/detail/to_string.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

using namespace vk;

// Extension of a key over the symbols `from` to the symbols `to` (sets of names), from its meaning.
static u32 ext(u32 k, unsigned from, unsigned to)
{
    u32 r = 0;
    unsigned f = 0, t = 0;
    for (unsigned i = 0; i < 3; ++i) {
        const bool a = from >> i & 1u, b = to >> i & 1u;
        if (a & b) {
            r |= (k >> (8 * f) & 0xffu) << (8 * t);
        }
        f += a;
        t += b;
    }
    return r;
}
static spec ext(const spec &s, unsigned from, unsigned to)
{
    spec r;
    r.n = s.n;
    for (int i = 0; i < s.n; ++i) {
        r.k[i] = ext(s.k[i], from, to);
        r.c[i] = s.c[i];
    }
    return r;
}

// the value of a coefficient of Ser as a cf
template <typename Ser>
static u64 as_cf(u64 v)
{
    return std::is_same_v<Ser, S2> ? conv(v) : v;
}

// two operands
template <typename A, typename B>
struct operands {
    unsigned ma, mb, m;
    int na, nb;
    unsigned la, lb;
    A a;
    B b;
    spec sa, sb;
    // the merged operands
    spec ea, eb;
    operands(bool same_symbols, bool equal_sizes = false)
    {
        static const unsigned pairs[][2] = {{2, 3}, {3, 1}, {1, 2}, {5, 6}, {0, 2}, {3, 3}};
        static const int sizes[][2] = {{1, 1}, {2, 1}, {1, 2}, {0, 1}, {1, 0}, {0, 0}, {2, 0}, {0, 2}};
        int p, n, l;
#if defined(VF_THOROUGH)
        p = same_symbols ? 5 : vf::cases(0, 4);
        n = vf::cases(0, same_symbols ? 7 : 5);
        l = vf::cases(0, 3);
#else
        if (same_symbols) {
            static const int sel[][2] = {{0, 0}, {1, 0}, {2, 0}, {1, 1}, {2, 2}, {0, 3}, {3, 0}, {4, 1}, {5, 2}};
            const int c = vf::cases(0, 8);
            p = 5;
            n = sel[c][0];
            l = sel[c][1];
        } else {
            static const int sel[][3] = {{0, 1, 0}, {1, 2, 0}, {2, 0, 1}, {3, 0, 2}, {4, 1, 0},
                                         {1, 1, 2}, {0, 2, 1}, {2, 3, 0}, {3, 4, 0},
                                         // only where series of the same size matter
                                         {0, 0, 2}, {1, 0, 1}, {3, 0, 0}, {4, 0, 0}, {1, 5, 0}};
            const int c = vf::cases(0, equal_sizes ? 13 : 8);
            p = sel[c][0];
            n = sel[c][1];
            l = sel[c][2];
        }
#endif
        ma = pairs[p][0];
        mb = pairs[p][1];
        m = ma | mb;
        na = ma == 0 && sizes[n][0] > 1 ? 1 : sizes[n][0];
        nb = sizes[n][1];
        la = l & 1;
        lb = l >> 1;
        vf_umap::order = 0;
        sa = arbitrary(a, names(ma), la, na);
        sb = arbitrary(b, names(mb), lb, nb);
        ea = ext(sa, ma, m);
        eb = ext(sb, mb, m);
    }
    // the specified coefficient of a +- b
    u64 sum(u32 x, bool sign) const
    {
        const u64 p = as_cf<A>(ea.at(x)), q = as_cf<B>(eb.at(x));
        return sign ? p + q : p - q;
    }
};

// What is left of an operand: unchanged if it was not moved from, valid if it was.
template <bool Move, typename Ser>
static void left(Ser &s, const spec &m, unsigned mask)
{
    if constexpr (Move) {
        // can be destroyed, cleared and assigned to
        s.clear();
        s = Ser(1);
        well_formed(s);
        vf_check(s.size() == 1, "a series that was moved from can be assigned to");
    } else {
        denotes(s, m);
        vf_check(s.get_symbol_set() == names(mask), "the operand is unchanged");
    }
}

template <bool Move, typename T>
static decltype(auto) fwd(T &x)
{
    if constexpr (Move) {
        return std::move(x);
    } else {
        return std::as_const(x);
    }
}

// a + b, a - b
template <bool Sign, bool Same, typename A, typename B, bool MoveA, bool MoveB>
static void addsub()
{
    operands<A, B> o(Same);
    const S r = [&]() {
        if constexpr (Sign) {
            return fwd<MoveA>(o.a) + fwd<MoveB>(o.b);
        } else {
            return fwd<MoveA>(o.a) - fwd<MoveB>(o.b);
        }
    }();
    well_formed(r);
    const u32 x = vf::any<u32>();
    vf_check(at(r, x) == o.sum(x, Sign), "the coefficients are added or subtracted at every key");
    vf_check(r.get_symbol_set() == names(o.m), "the symbols are merged");
    left<MoveA>(o.a, o.sa, o.ma);
    left<MoveB>(o.b, o.sb, o.mb);
}
// a += b, a -= b
template <bool Sign, bool Same, typename B, bool MoveB>
static void in_place()
{
    operands<S, B> o(Same);
    S &r = Sign ? (o.a += fwd<MoveB>(o.b)) : (o.a -= fwd<MoveB>(o.b));
    vf_check(&r == &o.a, "the result is the left operand");
    well_formed(r);
    const u32 x = vf::any<u32>();
    vf_check(at(r, x) == o.sum(x, Sign), "the coefficients are added or subtracted at every key");
    vf_check(r.get_symbol_set() == names(o.m), "the symbols are merged");
    left<MoveB>(o.b, o.sb, o.mb);
}
#define VF_ADDSUB(t, A, B)                                                                                             \
    VF_INST(add_##t##_cc, addsub<true, SAME, A, B, false, false>)                                                      \
    VF_INST(add_##t##_cm, addsub<true, SAME, A, B, false, true>)                                                       \
    VF_INST(add_##t##_mc, addsub<true, SAME, A, B, true, false>)                                                       \
    VF_INST(add_##t##_mm, addsub<true, SAME, A, B, true, true>)                                                        \
    VF_INST(sub_##t##_cc, addsub<false, SAME, A, B, false, false>)                                                     \
    VF_INST(sub_##t##_cm, addsub<false, SAME, A, B, false, true>)                                                      \
    VF_INST(sub_##t##_mc, addsub<false, SAME, A, B, true, false>)                                                      \
    VF_INST(sub_##t##_mm, addsub<false, SAME, A, B, true, true>)
#define VF_IN_PLACE(t, B)                                                                                              \
    VF_INST(in_add_##t##_c, in_place<true, SAME, B, false>)                                                            \
    VF_INST(in_add_##t##_m, in_place<true, SAME, B, true>)                                                             \
    VF_INST(in_sub_##t##_c, in_place<false, SAME, B, false>)                                                           \
    VF_INST(in_sub_##t##_m, in_place<false, SAME, B, true>)
#define SAME true
VF_ADDSUB(same_11, S, S)
VF_ADDSUB(same_12, S, S2)
VF_ADDSUB(same_21, S2, S)
VF_IN_PLACE(same_11, S)
VF_IN_PLACE(same_12, S2)
#undef SAME
#define SAME false
VF_ADDSUB(syms_11, S, S)
VF_ADDSUB(syms_12, S, S2)
VF_ADDSUB(syms_21, S2, S)
VF_IN_PLACE(syms_11, S)
VF_IN_PLACE(syms_12, S2)
#undef SAME

static void one(S &s, spec &m, unsigned mask = 3)
{
    const int c = vf::cases(0, 5);
    m = arbitrary(s, names(mask), c / 3, c % 3);
}

// Both operands are the same series.
template <int Op>
static void self()
{
    S s;
    spec m;
    one(s, m);
    const u32 x = vf::any<u32>();
    S r;
    switch (Op) {
        case 0: r = s + s; break;
        case 1: r = s - s; break;
        case 2: r = std::move(s) + s; break;
        case 3: r = std::move(s) - s; break;
        case 4: r = s + std::move(s); break;
        case 5: r = s - std::move(s); break;
        case 6: s += s; break;
        case 7: s -= s; break;
        case 8: s += std::move(s); break;
        case 9: s -= std::move(s); break;
        case 10: r = std::move(s) + std::move(s); break;
        case 11: r = std::move(s) - std::move(s); break;
    }
    const bool in = Op >= 6 && Op < 10;
    const S &res = in ? s : r;
    well_formed(res);
    vf_check(at(res, x) == (Op % 2 ? 0 : 2 * m.at(x)), "a series plus or minus itself");
    vf_check(res.get_symbol_set() == names(3), "the symbols are kept");
    if (Op < 2) {
        left<false>(s, m, 3);
    } else if (!in) {
        left<true>(s, m, 3);
    }
}
VF_INST(self_add_cc, self<0>)
VF_INST(self_sub_cc, self<1>)
VF_INST(self_add_mc, self<2>)
VF_INST(self_sub_mc, self<3>)
VF_INST(self_add_cm, self<4>)
VF_INST(self_sub_cm, self<5>)
VF_INST(self_in_add_c, self<6>)
VF_INST(self_in_sub_c, self<7>)
VF_INST(self_in_add_m, self<8>)
VF_INST(self_in_sub_m, self<9>)
VF_INST(self_add_mm, self<10>)
VF_INST(self_sub_mm, self<11>)

// A series and a scalar.
template <bool Move, typename C>
static void scalar()
{
    S s;
    spec m;
    one(s, m);
    s.tag().n = 7;
    u64 v;
    C c;
    if constexpr (std::is_same_v<C, int>) {
        c = vf::any<int>();
        v = static_cast<u64>(static_cast<std::int64_t>(c));
    } else {
        v = vf::any<u64>();
        c = C(typename C::raw{}, v);
        v = std::is_same_v<C, cf2> ? conv(v) : v;
    }
    const u32 x = vf::any<u32>();
    const u64 p = m.at(x), q = sel(x == 0, v);
    const int op = vf::cases(0, 4);
    S r;
    u64 e = 0;
    switch (op) {
        case 0:
            r = fwd<Move>(s) + c;
            e = p + q;
            break;
        case 1:
            r = fwd<Move>(s) - c;
            e = p - q;
            break;
        case 2:
            r = c + fwd<Move>(s);
            e = p + q;
            break;
        case 3:
            r = c - fwd<Move>(s);
            e = q - p;
            break;
        case 4:
            r = s;
            r += c;
            well_formed(r);
            vf_check(at(r, x) == p + q, "the scalar is added to the coefficient of the unit key");
            r -= c;
            r -= c;
            e = p - q;
            break;
    }
    well_formed(r);
    vf_check(at(r, x) == e, "the scalar is added to or subtracted from the coefficient of the unit key");
    vf_check(r.get_symbol_set() == names(3) && r.tag().n == 7, "symbols and tag are kept");
    if (op == 4) {
        left<false>(s, m, 3);
    } else {
        left<Move>(s, m, 3);
    }
}
VF_INST(scalar_cf_c, scalar<false, cf>)
VF_INST(scalar_cf_m, scalar<true, cf>)
VF_INST(scalar_cf2_c, scalar<false, cf2>)
VF_INST(scalar_cf2_m, scalar<true, cf2>)

// Sign changes.
template <bool Move>
static void neg()
{
    S s;
    spec m;
    one(s, m);
    s.tag().n = 7;
    const u32 x = vf::any<u32>();
    const S p = +fwd<Move>(s);
    well_formed(p);
    vf_check(at(p, x) == m.at(x) && p.get_symbol_set() == names(3) && p.tag().n == 7, "+s is s");
    left<Move>(s, m, 3);
    S q(p);
    const S n = -fwd<Move>(q);
    well_formed(n);
    vf_check(at(n, x) == -m.at(x) && n.get_symbol_set() == names(3) && n.tag().n == 7,
             "-s has the opposite coefficients");
    left<Move>(q, m, 3);
    S r(p);
    obake::negate(r);
    well_formed(r);
    vf_check(at(r, x) == -m.at(x) && r.get_symbol_set() == names(3) && r.tag().n == 7,
             "negate() changes the sign of every coefficient");
    obake::negate(std::move(r));
    well_formed(r);
    vf_check(at(r, x) == m.at(x), "negate() changes the sign of every coefficient");
    vf_check(obake::is_zero(p) == (m.n == 0), "a series is zero exactly when it has no terms");
}
VF_INST(neg_c, neg<false>)
VF_INST(neg_m, neg<true>)

// Products and quotients with scalars.
template <bool Move>
static void scale()
{
    S s;
    spec m;
    one(s, m);
    s.tag().n = 7;
    const u64 v = vf::any<u64>();
    const cf c(cf::raw{}, v);
    const u32 x = vf::any<u32>();
    const int op = vf::cases(0, 4);
    S r;
    u64 e = 0;
    for (int i = 0; i < m.n; ++i) {
        e += sel(m.k[i] == x, m.c[i] * v);
    }
    switch (op) {
        case 0:
            r = fwd<Move>(s) * c;
            break;
        case 1:
            r = c * fwd<Move>(s);
            break;
        case 2:
            r = s;
            r *= c;
            break;
        case 3:
            r = fwd<Move>(s) / c;
            e = m.at(x) ^ v;
            e = sel(m.at(x) != 0, e);
            break;
        case 4:
            r = s;
            r /= c;
            e = sel(m.at(x) != 0, m.at(x) ^ v);
            break;
    }
    well_formed(r);
    vf_check(at(r, x) == e, "every coefficient is multiplied or divided by the scalar");
    vf_check(r.get_symbol_set() == names(3) && r.tag().n == 7, "symbols and tag are kept");
    if (op == 2 || op == 4) {
        left<false>(s, m, 3);
    } else {
        left<Move>(s, m, 3);
    }
}
VF_INST(scale_c, scale<false>)
VF_INST(scale_m, scale<true>)

// An operation on coefficients throws in the middle.
template <typename A, bool Move, bool Same>
static void throws()
{
    const int op = vf::cases(0, std::is_same_v<A, S> ? 8 : 4);
    const int f = vf::cases(0, 4);
    S a;
    A b;
    arbitrary(a, names(3), 0, 2);
    arbitrary(b, names(Same ? 3 : 6), op & 1, op < 6 ? 2 : 1);
    const cf c(cf::raw{}, vf::any<u64>());
    fuse = f;
    try {
        switch (op) {
            case 0: {
                const S r = fwd<Move>(a) + fwd<Move>(b);
                well_formed(r);
                break;
            }
            case 1: {
                const S r = fwd<Move>(a) - fwd<Move>(b);
                well_formed(r);
                break;
            }
            case 2: {
                const S r = fwd<Move>(b) - fwd<Move>(a);
                well_formed(r);
                break;
            }
            case 3:
                a += fwd<Move>(b);
                break;
            case 4:
                a -= fwd<Move>(b);
                break;
            case 5:
                if constexpr (std::is_same_v<A, S>) {
                    const S r = fwd<Move>(b) * c;
                    well_formed(r);
                }
                break;
            case 6:
                if constexpr (std::is_same_v<A, S>) {
                    const S r = fwd<Move>(b) / c;
                    well_formed(r);
                }
                break;
            case 7:
                if constexpr (std::is_same_v<A, S>) {
                    const S r = c - fwd<Move>(b);
                    well_formed(r);
                }
                break;
            case 8:
                b += c;
                break;
        }
    } catch (const oops &) {
        vf_cover("thrown");
    }
    fuse = -1;
    if constexpr (!Move) {
        well_formed(b);
    }
    if (!Move || op == 3 || op == 4) {
        well_formed(a);
    }
    left<true>(a, {}, 0);
    left<true>(b, {}, 0);
}
VF_INST(throws_same_11_c, throws<S, false, true>)
VF_INST(throws_same_11_m, throws<S, true, true>)
VF_INST(throws_syms_11_c, throws<S, false, false>)
VF_INST(throws_syms_11_m, throws<S, true, false>)
VF_INST(throws_same_12_c, throws<S2, false, true>)
VF_INST(throws_same_12_m, throws<S2, true, true>)
VF_INST(throws_syms_12_c, throws<S2, false, false>)
VF_INST(throws_syms_12_m, throws<S2, true, false>)

// Comparison.
template <typename A, typename B, bool Same>
static void equal()
{
    operands<A, B> o(Same, true);
    vf_umap::order = 0;
    const u32 x = vf::any<u32>();
    const bool t = vf::cases(0, 1);
    o.a.tag().n = t;
    const bool e = o.a == o.b;
    vf_check((o.a != o.b) == !e, "!= is the negation of ==");
    if (t) {
        vf_check(!e, "series with different tags differ");
    } else {
        // equal series agree at x; different ones disagree at the key of one of the terms
        vf_check(!e | (o.sum(x, false) == 0), "equal series have the same coefficient at every key");
        bool d = o.na != o.nb;
        for (int i = 0; i < o.na; ++i) {
            d |= o.sum(o.ea.k[i], false) != 0;
        }
        for (int i = 0; i < o.nb; ++i) {
            d |= o.sum(o.eb.k[i], false) != 0;
        }
        vf_check(e | d, "series with the same coefficients at all keys are equal");
    }
    denotes(o.a, o.sa);
    denotes(o.b, o.sb);
}
VF_INST(equal_same_11, equal<S, S, true>)
VF_INST(equal_same_12, equal<S, S2, true>)
VF_INST(equal_same_21, equal<S2, S, true>)
VF_INST(equal_syms_11, equal<S, S, false>)
VF_INST(equal_syms_12, equal<S, S2, false>)
VF_INST(equal_syms_21, equal<S2, S, false>)

// Comparison with scalars, and of both orders of iteration.
VF_PROOF(equal_scalar)
{
    S s;
    spec m;
    one(s, m);
    const u64 v = vf::any<u64>();
    const cf c(cf::raw{}, v);
    const bool e = m.n == 0 ? v == 0 : m.n == 1 ? (m.k[0] == 0) & (m.c[0] == v) : false;
    vf_check((s == c) == e && (c == s) == e && (s != c) == !e && (c != s) == !e,
             "a series equals a scalar exactly when it is that constant");
    vf_check((s == s) && !(s != s), "a series equals itself");
}
