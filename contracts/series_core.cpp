// Contracts of the series container (obake/series.hpp): insertion, lookup, iteration, conversions, clearing.
#include "series.hpp"

#include "src/detail/fw_utils.cpp"
#include "src/detail/to_string.cpp"
#include "src/series.cpp"
#include "src/symbols.cpp"

using namespace vk;

// segments and number of terms
static void sizes(unsigned &l, int &n)
{
    const int c = vf::cases(0, 6);
    l = c < 3 ? 0u : c < 6 ? 1u : 2u;
    n = c < 6 ? c % 3 : 1;
}

// The map s is the map m after c (negated if !Sign) has been added at key k.
template <bool Sign, bool Move>
static void add_term()
{
    unsigned l;
    int n;
    sizes(l, n);
    const symbol_set ss = names(3);
    S s;
    const spec m = arbitrary(s, ss, l, n);
    s.tag().n = 7;
    const key k(vf::any<u32>());
    const u64 c = vf::any<u64>();
    key kk(k);
    cf cc(cf::raw{}, c);
    VF_CATCH(t, if constexpr (Move) { s.add_term<Sign>(std::move(kk), std::move(cc)); } else {
        s.add_term<Sign>(std::as_const(kk), std::as_const(cc));
    })
    const bool ok = vk::compat(k, 2);
    vf_check((t == vf::none) == ok && (ok || t == vf::invalid_argument),
             "adding a term throws invalid_argument exactly for an incompatible key");
    if (!Move) {
        vf_check(kk == k && cc.val() == c, "the arguments are unchanged");
    }
    well_formed(s);
    const u32 x = vf::any<u32>();
    const u64 d = sel(ok & (x == k.e) & ((x >> 31) == 0), c);
    const u64 e = Sign ? m.at(x) + d : m.at(x) - d;
    vf_check(at(s, x) == e, "adding a term changes exactly the coefficient at its key");
    vf_check(s.get_symbol_set() == ss && s.get_s_size() == l && s.tag().n == 7,
             "symbols, segments and tag are unchanged");
}
VF_INST(add_term_copy, add_term<true, false>)
VF_INST(add_term_move, add_term<true, true>)
VF_INST(add_term_neg_copy, add_term<false, false>)
VF_INST(add_term_neg_move, add_term<false, true>)

// An operation on coefficients throws while a term is added.
template <bool Sign>
static void add_term_throws()
{
    unsigned l;
    int n;
    sizes(l, n);
    const int f = vf::cases(0, 2);
    const symbol_set ss = names(3);
    S s;
    arbitrary(s, ss, l, n);
    const key k(vf::any<u32>());
    const cf c(cf::raw{}, vf::any<u64>());
    fuse = f;
    try {
        s.add_term<Sign>(k, c);
    } catch (const oops &) {
        vf_cover("thrown");
    } catch (const std::invalid_argument &) {
    }
    fuse = -1;
    well_formed(s);
    // the series can be used again
    s.add_term(key(1), 1);
    well_formed(s);
}
VF_INST(add_term_throws_pos, add_term_throws<true>)
VF_INST(add_term_throws_neg, add_term_throws<false>)

// A term is added from something a coefficient can be constructed from.
VF_PROOF(add_term_args)
{
    unsigned l;
    int n;
    sizes(l, n);
    S s;
    const spec m = arbitrary(s, names(3), l, n);
    const key k(vf::in<u32>(0, 0xffff));
    const int c = vf::any<int>();
    s.add_term(k, c);
    well_formed(s);
    const u32 x = vf::any<u32>();
    vf_check(at(s, x) == m.at(x) + sel(x == k.e, static_cast<u64>(static_cast<std::int64_t>(c))),
             "adding a term changes exactly the coefficient at its key");
    s.add_term<false>(k, c);
    vf_check(at(s, x) == m.at(x), "subtracting the same term again restores the series");
    s.add_term(k);
    vf_check(at(s, x) == m.at(x), "adding a default-constructed coefficient changes nothing");
}

// Lookup and iteration.
template <typename Ser>
static void lookup_in(Ser &s, const spec &m)
{
    const u32 x = vf::in<u32>(0, 0xffff);
    const auto it = s.find(key(x));
    u64 c = m.at(x);
    if (it == s.end()) {
        vf_check(c == 0, "find() fails only for absent keys");
    } else {
        vf_check((it->first.e == x) & (it->second.v == c) & (c != 0), "find() gives the term with the key");
    }
    u64 sum = 0, cnt = 0, hit = 0;
    for (auto &t : s) {
        sum += t.second.v;
        hit += sel(t.first.e == x, 1);
        ++cnt;
    }
    u64 e = 0, ne = 0;
    for (int i = 0; i < m.n; ++i) {
        e += m.c[i];
        ne += sel(m.k[i] == x, 1);
    }
    vf_check((cnt == static_cast<u64>(m.n)) & (sum == e) & (hit == ne), "iteration visits every term exactly once");
    vf_check(s.size() == static_cast<u64>(m.n) && s.empty() == (m.n == 0), "size() is the number of terms");
    vf_check((s.begin() == s.end()) == s.empty(), "begin() is end() exactly for an empty series");
    auto i2 = s.begin();
    auto i3 = i2;
    if (i2 != s.end()) {
        vf_check(i3++ == i2, "postincrement returns the old position");
        vf_check(&*i2 != nullptr && i3 != i2, "increment moves on");
    }
    vf_check(s.is_single_cf() == ((m.n == 0) | ((m.n == 1) & (m.n != 0 ? m.k[0] == 0 : true))),
             "a series is a single coefficient exactly if it is empty or its only key is one");
}
template <bool Const>
static void lookup()
{
    unsigned l;
    int n;
    sizes(l, n);
    vf_umap::order = vf::cases(0, 1);
    S s;
    const spec m = arbitrary(s, names(3), l, n);
    if constexpr (Const) {
        lookup_in(std::as_const(s), m);
    } else {
        lookup_in(s, m);
        typename S::const_iterator ci = s.begin();
        vf_check(ci == s.begin() && ci == s.cbegin(), "iterators convert to constant iterators");
    }
    denotes(s, m);
}
VF_INST(lookup_const, lookup<true>)
VF_INST(lookup_mut, lookup<false>)

// Copy, move, assignment, swap.
VF_PROOF(copies)
{
    unsigned l;
    int n;
    sizes(l, n);
    S s;
    const symbol_set ss = names(3);
    const spec m = arbitrary(s, ss, l, n);
    s.tag().n = 7;
    S a(s), b;
    const int n2 = vf::cases(0, 1);
    const spec mb = arbitrary(b, names(1), 1, n2);
    b.tag().n = 9;
    denotes(a, m);
    denotes(s, m);
    using std::swap;
    swap(a, b);
    denotes(b, m);
    denotes(a, mb);
    vf_check(a.get_symbol_set() == names(1) && b.get_symbol_set() == ss && a.tag().n == 9 && b.tag().n == 7
                 && a.get_s_size() == 1 && b.get_s_size() == l,
             "swap exchanges symbols, segments and tags");
    S c(std::move(b));
    denotes(c, m);
    vf_check(c.get_symbol_set() == ss && c.tag().n == 7 && c.get_s_size() == l, "moving keeps everything");
    b = a;
    denotes(b, mb);
    b = std::move(c);
    denotes(b, m);
    c = b;
    denotes(c, m);
    c = std::as_const(c);
    denotes(c, m);
    vf_check(c.get_symbol_set() == ss && c.tag().n == 7 && c.get_s_size() == l, "assignment keeps everything");
    c.clear_terms();
    vf_check(c.empty() && c.get_symbol_set() == ss && c.tag().n == 7 && c.get_s_size() == l,
             "clear_terms() removes the terms only");
    b.clear();
    vf_check(b.empty() && b.get_symbol_set().empty() && b.tag().n == 0 && b.get_s_size() == l,
             "clear() removes terms, symbols and tag");
    denotes(s, m);
}

// The number of segments and the symbol set.
VF_PROOF(setters)
{
    unsigned l;
    int n;
    sizes(l, n);
    S s;
    const spec m = arbitrary(s, names(3), l, n);
    VF_CATCH(t, s.set_symbol_set(names(5)))
    vf_check((t == vf::none) == (n == 0) && (n == 0 || t == vf::invalid_argument),
             "the symbols of a series can be set only while it is empty");
    vf_check(s.get_symbol_set() == names(n == 0 ? 5 : 3), "the symbol set is the last one set");
    const obake::detail::ss_fw fw(names(6));
    VF_CATCH(t2, s.set_symbol_set_fw(fw))
    vf_check((t2 == vf::none) == (n == 0) && (n == 0 || t2 == vf::invalid_argument),
             "the symbols of a series can be set only while it is empty");
    vf_check(s.get_symbol_set() == names(n == 0 ? 6 : 3) && s.get_symbol_set_fw().get() == s.get_symbol_set(),
             "the symbol set is the last one set");
    s.reserve(5);
    denotes(s, m);
    const unsigned big = vf::in<unsigned>(S::get_max_s_size() + 1, ~0u);
    VF_CATCH(t3, s.set_n_segments(big))
    vf_check(t3 == vf::invalid_argument && s.get_s_size() == l, "too many segments are rejected");
    denotes(s, m);
    vf_check(s._get_max_table_size() <= ~u64(0) >> l && s._get_max_table_size() > (~u64(0) >> l) - 1,
             "the table size limit keeps the number of terms representable");
    const unsigned l2 = static_cast<unsigned>(vf::cases(0, 2));
    s.set_n_segments(l2);
    vf_check(s.empty() && s.get_s_size() == l2 && s._get_s_table().size() == (std::size_t(1) << l2),
             "setting the number of segments gives that many empty tables");
}

// Construction from scalars.
VF_PROOF(from_scalar)
{
    const int c = vf::any<int>();
    const S s(c);
    well_formed(s);
    const u32 x = vf::any<u32>();
    const u64 v = static_cast<u64>(static_cast<std::int64_t>(c));
    vf_check((at(s, x) == sel(x == 0, v)) & (s.empty() == (c == 0)), "a scalar becomes a constant series");
    const u64 u = vf::any<u64>();
    const cf k(cf::raw{}, u);
    const S s2(k);
    well_formed(s2);
    vf_check((at(s2, x) == sel(x == 0, u)) & (s2.empty() == (u == 0)), "a coefficient becomes a constant series");
    const S s3(k, names(3));
    well_formed(s3);
    vf_check(at(s3, x) == sel(x == 0, u) && s3.get_symbol_set() == names(3),
             "a coefficient becomes a constant series over the symbols");
    cf k2(k);
    S s4(std::move(k2));
    well_formed(s4);
    vf_check(at(s4, x) == sel(x == 0, u), "a moved coefficient becomes a constant series");
    s4 = 0;
    vf_check(s4.empty(), "assigning zero empties the series");
    s4 = k;
    vf_check(at(s4, x) == sel(x == 0, u), "assigning a coefficient gives a constant series");
    vf_check(s2.get_symbol_set().empty() && s2.get_s_size() == 0, "a constant series has no symbols");
}

// Conversion to scalars.
VF_PROOF(to_scalar)
{
    unsigned l;
    int n;
    sizes(l, n);
    S s;
    const spec m = arbitrary(s, names(3), l, n);
    const bool single = n == 0 ? true : (n == 1) & (m.k[0] == 0);
    u64 r = 0;
    VF_CATCH(t, r = static_cast<cf>(s).val())
    vf_check((t == vf::none) == single && (single || t == vf::invalid_argument),
             "only a series that consists of a single coefficient converts to a scalar");
    vf_check(!single || r == (n == 0 ? 0 : m.c[0]), "the scalar is the coefficient");
    denotes(s, m);
}

// Conversion from a series with another coefficient type (and tag).
template <bool Move>
static void convert()
{
    unsigned l;
    int n;
    sizes(l, n);
    vf_umap::order = vf::cases(0, 1);
    S2 s;
    const symbol_set ss = names(3);
    const spec m = arbitrary(s, ss, l, n);
    s.tag().n = 7;
    const u32 x = vf::any<u32>();
    if constexpr (Move) {
        const S r(std::move(s));
        well_formed(r);
        vf_check(at(r, x) == conv(m.at(x)), "every coefficient is converted");
        vf_check(r.get_symbol_set() == ss && r.get_s_size() == l && r.tag().n == 7,
                 "symbols, segments and tag are kept");
        well_formed(s);
        vf_check(s.empty(), "the source of a converting move is empty");
        s.set_symbol_set(ss);
        s.add_term(key(1), 1);
        well_formed(s);
    } else {
        const S r(s);
        well_formed(r);
        vf_check(at(r, x) == conv(m.at(x)), "every coefficient is converted");
        vf_check(r.get_symbol_set() == ss && r.get_s_size() == l && r.tag().n == 7,
                 "symbols, segments and tag are kept");
        denotes(s, m);
        vf_check(s.tag().n == 7, "the source is unchanged");
        // the tag type may differ
        struct tag2 : tag {
        };
        const obake::series<key, cf, tag2> r2(s);
        well_formed(r2);
        vf_check(at(r2, x) == conv(m.at(x)) && r2.tag().n == 0, "another tag type: default tag");
    }
}
VF_INST(convert_copy, convert<false>)
VF_INST(convert_move, convert<true>)
