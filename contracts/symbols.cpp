// Contracts of the symbol set operations (obake/symbols.hpp, src/symbols.cpp).
// The symbols of a proof are N names in increasing order; which sets each of
// them belongs to is arbitrary. The functions look at symbols only through <
// and ==, so this covers all pairs of sets whose union has at most N elements.
#include <string>
#include <tuple>

#include <obake/symbols.hpp>

#include "src/detail/to_string.cpp"
#include "src/symbols.cpp"
#include "vf.hpp"

using namespace obake;

#if !defined(VF_N)
#define VF_N 5
#endif
constexpr int N = VF_N;
// names of different lengths, one a prefix of another, one beyond the small string buffer
static const char *const names[8]
    = {"a", "a_long_symbol_name_beyond_the_buffer", "aa", "b", "b0", "ca", "d", "e"};

struct sets {
    symbol_set s1, s2;
    bool in1[N], in2[N];
    sets()
    {
        const int c = vf::cases(0, 15);
        for (int i = 0; i < N; ++i) {
            in1[i] = i < 2 ? (c >> i & 1) : vf::any<bool>();
            in2[i] = i < 2 ? (c >> (i + 2) & 1) : vf::any<bool>();
            if (in1[i]) {
                s1.insert(s1.end(), std::string(names[i]));
            }
            if (in2[i]) {
                s2.insert(s2.end(), std::string(names[i]));
            }
        }
    }
};

// Inserting the sets of the map at their positions in s gives u.
static void check_ins(const symbol_set &s, const bool *in_s, const bool *in_o, const symbol_idx_map<symbol_set> &m)
{
    // expected: walk over the universe; symbols of the union that are not in s
    // are grouped under the index of the next symbol of s.
    auto it = m.begin();
    std::size_t pos = 0;
    int i = 0;
    while (i < N) {
        if (in_s[i]) {
            ++pos;
            ++i;
            continue;
        }
        // a maximal run of missing symbols before position pos
        std::size_t cnt = 0;
        int j = i;
        for (; j < N && !in_s[j]; ++j) {
            cnt += in_o[j];
        }
        if (cnt) {
            vf_check(it != m.end(), "there is an insertion wherever symbols are missing");
            vf_check(it->first == pos, "symbols are inserted before the next symbol of the set");
            vf_check(it->second.size() == cnt, "the insertion has exactly the missing symbols");
            std::size_t k = 0;
            for (int q = i; q < j; ++q) {
                if (in_o[q]) {
                    vf_check(*it->second.nth(k) == names[q], "the missing symbols are inserted in order");
                    ++k;
                }
            }
            ++it;
        }
        i = j;
    }
    vf_check(it == m.end(), "nothing else is inserted");
    vf_check(pos == s.size(), "spec sanity");
}

VF_PROOF(merge)
{
    sets S;
    const auto [u, m1, m2] = detail::merge_symbol_sets(S.s1, S.s2);
    std::size_t k = 0;
    for (int i = 0; i < N; ++i) {
        if (S.in1[i] || S.in2[i]) {
            vf_check(k < u.size() && *u.nth(k) == names[i], "the union has every symbol of the two sets, in order");
            ++k;
        }
    }
    vf_check(k == u.size(), "the union has nothing else");
    check_ins(S.s1, S.in1, S.in2, m1);
    check_ins(S.s2, S.in2, S.in1, m2);
    // frame
    std::size_t n1 = 0, n2 = 0;
    for (int i = 0; i < N; ++i) {
        if (S.in1[i]) {
            vf_check(*S.s1.nth(n1) == names[i], "the first argument is unchanged");
        }
        if (S.in2[i]) {
            vf_check(*S.s2.nth(n2) == names[i], "the second argument is unchanged");
        }
        n1 += S.in1[i];
        n2 += S.in2[i];
    }
    vf_check(n1 == S.s1.size() && n2 == S.s2.size(), "the arguments are unchanged");
}

VF_PROOF(ss_intersect)
{
    sets S;
    const auto r = detail::ss_intersect_idx(S.s1, S.s2);
    std::size_t k = 0, pos = 0;
    for (int i = 0; i < N; ++i) {
        if (S.in1[i] && S.in2[i]) {
            vf_check(k < r.size() && *r.nth(k) == pos, "every common symbol is listed at its position in the reference");
            ++k;
        }
        pos += S.in2[i];
    }
    vf_check(k == r.size(), "nothing else is listed");
}

VF_PROOF(sm_intersect)
{
    sets S;
    symbol_map<int> m;
    int val[N];
    for (int i = 0; i < N; ++i) {
        if (S.in1[i]) {
            val[i] = vf::any<int>();
            m.emplace_hint(m.end(), std::string(names[i]), val[i]);
        }
    }
    const auto r = detail::sm_intersect_idx(m, S.s2);
    std::size_t k = 0, pos = 0;
    for (int i = 0; i < N; ++i) {
        if (S.in1[i] && S.in2[i]) {
            vf_check(k < r.size() && r.nth(k)->first == pos, "every common symbol is listed at its position");
            vf_check(r.nth(k)->second == val[i], "with the value of the map");
            ++k;
        }
        pos += S.in2[i];
    }
    vf_check(k == r.size(), "nothing else is listed");
}

VF_PROOF(ss_to_string)
{
    sets S;
    const auto s = detail::to_string(S.s1);
    std::string e = "{";
    bool first = true;
    for (int i = 0; i < N; ++i) {
        if (S.in1[i]) {
            e += first ? "'" : ", '";
            e += names[i];
            e += "'";
            first = false;
        }
    }
    e += "}";
    vf_check(s == e, "the string lists the quoted symbols in order");
}

// equal sets have equal hashes
VF_PROOF(ss_hash)
{
    sets S;
    vf_assume(S.s1 == S.s2);
    symbol_set s3;
    for (int i = N; i > 0; --i) {
        if (S.in1[i - 1]) {
            s3.insert(std::string(names[i - 1]));
        }
    }
    const detail::ss_fw_hasher h;
    vf_check(h(S.s1) == h(S.s2) && h(S.s1) == h(s3), "equal symbol sets hash equally");
}
