// Native runtime of the proofs: replay of a counterexample, or a random
// search, over the real code.
#include <atomic>
#include <chrono>
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <unistd.h>
#include <vector>

#include "vf.hpp"

namespace
{
using W = unsigned _BitInt(512);
std::map<std::string, void (*)()> &tab()
{
    static std::map<std::string, void (*)()> t;
    return t;
}
struct rec {
    std::string hex;
    int bits;
    int sgn;
    bool is_case;
};
std::vector<std::string> replay_vals;
std::size_t replay_pos;
bool fuzzing;
std::vector<rec> log_;
std::mt19937_64 rng;
sigjmp_buf jb;
std::vector<long> fixed_cases;
std::size_t case_pos;
unsigned long iters;

std::string to_hex(const void *p, int n)
{
    std::string s;
    for (int i = n - 1; i >= 0; --i) {
        char b[3];
        std::snprintf(b, 3, "%02x", static_cast<const unsigned char *>(p)[i]);
        s += b;
    }
    return s;
}
void from_hex(const std::string &s, void *p, int n)
{
    std::memset(p, 0, static_cast<std::size_t>(n));
    int k = 0;
    for (int i = int(s.size()); i > 0 && k < n; i -= 2, ++k) {
        auto h = s.substr(static_cast<std::size_t>(i < 2 ? 0 : i - 2), i < 2 ? 1u : 2u);
        static_cast<unsigned char *>(p)[k] = static_cast<unsigned char>(std::stoul(h, nullptr, 16));
    }
}
[[noreturn]] void fail(const char *what)
{
    std::printf("VF_FAIL %s\n", what);
    std::printf("VF_INPUTS");
    for (auto &r : log_) {
        std::printf(" %s", r.hex.c_str());
    }
    std::printf("\n");
    std::fflush(stdout);
    _exit(1);
}
void on_signal(int s)
{
    fail(s == SIGABRT ? "abort (assertion failure or std::terminate)"
                      : s == SIGSEGV ? "segmentation fault" : "undefined behaviour trapped");
}
} // namespace

namespace vf
{
reg::reg(const char *n, void (*f)())
{
    tab()[n] = f;
}
} // namespace vf

extern "C" {
void vf_nondet(void *out, int bits, int sgn, const void *lo, const void *hi)
{
    const int n = bits / 8;
    if (!fuzzing) {
        if (replay_pos >= replay_vals.size()) {
            // inputs beyond the counterexample are irrelevant
            if (lo) {
                std::memcpy(out, lo, static_cast<std::size_t>(n));
            } else {
                std::memset(out, 0, static_cast<std::size_t>(n));
            }
        } else {
            from_hex(replay_vals[replay_pos++], out, n);
        }
        log_.push_back({to_hex(out, n), bits, sgn, false});
        return;
    }
    W l = 0, h = 0, m = bits == 512 ? ~W(0) : (W(1) << bits) - 1;
    if (lo) {
        std::memcpy(&l, lo, static_cast<std::size_t>(n));
        std::memcpy(&h, hi, static_cast<std::size_t>(n));
    } else if (sgn) {
        l = W(1) << (bits - 1);
        h = l - 1;
    } else {
        l = 0;
        h = m;
    }
    const W range = (h - l) & m; // width of the interval
    W r = 0;
    for (int i = 0; i < 8; ++i) {
        r = (r << 64) | rng();
    }
    W v;
    switch (rng() % 10) {
        case 0:
            v = l;
            break;
        case 1:
            v = h;
            break;
        case 2:
            v = l + r % 8;
            break;
        case 3:
            v = h - r % 8;
            break;
        case 4: // around zero
            v = (r % 7) - 3;
            break;
        case 5: { // around a power of two
            W p = W(1) << (rng() % unsigned(bits));
            if (sgn && (rng() & 1)) {
                p = -p;
            }
            v = p + (r % 3) - 1;
            break;
        }
        case 6: { // magnitude uniform
            W p = r & ((W(1) << (rng() % unsigned(bits))) - 1);
            if (sgn && (rng() & 1)) {
                p = -p;
            }
            v = p;
            break;
        }
        default:
            v = range == m ? r : l + r % (range + 1);
    }
    v &= m;
    if (((v - l) & m) > range) {
        v = l + (range == m ? r : r % (range + 1));
        v &= m;
    }
    std::memcpy(out, &v, static_cast<std::size_t>(n));
    log_.push_back({to_hex(out, n), bits, sgn, false});
}
void vf_assume(bool c)
{
    if (!c) {
        siglongjmp(jb, 1);
    }
}
void vf_check(bool c, const char *what)
{
    if (!c) {
        fail(what);
    }
}
void vf_cover(const char *) {}
long vf_case(long lo, long hi)
{
    long v;
    if (!fuzzing) {
        if (replay_pos < replay_vals.size()) {
            v = 0;
            from_hex(replay_vals[replay_pos++], &v, 8);
        } else {
            v = lo;
        }
    } else {
        v = lo + long(rng() % (unsigned long)(hi - lo + 1));
    }
    log_.push_back({to_hex(&v, 8), 64, 1, true});
    return v;
}
unsigned long vf_split64(unsigned long x)
{
    return x;
}
int vf_mutex_held()
{
    return 0;
}
int vf_symbolic()
{
    return 0;
}
std::ostream *vf_os_new()
{
    return new std::ostringstream;
}
std::size_t vf_os_read(std::ostream *o, char *b, std::size_t cap)
{
    auto s = static_cast<std::ostringstream *>(o)->str();
    std::memcpy(b, s.data(), s.size() < cap ? s.size() : cap);
    return s.size();
}
void vf_os_free(std::ostream *o)
{
    delete o;
}
}

// native replay FILE | native fuzz PROOF SECONDS SEED
int main(int argc, char **argv)
{
    for (int s : {SIGABRT, SIGSEGV, SIGILL, SIGTRAP, SIGFPE, SIGBUS}) {
        std::signal(s, on_signal);
    }
    if (argc < 3) {
        for (auto &p : tab()) {
            std::printf("%s\n", p.first.c_str());
        }
        return 0;
    }
    std::string mode = argv[1];
    void (*f)() = nullptr;
    double secs = 0;
    if (mode == "replay") {
        std::ifstream in(argv[2]);
        std::string line, name;
        while (std::getline(in, line)) {
            if (line.rfind("proof: ", 0) == 0) {
                name = line.substr(7);
            } else if (line.rfind("inputs:", 0) == 0) {
                std::istringstream is(line.substr(7));
                std::string t;
                while (is >> t) {
                    replay_vals.push_back(t);
                }
            }
        }
        f = tab()[name];
    } else {
        f = tab()[argv[2]];
        secs = std::atof(argv[3]);
        rng.seed(std::strtoull(argv[4], nullptr, 10));
        fuzzing = true;
    }
    if (!f) {
        std::printf("no such proof\n");
        return 2;
    }
    auto t0 = std::chrono::steady_clock::now();
    unsigned long skipped = 0;
    for (;;) {
        log_.clear();
        replay_pos = 0;
        if (sigsetjmp(jb, 1) == 0) {
            try {
                f();
            } catch (const std::exception &e) {
                fail((std::string("exception escapes: ") + e.what()).substr(0, 200).c_str());
            } catch (...) {
                fail("exception escapes");
            }
            ++iters;
        } else {
            ++skipped;
            if (!fuzzing) {
                std::printf("VF_ASSUME precondition not met\n");
                return 77;
            }
        }
        if (!fuzzing) {
            break;
        }
        if (((iters + skipped) & 15) == 0
            && std::chrono::duration<double>(std::chrono::steady_clock::now() - t0).count() > secs) {
            break;
        }
    }
    std::printf("VF_OK %lu runs, %lu skipped\n", iters, skipped);
    return 0;
}
