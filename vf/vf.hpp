// Specification primitives used by the proofs in /verif/contracts.
// A proof is a function without parameters: inputs come from vf::any/vf::in
// (universally quantified), preconditions are stated with vf_assume, and
// postconditions with vf_check. The same file is compiled (a) to LLVM IR for
// the verifier, for which every vf_* function is a primitive, and (b) to a
// native program (VF_NATIVE) that replays counterexamples.
#ifndef VF_HPP
#define VF_HPP
#include <cstddef>
#include <cstdint>
#include <iosfwd>
#include <limits>
#include <type_traits>

extern "C" {
void vf_nondet(void *out, int bits, int sgn, const void *lo, const void *hi);
void vf_assume(bool);
void vf_check(bool, const char *);
void vf_cover(const char *);
long vf_case(long lo, long hi);
unsigned long vf_split64(unsigned long);
int vf_mutex_held();
int vf_symbolic();
std::ostream *vf_os_new();
std::size_t vf_os_read(std::ostream *, char *, std::size_t);
void vf_os_free(std::ostream *);
}

namespace vf
{
// mathematical integers of the specifications: wide enough for everything
// stated here, and their overflow is itself an obligation.
using Z = _BitInt(256);

template <typename T>
struct bits_of : std::integral_constant<int, int(sizeof(T) * 8)> {
};
template <typename T>
inline constexpr bool is_sgn = T(-1) < T(0);

template <typename T>
inline T any()
{
    if constexpr (std::is_same_v<T, bool>) {
        unsigned char r, lo = 0, hi = 1;
        vf_nondet(&r, 8, 0, &lo, &hi);
        return r != 0;
    } else {
        T r;
        vf_nondet(&r, bits_of<T>::value, is_sgn<T>, nullptr, nullptr);
        return r;
    }
}
template <typename T>
inline T in(T lo, T hi)
{
    T r;
    vf_nondet(&r, bits_of<T>::value, is_sgn<T>, &lo, &hi);
    return r;
}
inline int cases(long lo, long hi)
{
    return static_cast<int>(vf_case(lo, hi));
}
// which exception an expression throws
enum thrown { none, overflow, out_of_range, invalid_argument, domain, other };
} // namespace vf

#define VF_CATCH(var, ...)                                                                                             \
    vf::thrown var = vf::none;                                                                                         \
    try {                                                                                                              \
        __VA_ARGS__;                                                                                                   \
    } catch (const std::overflow_error &) {                                                                            \
        var = vf::overflow;                                                                                            \
    } catch (const std::out_of_range &) {                                                                              \
        var = vf::out_of_range;                                                                                        \
    } catch (const std::invalid_argument &) {                                                                          \
        var = vf::invalid_argument;                                                                                    \
    } catch (const std::domain_error &) {                                                                              \
        var = vf::domain;                                                                                              \
    } catch (...) {                                                                                                    \
        var = vf::other;                                                                                               \
    }

#if defined(VF_NATIVE)
namespace vf
{
struct reg {
    reg(const char *, void (*)());
};
} // namespace vf
#define VF_PROOF(name)                                                                                                 \
    extern "C" void proof_##name();                                                                                    \
    static vf::reg reg_##name(#name, &proof_##name);                                                                   \
    extern "C" void proof_##name()
#else
#define VF_PROOF(name) extern "C" __attribute__((used)) void proof_##name()
#endif
// one instance of a templated proof
#define VF_INST(name, ...)                                                                                             \
    VF_PROOF(name)                                                                                                     \
    {                                                                                                                  \
        __VA_ARGS__();                                                                                                 \
    }
#endif
