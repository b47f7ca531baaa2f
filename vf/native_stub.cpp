// Weak definitions of what exceptions.hpp needs, for contract files that do
// not include the real sources.
#include <atomic>
#include <string>

#include <obake/stack_trace.hpp>

namespace obake::detail
{
__attribute__((weak)) std::atomic<bool> stack_trace_enabled{false};
__attribute__((weak)) std::string stack_trace_impl(unsigned)
{
    return {};
}
} // namespace obake::detail
