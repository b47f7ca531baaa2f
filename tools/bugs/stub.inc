#include <atomic>
#include <string>
#include <cstdio>
#include <obake/stack_trace.hpp>
namespace obake::detail { std::atomic<bool> stack_trace_enabled{false}; std::string stack_trace_impl(unsigned){return {};} }
