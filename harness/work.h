// Deterministic measure of the work a program does: control-flow edges of the instrumented code (compile everything with
// -fsanitize-coverage=trace-pc -rdynamic), bytes moved, set or compared by the C library, allocations,
// and the peak of the live heap. Single-threaded programs only.
#pragma once
#include <cstddef>
#include <cstdint>
namespace work
{
struct counts { uint64_t edges, bytes, allocs, live, peak; };
extern counts now;
inline uint64_t total (const counts &c) { return c.edges + c.bytes / 16 + c.allocs * 16; }
}
