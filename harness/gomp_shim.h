#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <type_traits>
namespace shim
{
// mode 0: free running; 1: random delays; 2: one team member after the other in a random order
void configure (int threads, int mode, uint64_t seed);
uint64_t regions ();
uint64_t members ();
uint64_t works ();
uint64_t parallel_regions ();
extern thread_local bool internal; // the run time itself is at work
}
