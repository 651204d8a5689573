#pragma once
#include <atomic>
namespace shim { extern int threads, perturb; extern std::atomic<unsigned long> regions, threadsRun, yields, points, outside; extern std::atomic<long> actAt; extern void (*act)(); void reseed(unsigned long); void point(); unsigned long orderHash(); void resetOrder(); }
