#include "vx.h"
#include <cmath>
#include <cstdlib>
#include <tuple>
#include "statistics.h"
// the ranks for every sample size (sample already in order; sorting is decided above)
extern "C" void __wrap_qsort(void*, size_t, size_t, int (*)(const void*, const void*)) {}
extern "C" void p11_ranks() { static double v[1000]; for (int i = 0; i < 1000; i++) v[i] = i; int n = vx_pick("n", 1, TIER > 1 ? 999 : 300); 
  auto t = ConfidenceInterval(v, n); double lo = std::get<0>(t), up = n - 1 - std::get<1>(t), w = 0.1585 * n; vx_check(lo >= 0 && up >= 0 && lo <= n - 1 && up <= n - 1, "bounds lie in the sample");
  vx_check(lo == 0 ? w <= 1.5 + 1e-9 : std::fabs(lo + 1 - w) <= 0.5 + 1e-9, "15.85% of the sample lie below the interval"); vx_check(up == 0 ? w <= 1.5 + 1e-9 : std::fabs(up + 1 - w) <= 0.5 + 1e-9, "15.85% of the sample lie above the interval"); vx_reach("ranks"); }
