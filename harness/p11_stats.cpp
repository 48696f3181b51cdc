// P11: sample statistics helpers against their textbook definitions
#include "vx.h"
#include <cmath>
#include <cstdlib>
#include <tuple>
#include "statistics.h"
static const int MAXN = 8;
// ordered pair of sample values with the right ranks, whatever the order of the input
extern "C" void p11_interval() { int n = vx_pick("n", 1, TIER > 1 ? 5 : 4); double v[MAXN], o[MAXN]; for (int i = 0; i < n; i++) { v[i] = o[i] = vx_double("v"); vx_assume(std::isfinite(v[i])); }
  auto t = ConfidenceInterval(v, n); double lo = std::get<0>(t), hi = std::get<1>(t); vx_check(lo <= hi, "lower bound is not above the upper bound"); int below = 0, above = 0, eql = 0, equ = 0;
  for (int i = 0; i < n; i++) { if (o[i] < lo) below++; else if (o[i] == lo) eql++; if (o[i] > hi) above++; else if (o[i] == hi) equ++; } vx_check(eql > 0 && equ > 0, "both bounds are values of the sample");
  int k = (int)std::floor(0.1585 * n + 0.5) - 1; if (k < 0) k = 0; int u = n - 1 - (int)std::floor(0.8415 * n + 0.5); if (u < 0) u = 0;
  vx_check(below <= k && below + eql > k, "lower bound has the rank of a 68.3% interval"); vx_check(above <= u && above + equ > u, "upper bound has the rank of a 68.3% interval"); vx_reach("interval"); }
extern "C" void p11_moments() { vx_option("realarith", 1); int n = vx_pick("n", 1, TIER > 1 ? 6 : 4); double v[MAXN]; double s = 0; for (int i = 0; i < n; i++) { v[i] = vx_real("v", -1e4, 1e4); s += v[i]; } double o[MAXN]; for (int i = 0; i < n; i++) o[i] = v[i];
  double m = Mean(v, n); vx_check_real(m, s / n, 1e-12, "mean is the sum over the number of values"); if (n > 1) { double sd = StandardDeviation(v, n), q = 0; for (int i = 0; i < n; i++) q += (o[i] - s / n) * (o[i] - s / n); vx_check_real(sd * sd, q / (n - 1), 1e-9, "variance is the sum of squared deviations over n-1"); vx_check(sd >= 0, "standard deviation is not negative"); }
  for (int i = 0; i < n; i++) vx_check(v[i] == o[i], "the sample is left alone"); vx_reach("moments"); }
extern "C" void p11_criteria() { vx_option("realarith", 1); int k = vx_int("nParams", 0, 500); int extra = vx_int("extra", 2, 1000000); long n = (long)k + extra; double L = vx_real("logLikelihood", -1e9, 1e9); int chi = vx_int("chiSquareUsed", -1, 2); double m2 = chi ? L : -2 * L, kd = k, nd = n;
  double a = AIC_corrected(L, k, n, chi); double d = nd - kd - 1; vx_check_real((a - m2 - 2 * kd) * d, 2 * kd * (kd + 1), 1e-9, "corrected AIC is -2lnL + 2k + 2k(k+1)/(n-k-1)"); double b = BIC(L, k, n, chi); vx_check_real(b, m2 + kd * std::log(nd), 1e-9, "BIC is -2lnL + k ln n"); vx_reach("criteria"); }
