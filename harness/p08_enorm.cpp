// P08: mp_enorm is a robust Euclidean norm
#include "vx.h"
#include "mp_enorm.h"
#include <cmath>
extern "C" void p08_nan() {
  int n = vx_pick("n", 1, 3 + (TIER > 1)); int k = vx_pick("k", 0, n - 1);
  double* x = new double[n]; for (int i = 0; i < n; i++) x[i] = vx_double("x");
  vx_assume(x[k] != x[k]);
  double r = mp_enorm(n, x); vx_reach("done"); vx_observe_d("r", r);
  vx_check(r != r, "norm of a vector containing NaN is NaN"); delete[] x;
}
extern "C" void p08_range() {
  int n = vx_pick("n", 1, 2 + (TIER > 1));
  double* x = new double[n]; for (int i = 0; i < n; i++) { x[i] = vx_double("x"); vx_assume(std::fabs(x[i]) <= 1e300); }
  double mx = 0; for (int i = 0; i < n; i++) { double a = std::fabs(x[i]); mx = vx_ite(a > mx, a, mx); }
  double r = mp_enorm(n, x); vx_reach("done"); vx_observe_d("r", r);
  vx_check(r >= 0, "norm is non-negative");
  vx_check(r <= 1.7976931348623157e308, "norm is finite");
  vx_check(vx_or(mx == 0, r > 0), "norm of a non-zero vector is positive");
  vx_check(r >= 0.5 * mx, "norm is not far below the largest element");
  vx_check(r <= 4.0 * mx, "norm is not far above the largest element");
  delete[] x;
}
// in exact arithmetic the result squared is the sum of squares, whichever of the three accumulators is used
extern "C" void p08_exact() {
  int n = vx_pick("n", 0, 2 + (TIER > 1)); static const double lo[3] = {1e-30, 1e-15, 1e20}, hi[3] = {3e-20, 1e18, 1e40};
  double* x = new double[n]; double s = 0, big = 0, sm = 0; bool giant = false;
  for (int i = 0; i < n; i++) { int k = vx_pick("magnitude", 0, 3); double v = k == 3 ? 0.0 : vx_real("x", lo[k], hi[k]); x[i] = vx_pick("negative", 0, 1) ? -v : v; (k == 0 ? sm : s) += x[i] * x[i]; if (big == 0 || k == 2) big = v; giant = giant || k == 2; }
  if (!giant) s += sm;   // next to an element of 1e20 or more, elements below 3e-20 are far below one unit in the last place
  double r = mp_enorm(n, x); vx_reach("done"); vx_observe_d("r", r);
  if (big == 0) vx_check(r == 0, "norm of a zero vector is zero");
  else vx_check_real((r / big) * (r / big), s / big / big, 1e-9, "norm squared equals the sum of squares");
  delete[] x;
}
