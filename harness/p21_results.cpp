// P21: what is stored in a results object is what comes back, each error at its own index
#include "vx.h"
#include <string>
#include <string.h>
#include "definitions.h"
#include "mpfit.h"
#include "solver_results.h"
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
extern "C" void p21_results() {
  SolverResults r; CK(!r.ErrorsPresent(), "no errors before any were stored"); int n = 0; double e[4], want[4], init = 0, best = 0; int nf = 0;
  for (int round = 0; round < 2; round++) { n = vx_pick("parameters", 1, 4); for (int i = 0; i < n; i++) e[i] = want[i] = vx_real("error", -1e300, 1e300); init = vx_real("initial", -1e300, 1e300); best = vx_real("best", -1e300, 1e300); nf = vx_int("evaluations", 0, 2147483647); int how = vx_pick("how", 0, 2);
    if (how == 0) { r.StoreErrors(e, n); r.StoreInitialStatisticValue(init); r.StoreBestfitStatisticValue(best); r.StoreNFunctionEvals(nf); }
    else { mp_result m; memset(&m, 0, sizeof m); m.npar = n; m.bestnorm = best; m.orignorm = init; m.nfev = nf; m.niter = 3; m.nfree = n; m.status = 1; m.npegged = 0; m.nfunc = 17; m.xerror = e; r.AddMPResults(m); mp_result* g = r.GetMPResults(); CK(g->niter == 3 && g->nfree == n && g->npar == n && g->status == 1 && g->nfunc == 17 && g->npegged == 0, "solver's own results"); vx_check(vx_same(g->bestnorm, best) && vx_same(g->orignorm, init) && g->nfev == nf, "solver's own statistics"); m.xerror = nullptr; if (how == 2) { double none[4]; r.GetErrors(none); r.StoreErrors(none, n); } }
    for (int i = 0; i < 4; i++) e[i] = 0; double out[5]; out[n] = -5; CK(r.ErrorsPresent(), "errors present"); r.GetErrors(out); for (int i = 0; i < n; i++) vx_check(vx_same(out[i], want[i]), "each error at its own index"); CK(out[n] == -5, "nothing past the last parameter"); vx_check(vx_same(r.GetInitialStatisticValue(), init) && vx_same(r.GetBestfitStatisticValue(), best) && r.GetNFunctionEvals() == nf, "stored statistics and count"); }
  r.SetSolverType(NMSIMPLEX_SOLVER); CK(r.GetSolverType() == NMSIMPLEX_SOLVER, "solver type"); std::string nm = "xyz"; r.SetSolverName(nm); CK(r.GetSolverName() == "xyz", "solver name"); r.SetFitStatisticType(FITSTAT_CASH); CK(r.GetFitStatisticType() == FITSTAT_CASH, "kind of statistic"); vx_reach("results"); }
