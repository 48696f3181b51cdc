// P20/P21: what the fitting front ends hand to the optimisers and report back. The optimisers of the NLopt library are stand-ins which record their settings.
#include "mo.h"
#include <nlopt.h>
#include <string>
#include <vector>
#include "param_struct.h"
#include "mpfit.h"
#include "solver_results.h"
#include "dispatch_solver.h"
#include "definitions.h"
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
static const int NP = 3; static int np, ncall, status, useMin; static double LB[NP], UB[NP], start[NP], FTOL; static nlopt_func OBJ; static void* DATA; static int ALG; static double value[16]; static double VEC[16][NP];
static double stat(double* p) { return vx_uf("statistic", p[0], np > 1 ? p[1] : 0, np > 2 ? p[2] : 0, 0); }
struct SM : public ModelObject { double GetFitStatistic(double p[]) override { ncall++; return stat(p); } };
extern "C" { struct nlopt_opt_s { int n; }; static nlopt_opt_s theOpt;
nlopt_opt nlopt_create(nlopt_algorithm a, unsigned n) { ALG = a; theOpt.n = n; CK((int)n == np, "dimension"); return &theOpt; } void nlopt_destroy(nlopt_opt) {} const char* nlopt_algorithm_name(nlopt_algorithm) { return "x"; } nlopt_result nlopt_force_stop(nlopt_opt) { return NLOPT_SUCCESS; }
nlopt_result nlopt_set_ftol_rel(nlopt_opt, double t) { FTOL = t; return NLOPT_SUCCESS; } nlopt_result nlopt_set_ftol_abs(nlopt_opt, double) { return NLOPT_SUCCESS; } nlopt_result nlopt_set_xtol_rel(nlopt_opt, double) { return NLOPT_SUCCESS; } nlopt_result nlopt_set_maxeval(nlopt_opt, int) { return NLOPT_SUCCESS; }
nlopt_result nlopt_set_min_objective(nlopt_opt, nlopt_func f, void* d) { OBJ = f; DATA = d; useMin = 1; return NLOPT_SUCCESS; } nlopt_result nlopt_set_lower_bounds(nlopt_opt, const double* b) { for (int i = 0; i < np; i++) LB[i] = b[i]; return NLOPT_SUCCESS; } nlopt_result nlopt_set_upper_bounds(nlopt_opt, const double* b) { for (int i = 0; i < np; i++) UB[i] = b[i]; return NLOPT_SUCCESS; }
nlopt_result nlopt_optimize(nlopt_opt, double* x, double* f) { CK(useMin && OBJ, "objective set"); for (int j = 0; j < np; j++) vx_check(vx_same(x[j], start[j]), "optimiser starts from the user's values"); int n = vx_pick("evaluations", 1, 2); double best = 0, bx[NP]; for (int k = 0; k < n; k++) { double y[NP]; for (int j = 0; j < np; j++) y[j] = vx_real("trial", -100, 100); double v = OBJ(np, y, nullptr, DATA); vx_check(vx_same(v, stat(y)), "objective is the fit statistic"); best = v; for (int j = 0; j < np; j++) bx[j] = y[j]; } for (int j = 0; j < np; j++) x[j] = bx[j]; *f = best; return (nlopt_result)status; } }
static std::string algs[6] = {"COBYLA", "BOBYQA", "NEWUOA", "PRAXIS", "NM", "SBPLX"}; static int codes[6] = {NLOPT_LN_COBYLA, NLOPT_LN_BOBYQA, NLOPT_LN_NEWUOA_BOUND, NLOPT_LN_PRAXIS, NLOPT_LN_NELDERMEAD, NLOPT_LN_SBPLX};
static std::vector<mp_par> spec(int& lim, int& f) { np = vx_pick("parameters", 1, 3); lim = vx_pick("limits", 0, 3); f = vx_pick("fixed", -1, np - 1); std::vector<mp_par> p(np); for (int j = 0; j < np; j++) { memset(&p[j], 0, sizeof(mp_par)); p[j].fixed = j == f; int l = j == 0 ? lim : 3; p[j].limited[0] = l & 1; p[j].limited[1] = l >> 1; p[j].limits[0] = l & 1 ? vx_real("low", -50, 0) : 0; p[j].limits[1] = l & 2 ? vx_real("high", 1, 50) : 0; } return p; }
extern "C" void p20_nlopt() { int lim, f; std::vector<mp_par> p = spec(lim, f); int which = vx_pick("solver", 0, 7); double x[NP]; for (int j = 0; j < np; j++) x[j] = start[j] = vx_real("start", 0, 1); status = vx_pick("status", 0, 1) ? 5 : 3; SM* mo = new SM; mo->SetVerboseLevel(-1); std::string name = which < 6 ? algs[which] : "NM"; double init = stat(x);
  for (int round = 0; round < 2; round++) { SolverResults r; ncall = 0; int st; for (int j = 0; j < np; j++) start[j] = x[j]; init = stat(x); st = DispatchToSolver(which == 6 ? NMSIMPLEX_SOLVER : GENERIC_NLOPT_SOLVER, np, np - (f >= 0), 10, x, p, mo, 1e-5, true, -1, &r, which == 7 ? name = "NM" : name, 0, false);
    CK(st == status, "the optimiser's status"); if (which < 6) CK(ALG == codes[which], "the algorithm asked for"); if (which == 6) CK(ALG == NLOPT_LN_NELDERMEAD, "Nelder-Mead"); CK(FTOL == 1e-5, "the tolerance asked for");
    for (int j = 0; j < np; j++) { if (j == f) { vx_check(vx_same(LB[j], start[j]) && vx_same(UB[j], start[j]), "a fixed parameter's limits are its value"); } else { if (p[j].limited[0]) vx_check(vx_same(LB[j], p[j].limits[0]), "lower limit handed over"); else CK(LB[j] == -HUGE_VAL, "no lower limit"); if (p[j].limited[1]) vx_check(vx_same(UB[j], p[j].limits[1]), "upper limit handed over"); else CK(UB[j] == HUGE_VAL, "no upper limit"); } }
    vx_check(vx_same(r.GetBestfitStatisticValue(), stat(x)), "reported statistic is that of the returned parameters"); vx_check(vx_same(r.GetInitialStatisticValue(), init), "initial statistic"); CK(r.GetNFunctionEvals() == ncall - 1, "number of evaluations of this fit"); CK(!r.ErrorsPresent(), "no errors from this solver"); } vx_reach("nlopt"); delete mo; }
// Levenberg-Marquardt front end: the solver itself is a stand-in which records what it was given
static mp_par GOT[NP]; static int given, gotFtol;
extern "C" int __wrap__Z5mpfitPFiiiPdS_PS_P11ModelObjectEiiS_P13mp_par_structP16mp_config_structS2_P16mp_result_struct(mp_func f, int m, int n, double* x, mp_par* pars, mp_config* c, ModelObject*, mp_result* r) { CK(n == np && m == 10, "sizes"); given = pars != nullptr; if (pars) for (int j = 0; j < n; j++) GOT[j] = pars[j]; gotFtol = c->ftol == 1e-5; for (int j = 0; j < n; j++) { vx_check(vx_same(x[j], start[j]), "solver starts from the user's values"); x[j] = vx_real("solution", -50, 50); } r->bestnorm = vx_real("best", 0, 1e6); r->orignorm = vx_real("original", 0, 1e6); r->nfev = vx_int("evaluations", 1, 1000); r->npar = n; r->status = status; for (int j = 0; j < n; j++) r->xerror[j] = VEC[0][j] = vx_real("error", 0, 100); value[0] = r->bestnorm; value[1] = r->orignorm; ncall = r->nfev; return status; }
extern "C" void p20_levmar() { int lim, f; std::vector<mp_par> p = spec(lim, f); double x[NP]; for (int j = 0; j < np; j++) x[j] = start[j] = vx_real("start", 0, 1); status = vx_int("status", -24, 8); SM* mo = new SM; mo->SetVerboseLevel(-1); SolverResults r; std::string none; bool any = f >= 0 || np > 1 || lim; int st = DispatchToSolver(MPFIT_SOLVER, np, np, 10, x, p, mo, 1e-5, any, -1, &r, none, 0, false); vx_check(st == status, "the solver's status"); CK(gotFtol, "the tolerance asked for"); CK(!any || given, "constraints handed over");
  if (given) for (int j = 0; j < np; j++) { CK(GOT[j].fixed == p[j].fixed && GOT[j].limited[0] == p[j].limited[0] && GOT[j].limited[1] == p[j].limited[1], "constraint flags handed over"); for (int s = 0; s < 2; s++) if (p[j].limited[s]) vx_check(vx_same(GOT[j].limits[s], p[j].limits[s]), "limit handed over"); }
  vx_check(vx_same(r.GetBestfitStatisticValue(), value[0]), "best statistic"); vx_check(vx_same(r.GetInitialStatisticValue(), value[1]), "initial statistic"); vx_check(r.GetNFunctionEvals() == ncall, "number of evaluations"); CK(r.ErrorsPresent(), "errors present"); double e[NP]; r.GetErrors(e); for (int j = 0; j < np; j++) vx_check(vx_same(e[j], VEC[0][j]), "errors copied"); CK(r.GetSolverType() == MPFIT_SOLVER, "solver type"); vx_reach("levmar"); delete mo; }
