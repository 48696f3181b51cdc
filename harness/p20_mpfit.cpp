// P20/P21: Levenberg-Marquardt. The linear algebra (QR factorisation, step, covariance) and the norm may return anything; limits, fixed parameters and bookkeeping are the real code.
#include "vx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include "param_struct.h"
#include "mpfit.h"
void PrintParametersSimple(ModelObject*, double*) {}
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
static const int NP = 3, M = 5; static int np, nfree, trialNext, ncall, trials, maxTrials, pivot, slope; static double start[NP], LO[NP], HI[NP], X[64][NP], NORM[64]; static int lim[NP], fx[NP], lab[64], isTrial[64], freeIx[NP];
static double norms[5] = {2.0, 1.9999999999, 0.5, 2.5, 300.0}, scaled;
static int fun(int m, int n, double* x, double* f, double** d, ModelObject*) { if (ncall >= 60) vx_end(); int k = ncall++; CK(m == M && n == np, "sizes"); for (int j = 0; j < n; j++) { X[k][j] = x[j]; if (fx[j]) CK(x[j] == start[j], "fixed parameter keeps its value in every evaluation"); } isTrial[k] = trialNext || k == 0; if (isTrial[k]) for (int j = 0; j < n; j++) if (!fx[j]) { if (lim[j] & 1) CK(x[j] >= LO[j], "trial above the lower limit"); if (lim[j] & 2) CK(x[j] <= HI[j], "trial below the upper limit"); }
  NORM[k] = -1; lab[k] = k; if (isTrial[k]) for (int q = 0; q < k; q++) if (isTrial[q] && lab[k] == k) { int same = 1; for (int j = 0; j < n; j++) if (same && !vx_same(X[q][j], x[j])) same = 0; if (same) lab[k] = lab[q]; } for (int i = 0; i < m; i++) f[i] = isTrial[k] ? lab[k] + 1 : (double)(ncall > 1 ? 3 + slope : 3); trialNext = 0; return 0; }
extern "C" double __wrap__Z8mp_enormiPKd(int n, const double* x) { if (n == M) { int k = (int)x[0] - 1; if (k < 0 || k >= 60) return 1; if (NORM[k] < 0) NORM[k] = norms[vx_pick("norm", 0, 4)]; return NORM[k]; } return scaled; }
extern "C" void __wrap__Z8mp_qrfaciiPdiiPiiS_S_S_(int m, int n, double* a, int lda, int, int* ipvt, int lipvt, double* rdiag, double* acnorm, double* wa) { CK(m == M && n == nfree && lda == M && lipvt == n, "sizes"); for (int j = 0; j < n; j++) { ipvt[j] = pivot ? n - 1 - j : j; rdiag[j] = -2 - j; acnorm[j] = 1 + j; wa[j] = 0; } }
// the first parameter's step is any value of one of five ranges, the others' one of four values
static double step(int j) { static double lo[5] = {-1e3, -0.4, 0, 1e-3, 1.1}, hi[5] = {-1.1, -1e-3, 0, 0.4, 1e3}, other[4] = {-100, 0, 0.3, 100}; if (j == 0) { int c = vx_pick("step range", 0, 4); return c == 2 ? 0.0 : vx_real("step", lo[c], hi[c]); } return other[vx_pick("other step", 0, 3)]; }
extern "C" void __wrap__Z8mp_lmpariPdiPiS0_S_S_dS_S_S_S_S_(int n, double* r, int ldr, int* ipvt, int* ifree, double* diag, double* qtb, double delta, double* par, double* x, double* sdiag, double* wa1, double* wa2) { if (trials++ >= maxTrials) vx_end(); CK(n == nfree && ldr == M, "sizes"); for (int j = 0; j < n; j++) { CK(ifree[j] == freeIx[j], "list of free parameters"); x[j] = step(j); sdiag[j] = wa1[j] = wa2[j] = 0; } *par = (TIER > 1 ? vx_pick("damped", 0, 1) : pivot) ? 0.25 : 0.0; trialNext = 1; }
extern "C" int __wrap__Z8mp_covariPdiPidS_(int n, double* r, int ldr, int*, double, double*) { for (int j = 0; j < n; j++) r[j * ldr + j] = (j + 2) * (j + 2); return 0; }
extern "C" void p20_mpfit() { vx_option("realarith", 1); vx_option("realbranch", 1); vx_option("fpatimeout", 30); vx_option("uftimeout", 30); int cfg = vx_pick("configuration", 0, 47), first = cfg & 3, second = (cfg >> 2) & 3; np = TIER > 1 ? vx_pick("parameters", 1, 3) : 2; if (TIER == 1 && (second == 1 || second == 2)) vx_end(); mp_par pars[NP]; memset(pars, 0, sizeof pars); double x[NP]; nfree = 0; int where = cfg >> 4; maxTrials = TIER > 1 ? 2 : 1; int var = vx_pick("variant", 0, TIER > 1 ? 7 : 1); pivot = TIER > 1 ? var >> 2 : var; slope = var & 1 ? 1 : -1; scaled = (TIER > 1 ? (var >> 1) & 1 : var) ? 0.7 : 40.0;
  int f = vx_pick("fixed", -1, np - 1); static double lo[NP] = {-2.5, 0.0, 4.0}, hi[NP] = {-1.5, 10.0, 4.5};
  for (int j = 0; j < np; j++) { lim[j] = j == 0 ? first : j == 1 ? second : 3; fx[j] = j == f; LO[j] = lo[j]; HI[j] = hi[j]; int w = j == 0 ? where : 2; x[j] = start[j] = w == 0 ? LO[j] : w == 1 ? HI[j] : 0.5 * (LO[j] + HI[j]); pars[j].fixed = fx[j]; pars[j].limited[0] = lim[j] & 1; pars[j].limited[1] = (lim[j] >> 1) & 1; if (lim[j] & 1) pars[j].limits[0] = LO[j]; if (lim[j] & 2) pars[j].limits[1] = HI[j]; if (!fx[j]) freeIx[nfree++] = j; }
  bool any = first || second || f >= 0 || np > 2; mp_config c; memset(&c, 0, sizeof c); c.maxiter = maxTrials; c.ftol = 1e-8; mp_result r; memset(&r, 0, sizeof r); double err[NP] = {-1, -1, -1}; r.xerror = err; ncall = trials = trialNext = 0;
  int info = mpfit(fun, M, np, x, any ? pars : nullptr, &c, nullptr, &r); if (nfree == 0) { CK(info == MP_ERR_NFREE, "no free parameters"); vx_end(); } CK(info > 0, "terminates normally"); vx_reach("mpfit");
  for (int j = 0; j < np; j++) { if (fx[j]) { CK(x[j] == start[j], "fixed parameter returned unchanged"); CK(err[j] == 0, "no error for a fixed parameter"); } else { if (lim[j] & 1) CK(x[j] >= LO[j], "returned above the lower limit"); if (lim[j] & 2) CK(x[j] <= HI[j], "returned below the upper limit"); } } for (int j = 0; j < nfree; j++) CK(err[freeIx[j]] == j + 2, "error stored with its own parameter");
  CK(r.npar == np && r.nfree == nfree && r.nfunc == M, "sizes reported"); CK(r.nfev == ncall, "number of evaluations reported"); CK(r.status == info, "status reported");
  // some evaluated point is the returned one, and its statistic is the reported one; it is no worse than the start
  int found = -1; for (int k = 0; k < ncall && found < 0; k++) if (isTrial[k] && NORM[lab[k]] >= 0) { int same = 1; for (int j = 0; j < np; j++) if (same && !vx_same(X[k][j], x[j])) same = 0; if (same) found = lab[k]; } CK(found >= 0, "returned point was evaluated"); if (found >= 0) CK(r.bestnorm == NORM[found] * NORM[found], "reported statistic is that of the returned point"); CK(r.bestnorm <= NORM[0] * NORM[0], "no worse than the starting point"); vx_check_real(r.orignorm, NORM[0] * NORM[0], 1e-12, "initial statistic"); }
// rejected inputs leave the parameters alone
extern "C" void p20_reject() { mp_par pars[NP]; memset(pars, 0, sizeof pars); np = 2; int kind = vx_pick("kind", 0, 4); double x[NP] = {vx_real("x", -10, 10), vx_real("y", -10, 10)}, x0[NP] = {x[0], x[1]}; for (int j = 0; j < 2; j++) { fx[j] = 0; lim[j] = 0; start[j] = x[j]; } for (int j = 0; j < 2; j++) { pars[j].limited[0] = pars[j].limited[1] = 1; pars[j].limits[0] = -20; pars[j].limits[1] = 20; } mp_config c; memset(&c, 0, sizeof c); mp_result r; memset(&r, 0, sizeof r); int want, m = M; ncall = trials = 0; maxTrials = 0;
  if (kind == 0) { pars[1].limits[0] = vx_real("low", 0, 5); pars[1].limits[1] = vx_real("high", -5, 0); want = MP_ERR_BOUNDS; } else if (kind == 1) { pars[0].limits[0] = 11; want = MP_ERR_INITBOUNDS; } else if (kind == 2) { pars[1].limits[1] = -11; want = MP_ERR_INITBOUNDS; } else if (kind == 3) { pars[0].fixed = pars[1].fixed = 1; want = MP_ERR_NFREE; } else { m = 1; want = MP_ERR_DOF; }
  int info = mpfit(fun, m, 2, x, pars, &c, nullptr, &r); CK(info == want, "status of a rejected set-up"); for (int j = 0; j < 2; j++) vx_check(vx_same(x[j], x0[j]), "parameters untouched"); CK(ncall == 0, "nothing evaluated"); vx_reach("reject"); }
