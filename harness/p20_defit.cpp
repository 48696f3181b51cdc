// P20/P21: the differential-evolution front end
#include "mo.h"
#include <vector>
#include "param_struct.h"
#include "solver_results.h"
#include "diff_evoln_fit.h"
#include "definitions.h"
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
static int np, mode, ncall; static double LO[3], HI[3], start[3]; static int fx[3];
struct SM : public ModelObject { double GetFitStatistic(double p[]) override { ncall++; for (int j = 0; j < np; j++) { if (fx[j]) CK(p[j] == start[j], "fixed parameter keeps its value"); else CK(p[j] >= LO[j] && p[j] <= HI[j], "evaluated inside the limits"); } double s = 1; for (int j = 0; j < np; j++) s += (p[j] - 0.4) * (p[j] - 0.4); return mode == 0 ? s : mode == 1 ? 2e20 : NAN; } };
extern "C" void p20_defit() { np = vx_pick("parameters", 1, 2); int f = vx_pick("fixed", -1, np - 1); mode = vx_pick("objective", 0, 2); std::vector<mp_par> p(np); double x[3]; int nf = 0; for (int j = 0; j < np; j++) { memset(&p[j], 0, sizeof(mp_par)); fx[j] = j == f; p[j].fixed = fx[j]; nf += !fx[j]; LO[j] = -0.25 - j; HI[j] = 0.75 + j; if (!fx[j]) { p[j].limited[0] = p[j].limited[1] = 1; p[j].limits[0] = LO[j]; p[j].limits[1] = HI[j]; } x[j] = start[j] = 0.5; } if (mode == 0) { vx_option("stepbudget", 1); }
  SolverResults r; SM* mo = new SM; mo->SetVerboseLevel(-1); ncall = 0; int st = DiffEvolnFit(np, x, p, mo, 1e-3, -1, &r, 7, false); (void)st; for (int j = 0; j < np; j++) { if (fx[j]) CK(x[j] == start[j], "fixed parameter returned unchanged"); else CK(x[j] >= LO[j] && x[j] <= HI[j], "returned inside the limits"); } if (nf && mode == 0) { double s = 1; for (int j = 0; j < np; j++) s += (x[j] - 0.4) * (x[j] - 0.4); CK(r.GetBestfitStatisticValue() == s, "reported statistic is that of the returned parameters"); CK(ncall > 0, "evaluated"); } vx_reach("defit"); delete mo; }
// no limits: refused, parameters untouched
extern "C" void p20_nolimits() { np = 2; mode = 0; std::vector<mp_par> p(2); memset(&p[0], 0, sizeof(mp_par)); memset(&p[1], 0, sizeof(mp_par)); int l = vx_pick("limits", 0, 2); p[0].limited[0] = l & 1; p[0].limited[1] = l >> 1; p[1].fixed = vx_pick("second fixed", 0, 1); double x[2] = {vx_real("x", -9, 9), vx_real("y", -9, 9)}, x0[2] = {x[0], x[1]}; SolverResults r; SM* mo = new SM; mo->SetVerboseLevel(-1); ncall = 0; int st = DiffEvolnFit(2, x, p, mo, 1e-3, -1, &r, 7, false); CK(st < 0, "refused"); CK(ncall == 0, "nothing evaluated"); for (int j = 0; j < 2; j++) vx_check(vx_same(x[j], x0[j]), "parameters untouched"); vx_reach("nolimits"); delete mo; }
