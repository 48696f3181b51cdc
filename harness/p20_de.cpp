// P20: differential evolution stays inside the limits. Random draws are arbitrary values of their interval.
#include "mo.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "DESolver.h"
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
static int draws, edge, evals, budget, nd; static double LO[4], HI[4], FIX[4];
struct DE : public DESolver { DE(int d, int p) : DESolver(d, p) {} double* pop() { return population; } double* best() { return bestSolution; } double* en() { return popEnergy; }
  double EnergyFunction(double t[], bool& at) { if (evals++ >= budget) vx_end(); for (int j = 0; j < nd; j++) { CK(t[j] >= LO[j], "trial above the lower limit"); CK(t[j] <= HI[j], "trial below the upper limit"); if (LO[j] == HI[j]) CK(t[j] == LO[j], "fixed parameter keeps its value"); } if (evals >= budget) vx_end(); return vx_real("energy", -1e30, 1e30); } };
// integer draws: 0,1,2.. in turn (shifted by a picked amount), one of them the very end of the interval; others: any value
extern "C" double __wrap__ZN8DESolver13RandomUniformEdd(DESolver*, double a, double b) { if (b > 1.5 && a == 0) { int n = (int)b, k = draws++; if (k == edge) { edge = -1; return b; } return k % n; } if (a == b) return a; return vx_real("draw", a, b); }
static void limits(int d) { nd = d; for (int j = 0; j < d; j++) { LO[j] = j == 0 ? -3.5 : 0.25; HI[j] = j == 0 ? 8.0 : 1.75; } int f = vx_pick("fixed", -1, d - 1); if (f >= 0) HI[f] = LO[f]; }
extern "C" void p20_trial() { vx_option("realarith", 1); vx_option("realbranch", 1); vx_option("fpatimeout", 200); vx_option("uftimeout", 200); int sym; int st = vx_pick("strategy", 0, 9), d = vx_pick("parameters", 1, 2), np = 6; limits(d); sym = d == 1 ? 0 : vx_pick("symbolic parameter", 0, 1); edge = vx_pick("draw at the end of its interval", -1, 5); draws = vx_pick("first draw", 0, edge == -1 && TIER > 1 ? 2 : 0); int own = edge == -1 ? vx_pick("own member", 0, 2) : 2; evals = 0; budget = 1; DE* s = new DE(d, np); double lo[4], hi[4]; for (int j = 0; j < d; j++) { lo[j] = LO[j]; hi[j] = HI[j]; }
  s->Setup(lo, hi, st, 0.7, edge != -1 || vx_pick("crossover", 0, 1) ? 1.0 : 0.5, 1e-8, 1); for (int i = 0; i < np; i++) { for (int j = 0; j < d; j++) { double v = s->pop()[i * d + j]; CK(v >= LO[j] && v <= HI[j], "initial population inside the limits"); s->pop()[i * d + j] = LO[j] == HI[j] ? LO[j] : i == 0 ? (own == 0 ? LO[j] : own == 1 ? HI[j] : 0.6 * LO[j] + 0.4 * HI[j]) : j == sym ? vx_real("member", LO[j], HI[j]) : LO[j] + (HI[j] - LO[j]) * i / 6; } s->en()[i] = vx_real("energy", -1e30, 1e30); } if ((edge != -1 || vx_pick("first generation", 0, 1) == 0)) for (int j = 0; j < d; j++) s->best()[j] = LO[j] == HI[j] ? LO[j] : j == sym ? vx_real("best", LO[j], HI[j]) : LO[j];
  vx_reach("trial"); int r = s->Solve(1, 0); (void)r; vx_end(); }
// the best solution is the trial of lowest energy and carries its energy
static double seenE[16], seenP[16]; static int nseen;
struct DE2 : public DE { DE2(int d, int p) : DE(d, p) {} double EnergyFunction(double t[], bool& at) { if (nseen >= 8) vx_end(); seenP[nseen] = t[0]; double e = seenE[nseen] = vx_real("energy", -1e30, 1e30); if (vx_pick("never lower", 0, 1) && nseen > 0) { e = seenE[nseen] = 2e20; } nseen++; return e; } };
extern "C" void p20_best() { vx_option("realarith", 1); vx_option("realbranch", 1); vx_option("fpatimeout", 200); vx_option("uftimeout", 200); int np = 3; nd = 1; LO[0] = -3.5; HI[0] = 8; edge = -1; draws = 0; nseen = 0; double lo = LO[0], hi = HI[0]; DE2* s = new DE2(1, np); s->Setup(&lo, &hi, 2, 0.7, 1.0, 1e-8, 1); int r = s->Solve(1, 0); CK(r != 0 && s->Generations() == 1 && s->Population() == 3, "one generation"); double out = -99, best = s->Energy(); s->StoreSolution(&out); double m = 1e20; int k = -1; for (int i = 0; i < nseen; i++) if (seenE[i] < m) { m = seenE[i]; k = i; } if (k >= 0) { vx_check_real(best, m, 0, "reported energy is the lowest one seen"); vx_check_real(out, seenP[k], 0, "reported solution is the one of lowest energy"); vx_reach("best"); } delete s; }
extern "C" void p20_memory() { DE* s = new DE(2, 3); double lo[2] = {0, 1}, hi[2] = {1, 1}; nd = 2; edge = -1; s->Setup(lo, hi, 2, 0.7, 1.0, 1e-8, 1); delete s; vx_reach("memory"); }
