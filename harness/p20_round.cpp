// P20, bit-precise: no rounding takes a sampled or re-inserted value across its limit
#include "vx.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <vector>
#include "DESolver.h"
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
static double LO, HI; static int evals;
struct DE : public DESolver { DE(int d, int p) : DESolver(d, p) {} double* pop() { return population; } double* best() { return bestSolution; } double uni(double a, double b) { return RandomUniform(a, b); }
  double EnergyFunction(double t[], bool& at) { CK(t[0] >= LO, "trial above the lower limit"); CK(t[0] <= HI, "trial below the upper limit"); vx_reach("reinsert"); vx_end(); return 0; } };
static int k; static double firsts[8]; static int nf;
extern "C" void __wrap__ZNSt13random_device7_M_initERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE(void*, const void*) {}
extern "C" unsigned __wrap__ZNSt13random_device9_M_getvalEv(void*) { return 12345; }
extern "C" void __wrap__ZNSt13random_device7_M_finiEv(void*) {}
extern "C" void __wrap__Z12init_genrandm(unsigned long) {}
extern "C" double __wrap__Z13genrand_real1v() { if (k < nf) return firsts[k++]; k++; return vx_real("draw", 0, 1); }
static double lims[6][2] = {{0.1, 0.7}, {-3.3, 1e-7}, {1e16, 3e16}, {-1e16, 0.3}, {0.3, 1e16}, {5, 5}};
extern "C" void p20_uniform() { nf = k = 0; int L = vx_pick("limits", 0, 5); double a = lims[L][0], b = lims[L][1]; DE* s = new DE(1, 3); double v = s->uni(a, b); CK(v >= a, "sample above the lower limit"); CK(v <= b, "sample below the upper limit"); delete s; vx_reach("uniform"); }
extern "C" void p20_init() { int L = vx_pick("limits", 0, 5), lhs = vx_pick("latin hypercube", 0, 1), np = vx_pick("members", 3, 6); nf = k = 0; LO = lims[L][0]; HI = lims[L][1]; double lo = LO, hi = HI; DE* s = new DE(1, np); s->Setup(&lo, &hi, 2, 0.7, 1.0, 1e-8, 1, lhs); for (int i = 0; i < np; i++) { CK(s->pop()[i] >= LO, "member above the lower limit"); CK(s->pop()[i] <= HI, "member below the upper limit"); } delete s; vx_reach("init"); }
// one trial re-inserted from outside, any draw; the members are the limits themselves or the middle
extern "C" void p20_reinsert() { int L = vx_pick("limits", 0, 5), m = vx_pick("members", 0, 8); nf = k = 0; LO = lims[L][0]; HI = lims[L][1]; double lo = LO, hi = HI; DE* s = new DE(1, 3); s->Setup(&lo, &hi, 2, 0.7, 1.0, 1e-8, 1, false); double c[3] = {LO, HI, 0.5 * LO + 0.5 * HI}; s->pop()[0] = c[m % 3]; s->pop()[1] = c[(m / 3) % 3]; s->pop()[2] = c[(m / 3 + 1) % 3]; s->best()[0] = c[(m + 1) % 3];
  k = 0; nf = 4; firsts[0] = 0.5; firsts[1] = 0.9; firsts[2] = 0.0; firsts[3] = 0.25; s->Solve(1, 0); vx_end(); }
