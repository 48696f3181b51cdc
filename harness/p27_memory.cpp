// P27: the memory estimate is positive, monotonic, free of overflow and at least the size of the arrays a fit allocates
#include "mo.h"
#include <tuple>
#include <string.h>
#include "psf_oversampling_info.h"
#include "estimate_memory.h"
#include "mpfit.h"
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
static const int PS[5] = {0, 1, 2, 51, 1025}, ROWS[5] = {1, 2, 501, 4096, 100000};
// the arrays of a fit, in bytes
static long conv(long c, long r, long pc, long pr) { long C = c + pc - 1, R = r + pr - 1; return 3 * 8 * C * R + 3 * 16 * (C / 2 + 1) * R; }
static long arrays(long nc, long nr, long pc, long pr, long npar, bool lm, bool cash, bool res, bool mod) { long n = nc * nr, m = n, b = 8 * n; if (pc > 0) { m = (nc + 2 * pc) * (nr + 2 * pr); b += conv(nc + 2 * pc, nr + 2 * pr, pc, pr) + 2 * 8 * pc * pr; } b += 8 * m + 2 * 8 * n; if (cash) b += 8 * n; if (lm) b += (2 + npar) * 8 * n; if (!cash || lm) b += 8 * n; if (res) b += 8 * n; if (mod && pc > 0) b += 8 * n; return b; }
// known shortfalls (known_findings.json P27-*): an oversampled PSF image is counted as one byte per pixel; the deviates of chi^2 fits by other solvers are not counted
static long recorded(long n, long pc, long pr, bool lm, bool cash) { return lm || cash ? 0 : 8 * n; }
extern "C" void p27_psf() { int pc = vx_int("PSF columns", 1, 60); double* px = dalloc(1); std::vector<PsfOversamplingInfo*> v; v.push_back(new PsfOversamplingInfo(px, pc, 3, 2, "11:20,31:50", 0, 0, false, true)); long C = 2 * 10 + 2L * pc, R = 2 * 20 + 2 * 3; long e = EstimatePsfOversamplingMemoryUse(v); vx_check(e >= 8 * C * R + conv(C, R, pc, 3) + 8L * pc * 3, "estimate covers the oversampled PSF image"); delete v[0]; free(px); }
extern "C" void p27_other() { int nc = vx_int("columns", 1, 600); int out = vx_pick("outputs", 0, 3); long e = EstimateMemoryUse(nc, 7, 0, 0, 3, false, false, out & 1, out & 2); vx_check(e >= arrays(nc, 7, 0, 0, 3, false, false, out & 1, out & 2), "estimate covers the deviates of chi^2 fits by other solvers"); }
extern "C" void p27_main() { int a = vx_pick("sizes", 0, 3 * 7 - 1), q = a / 3; int nr = ROWS[2 * (a % 3)], pc = q ? PS[1 + (q - 1) / 2 + ((q - 1) / 2 > 0)] : 0, pr = q == 0 ? 0 : q & 1 ? pc : 3; int opt = vx_pick("options", 0, 15); int npar = (opt & 1) ? 1 + 6 * vx_pick("parameters", 0, 1) : 4; int nc = vx_int("columns", 1, TIER > 1 ? 20000 : 600);
  bool lm = opt & 1, cash = opt & 2, res = opt & 4, mod = opt & 8; long e = EstimateMemoryUse(nc, nr, pc, pr, npar, lm, cash, res, mod); vx_check(e > 0, "positive"); long need = arrays(nc, nr, pc, pr, npar, lm, cash, res, mod); vx_check(e >= need - recorded((long)nc * nr, pc, pr, lm, cash), "at least the arrays of the fit, apart from the recorded shortfalls"); vx_check(e <= 10 * need, "of the order of the arrays of the fit");
  int k = TIER > 1 ? vx_pick("grown", 0, 6) : (a * 5 + opt) % 7; long g = k == 0 ? EstimateMemoryUse(nc + 1, nr, pc, pr, npar, lm, cash, res, mod) : k == 1 ? EstimateMemoryUse(nc, nr + 1, pc, pr, npar, lm, cash, res, mod) : k == 2 ? EstimateMemoryUse(nc, nr, pc + 1, pr ? pr : 1, npar, lm, cash, res, mod) : k == 3 ? EstimateMemoryUse(nc, nr, pc ? pc : 1, pr + 1, npar, lm, cash, res, mod) : k == 4 ? EstimateMemoryUse(nc, nr, pc, pr, npar + 1, lm, cash, res, mod) : k == 5 ? EstimateMemoryUse(nc, nr, pc, pr, npar, true, cash, res, mod) : EstimateMemoryUse(nc, nr, pc, pr, npar, lm, cash, true, true); vx_check(g >= e, "never decreases"); vx_reach("main"); }
// oversampled regions: each at least as large as its own arrays
extern "C" void p27_region() { static const int SC[5] = {1, 2, 3, 10, 31}; static const int XE[3] = {2, 100, 3000}; int a = vx_pick("sizes", 0, 44); int s = SC[a % 5], w = XE[a / 5 % 3], h = XE[a / 15]; int pr = PS[1 + (TIER > 1 ? vx_pick("PSF rows", 0, 2) : a % 3)], n = 2; int pc = vx_int("PSF columns", 1, TIER > 1 ? 2000 : 100); long need = 0; std::vector<PsfOversamplingInfo*> v; double* px = dalloc(1); long prev = 0;
  for (int k = 0; k <= n; k++) { long e = EstimatePsfOversamplingMemoryUse(v); vx_check(e >= need, "at least the arrays of the regions"); if (k == 0) CK(e == 0, "nothing without regions"); else vx_check(e > prev, "positive and growing with every region"); vx_check(e <= 10 * need, "of the order of the arrays of the regions"); prev = e; if (k == n) break; int x2 = k ? 2 * w : w, y2 = k ? h + 5 : h; char b[40]; snprintf(b, 40, "11:%d,301:%d", x2 + 10, y2 + 300); PsfOversamplingInfo* o = new PsfOversamplingInfo(px, pc, pr, s, b, k ? 10 : 0, k ? 5 : 0, false, true); v.push_back(o); long C = (long)s * x2 + 2L * pc, R = (long)s * y2 + 2L * pr; need += 8 * C * R + conv(C, R, pc, pr); }
  vx_reach("region"); for (auto o : v) delete o; free(px); }
// what is really allocated: every array of doubles the model, its convolvers and the Levenberg-Marquardt solver ask for
static long total, least; static bool counting;
extern "C" { void* rec_fftw(size_t n) { if (counting) total += (long)n; return malloc(n); } void* rec_calloc(size_t n, size_t s) { if (counting && s == 8) total += (long)(n * s); return calloc(n, s); } void* rec_malloc(size_t n) { if (counting && (long)n >= least) total += (long)n; return malloc(n); } }
static int fun(int m, int n, double* p, double* dev, double** dvec, ModelObject* mo) { mo->ComputeDeviates(dev, p); for (int i = 0; i < m; i++) dev[i] = 1 + i; return 0; }
extern "C" void p27_alloc() { int a = vx_pick("shape", 0, 17); int nc = 2 + a % 3, nr = 4 - a / 3 % 2, pk = a / 6; int pc = pk == 0 ? 0 : pk == 1 ? 1 : 3, pr = pk == 0 ? 0 : pk == 1 ? 2 : 1; int stat = vx_pick("statistic", 0, 3), lm = vx_pick("solver", 0, 1), out = vx_pick("outputs", 0, 3), reg = vx_pick("region", 0, 1); if (lm && stat == 2) vx_end(); int n = nc * nr;
  double *d = dalloc(n), *er = dalloc(n), *mk = dalloc(n), *k = dalloc(pc * pr), *k2 = dalloc(2); for (int i = 0; i < n; i++) { d[i] = 3 + i; er[i] = 1; mk[i] = 0; } for (int i = 0; i < pc * pr; i++) k[i] = i + 1; k2[0] = 1; k2[1] = 2; total = 0; least = 8 * n; counting = true; long est = 0; bool cash = stat >= 2;
  { ModelObject m; m.SetVerboseLevel(-1); StubFunc::LO() = 1; StubFunc::HI() = 5; m.AddFunction(new StubFunc(0, 1)); std::vector<int> st; st.push_back(0); m.DefineFunctionSets(st); if (pc) { total += 8L * pc * pr; m.AddPSFVector(pc * pr, pc, pr, k, true); } total += 8L * n; m.AddImageDataVector(d, nc, nr); m.AddImageCharacteristics(1, 0, 1, 1, 0); PsfOversamplingInfo* o = nullptr; std::vector<PsfOversamplingInfo*> ov; if (reg) { total += 16; o = new PsfOversamplingInfo(k2, 2, 1, 2, "1:2,1:3", 0, 0, false, true); ov.push_back(o); m.AddOversampledPsfInfo(o); }
    if (stat == 0) { total += 8L * n; m.AddErrorVector(n, nc, nr, er, WEIGHTS_ARE_SIGMAS); } if (stat == 2) m.UseCashStatistic(); if (stat == 3) m.UsePoissonMLR(); total += 8L * n; m.AddMaskVector(n, nc, nr, mk, MASK_ZERO_IS_GOOD); m.FinalSetupForFitting(); double p[3] = {1, 1, 2};
    if (lm) { mp_config c; memset(&c, 0, sizeof c); c.maxiter = 1; mp_result r; memset(&r, 0, sizeof r); mp_par pars[3]; memset(pars, 0, sizeof pars); pars[0].fixed = 1; mpfit(fun, n, 3, p, pars, &c, &m, &r); } m.GetFitStatistic(p); if (out & 1) m.GetModelImageVector(); if (out & 2) m.GetResidualImageVector();
    est = EstimateMemoryUse(nc, nr, pc, pr, 2, lm, cash, out & 2, out & 1); if (reg) est += EstimatePsfOversamplingMemoryUse(ov); counting = false; delete o; }
  CK(total > 0, "arrays recorded"); CK(est >= total - recorded(n, pc, pr, lm, cash) - (reg ? 30 : 0), "estimate covers what is allocated, apart from the recorded shortfalls"); vx_reach("alloc"); free(d); free(er); free(mk); free(k); free(k2); }
