// P02: PSF convolution equals the linear convolution of the model on an area extended by the PSF size
#include "mo.h"
#include "convolver.h"
static double* psfIn(int n, bool norm) { double* p = dalloc(n); for (int i = 0; i < n; i++) p[i] = norm ? vx_real("psf", 0.01, 10) : vx_real("psf", -10, 10); return p; }
static double* normed(const double* p, int n, bool norm) { double* q = dalloc(n); double s = 0; for (int i = 0; i < n; i++) s += p[i]; for (int i = 0; i < n; i++) q[i] = norm ? p[i] / s : p[i]; return q; }
static double conv(const double* im, int nc, int nr, const double* psf, int pc, int pr, int r, int c) { double s = 0;
  for (int i = 0; i < pr; i++) for (int j = 0; j < pc; j++) { int rr = r - (i - pr / 2), cc = c - (j - pc / 2); if (rr >= 0 && rr < nr && cc >= 0 && cc < nc) s += psf[i * pc + j] * im[rr * nc + cc]; } return s; }
// the convolver on its own
extern "C" void p02_convolver() { vx_option("realarith", 1);
  int M = TIER > 1 ? 4 : 3; int pc = vx_pick("psfcols", 1, M), pr = vx_pick("psfrows", 1, M), nc = vx_pick("columns", 1, M), nr = vx_pick("rows", 1, M); bool norm = vx_pick("normalise", 0, 1); int thr = vx_pick("threads", 0, 1);
  double* psf = psfIn(pc * pr, norm); double* q = normed(psf, pc * pr, norm); double *im = dalloc(nc * nr), *im0 = dalloc(nc * nr);
  { Convolver cv; cv.SetupPSF(psf, pc, pr, norm); cv.SetMaxThreads(thr); cv.SetupImage(nc, nr); int st = cv.DoFullSetup(0); vx_check(st == 0, "convolver setup succeeds");
    for (int rep = 0; rep < 2; rep++) { for (int i = 0; i < nc * nr; i++) im[i] = im0[i] = vx_real("pix", -100, 100); cv.ConvolveImage(im); vx_reach("convolved");
      for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) vx_check_real(im[r * nc + c], conv(im0, nc, nr, q, pc, pr, r, c), 1e-9, "convolved pixel equals the linear convolution"); } }
  free(psf); free(q); free(im); free(im0);
}
// the same through the model: component sum on the expanded area, then convolution, then the central part
static void model(int pc, int pr, int nc, int nr, bool norm, int nf) {
  double* psf = psfIn(pc * pr, norm); double* q = normed(psf, pc * pr, norm);
  { ModelObject m; m.SetVerboseLevel(-1); for (int f = 0; f < nf; f++) m.AddFunction(new StubFunc(f, 1));
    std::vector<int> start; start.push_back(0); m.DefineFunctionSets(start); m.PopulateParameterNames(); m.FinalModelSetup();
    int st = m.AddPSFVector((long)pc * pr, pc, pr, psf, norm); vx_check(st == 0, "PSF accepted"); st = m.SetupModelImage(nc, nr); vx_check(st == 0, "model image set up");
    double p[8]; for (int i = 0; i < 2 + nf; i++) p[i] = vx_real("p", -100, 100); double sv[4]; for (int f = 0; f < nf; f++) sv[f] = StubFunc::state(f, p + 2 + f, 1);
    int NC = nc + 2 * pc, NR = nr + 2 * pr; double* big = dalloc(NC * NR); for (int r = 0; r < NR; r++) for (int c = 0; c < NC; c++) { double s = 0; for (int f = 0; f < nf; f++) s += StubFunc::value(f, sv[f], p[0], p[1], c - pc + 1, r - pr + 1); big[r * NC + c] = s; }
    m.CreateModelImage(p); double* im = m.GetModelImageVector(); vx_check(im != nullptr, "image available"); vx_reach("model");
    for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) vx_check_real(im[r * nc + c], conv(big, NC, NR, q, pc, pr, r + pr, c + pc), 1e-9, "model pixel equals the convolution of the expanded model");
    double* s = m.GetSingleFunctionImage(p, nf - 1); for (int r = 0; r < NR; r++) for (int c = 0; c < NC; c++) big[r * NC + c] = StubFunc::value(nf - 1, sv[nf - 1], p[0], p[1], c - pc + 1, r - pr + 1);
    for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) vx_check_real(s[r * nc + c], conv(big, NC, NR, q, pc, pr, r + pr, c + pc), 1e-9, "single-component pixel equals the convolution");
    free(big); }
  free(psf); free(q);
}
extern "C" void p02_model() { vx_option("realarith", 1); int M = TIER > 1 ? 3 : 2; int pc = vx_pick("psfcols", 1, M + 1), pr = vx_pick("psfrows", 1, M), nc = vx_pick("columns", 1, M), nr = vx_pick("rows", 1, M); model(pc, pr, nc, nr, vx_pick("normalise", 0, 1), vx_pick("components", 1, 2)); }
// a PSF that cannot be used is refused
extern "C" void p02_refuse() { int pc = vx_pick("psfcols", 1, 2), pr = vx_pick("psfrows", 1, 2); int n = pc * pr; bool norm = vx_pick("normalise", 0, 1); double* psf = dalloc(n); double s = 0; int fin = 1; for (int i = 0; i < n; i++) { psf[i] = vx_double("psf"); fin = vx_and(fin, std::isfinite(psf[i])); s += psf[i]; }
  { ModelObject m; m.SetVerboseLevel(-1); int st = m.AddPSFVector(n, pc, pr, psf, norm); vx_check(vx_or(fin, st < 0), "non-finite PSF refused"); if (norm) vx_check(vx_or(s > 0, st < 0), "PSF without positive sum refused"); vx_check(vx_or(!fin, vx_or(vx_and(norm, !(s > 0)), st == 0)), "usable PSF accepted"); vx_reach("answered"); }
  free(psf); }
