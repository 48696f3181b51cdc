// P01: the model image is the sum of its components
#include "mo.h"
static int buildSets(int nf, std::vector<int>& start) { int sets = 1; start.push_back(0); for (int f = 1; f < nf; f++) if (vx_pick("newset", 0, 1)) { start.push_back(f); sets++; } return sets; }
static void body(int nf, int maxnp, int nc, int nr, bool single) {
  ModelObject m; m.SetVerboseLevel(-1); std::vector<int> np, start; std::vector<StubFunc*> fs;
  for (int f = 0; f < nf; f++) { np.push_back(vx_pick("nparams", 0, maxnp)); fs.push_back(new StubFunc(f, np[f])); m.AddFunction(fs[f]); }
  int sets = buildSets(nf, start); m.DefineFunctionSets(start); m.PopulateParameterNames(); m.FinalModelSetup(); m.SetupModelImage(nc, nr);
  int n = m.GetNParams(); int want = 2 * sets; for (int f = 0; f < nf; f++) want += np[f]; vx_check(n == want, "parameter count");
  double* p = new double[n]; double* q = new double[n]; for (int i = 0; i < n; i++) q[i] = p[i] = vx_real("p", -1e4, 1e4);
  double *x0 = new double[nf], *y0 = new double[nf], *st = new double[nf]; int off = 0; size_t s = 0;
  for (int f = 0; f < nf; f++) { if (s < start.size() && start[s] == f) { s++; x0[f] = q[off]; y0[f] = q[off + 1]; off += 2; } else { x0[f] = x0[f - 1]; y0[f] = y0[f - 1]; } st[f] = StubFunc::state(f, q + off, np[f]); off += np[f]; }
  if (!single) { m.CreateModelImage(p); double* im = m.GetModelImageVector(); vx_check(im != nullptr, "image available"); vx_reach("image");
    for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) { double sum = 0; for (int f = 0; f < nf; f++) sum += StubFunc::value(f, st[f], x0[f], y0[f], c + 1, r + 1); vx_check_real(im[r * nc + c], sum, 1e-9, "pixel equals the sum of components"); }
  } else for (int k = 0; k < nf; k++) { double* im = m.GetSingleFunctionImage(p, k); vx_reach("single");
    for (int r = 0; r < nr; r++) for (int c = 0; c < nc; c++) vx_check(vx_same(im[r * nc + c], StubFunc::value(k, st[k], x0[k], y0[k], c + 1, r + 1)), "single-component image"); }
  for (int i = 0; i < n; i++) vx_check(vx_same(p[i], q[i]), "parameter vector unchanged");
  delete[] p; delete[] q; delete[] x0; delete[] y0; delete[] st;
}
extern "C" void p01_sum() { vx_option("realarith", 1); int nf = vx_pick("nfunctions", 1, TIER > 1 ? 4 : 3); int nc = vx_pick("columns", 1, TIER > 1 ? 4 : 3), nr = vx_pick("rows", 1, TIER > 1 ? 4 : 3); body(nf, 2, nc, nr, false); }
extern "C" void p01_single() { int nf = vx_pick("nfunctions", 1, 3); int nc = vx_pick("columns", 1, 3), nr = vx_pick("rows", 1, 3); body(nf, 2, nc, nr, true); }
