// P05: masked pixels never influence a fit
#include "mo.h"
#include "definitions.h"
extern double conv_lo, conv_hi; extern int conv_pixels;
static const int MAXP = 6;
struct Cfg { int nc, nr, kind; bool psf, badconv; int mask; };   // kind: 0 data errors, 1 model errors, 2 sigmas, 3 variances, 4 weights, 5 Cash, 6 Poisson-MLR
struct Result { int addmask, fin; long nvalid; double stat; double dev[MAXP]; int ndev; };
static Result run(const Cfg& c, const double* data, const double* err, const double* mask, const double* params, double gain, double ron, double sky) {
  Result R; R.addmask = 0; int n = c.nc * c.nr; double* d = dalloc(n); double* e = dalloc(n); double* m = dalloc(n); for (int i = 0; i < n; i++) { d[i] = data[i]; e[i] = err[i]; m[i] = mask ? mask[i] : 0; } double psf[1] = {1.0}; conv_lo = 1; conv_hi = 6; conv_pixels = (c.nc + 2) * (c.nr + 2);
  { ModelObject mo; mo.SetVerboseLevel(-1); mo.AddFunction(new StubFunc(0, 1)); std::vector<int> st; st.push_back(0); mo.DefineFunctionSets(st); mo.PopulateParameterNames(); if (c.psf) mo.AddPSFVector(1, 1, 1, psf, false);
    mo.AddImageDataVector(d, c.nc, c.nr); mo.AddImageCharacteristics(gain, ron, 1.0, 1, sky);
    if (c.kind >= 2 && c.kind <= 4) mo.AddErrorVector(n, c.nc, c.nr, e, c.kind == 2 ? WEIGHTS_ARE_SIGMAS : c.kind == 3 ? WEIGHTS_ARE_VARIANCES : WEIGHTS_ARE_WEIGHTS);
    if (c.kind == 1) mo.UseModelErrors(); if (c.kind == 5) mo.UseCashStatistic(); if (c.kind == 6) mo.UsePoissonMLR();
    if (mask) R.addmask = mo.AddMaskVector(n, c.nc, c.nr, m, c.badconv ? MASK_ZERO_IS_BAD : MASK_ZERO_IS_GOOD);
    mo.FinalModelSetup(); R.fin = mo.FinalSetupForFitting(); R.nvalid = mo.GetNValidPixels(); double p[3] = {params[0], params[1], params[2]}; R.ndev = 0; R.stat = 0;
    if (R.fin >= 0) { for (int i = 0; i < n; i++) R.dev[i] = 0; R.stat = mo.GetFitStatistic(p); if (c.kind != 5) { mo.ComputeDeviates(R.dev, p); R.ndev = n; } } }
  free(d); free(e); free(m); return R;
}
static Cfg pickCfg(double& gain, double& ron, double& sky) { Cfg c; c.kind = vx_pick("statistic", 0, 6); int M = TIER > 1 ? 3 : 2; c.nc = vx_pick("columns", 1, M); c.nr = vx_pick("rows", c.nc == 1 ? 2 : 1, 2); c.mask = vx_pick("masked", 1, (1 << (c.nc * c.nr)) - 1); c.badconv = vx_pick("zeroisbad", 0, 1); c.psf = vx_pick("psf", 0, 1);
  if (c.kind >= 5 && TIER == 1) { gain = 2.5; ron = 3; sky = vx_pick("withsky", 0, 1) ? 37.5 : 0.0; } else { gain = vx_real("gain", 0.5, 10); ron = vx_real("ron", 1, 10); sky = vx_real("sky", 0, 100); } return c; }
static void fill(const Cfg& c, double* d, double* e, double* m, double* p) { StubFunc::LO() = 1; StubFunc::HI() = 5; for (int i = 0; i < c.nc * c.nr; i++) { d[i] = vx_real("data", 10, 1000); e[i] = vx_real("error", 0.5, 50); bool b = (c.mask >> i) & 1; m[i] = b == c.badconv ? 0.0 : 1.0; } for (int i = 0; i < 3; i++) p[i] = vx_real("p", -50, 50); }
static void compare(const Cfg& c, const Result& A, const Result& B) {
  vx_check(A.fin == B.fin, "same acceptance"); vx_check(A.nvalid == B.nvalid, "same number of valid pixels");
  if (A.fin >= 0) { vx_check(vx_same(A.stat, B.stat), "same fit statistic"); vx_check(std::isfinite(A.stat), "finite fit statistic"); for (int i = 0; i < A.ndev; i++) { vx_check(A.dev[i] == B.dev[i], "same deviates"); if ((c.mask >> i) & 1) vx_check(A.dev[i] == 0, "masked pixel has zero deviate"); } vx_reach("compared"); } else vx_reach("refused"); }
// masked pixels holding anything, in the data and in the error image
extern "C" void p05_masked() { double gain, ron, sky; Cfg c = pickCfg(gain, ron, sky); double d[MAXP], e[MAXP], m[MAXP], p[3], d2[MAXP], e2[MAXP]; fill(c, d, e, m, p);
  for (int i = 0; i < c.nc * c.nr; i++) { d2[i] = d[i]; e2[i] = e[i]; if ((c.mask >> i) & 1) { double x; if (vx_pick("hiddenfinite", 0, 1)) x = vx_real("hidden", -1e150, 1e150); else { x = vx_double("hidden"); vx_assume(!std::isfinite(x)); } d2[i] = x; if (c.kind >= 2 && c.kind <= 4) e2[i] = vx_double("hiddenerror"); } }
  compare(c, run(c, d2, e2, m, p, gain, ron, sky), run(c, d, e, m, p, gain, ron, sky)); }
// unmasked pixels with non-finite data behave as masked ones
extern "C" void p05_nonfinite() { double gain, ron, sky; Cfg c = pickCfg(gain, ron, sky); int all = (1 << (c.nc * c.nr)) - 1; int hid = vx_pick("unmaskedmeanwhile", 1, all); if (hid & ~c.mask) vx_end(); bool usemask = vx_pick("usemask", 0, 1); if (!usemask && hid != c.mask) vx_end();
  double d[MAXP], e[MAXP], m[MAXP], p[3], d2[MAXP], m2[MAXP]; fill(c, d, e, m, p);
  for (int i = 0; i < c.nc * c.nr; i++) { d2[i] = d[i]; m2[i] = m[i]; if ((hid >> i) & 1) { double x = vx_double("bad"); vx_assume(!std::isfinite(x)); d2[i] = x; m2[i] = c.badconv ? 1.0 : 0.0; } }
  compare(c, run(c, d2, e, usemask ? m2 : nullptr, p, gain, ron, sky), run(c, d, e, m, p, gain, ron, sky)); }
// masked pixels so large that data minus model or gain times data overflows
extern "C" void p05_huge() { vx_option("fpatimeout", 2000); vx_option("uftimeout", 2000); Cfg c; c.kind = vx_pick("statistic", 0, 6); c.nc = 2; c.nr = 1; c.mask = 1; c.badconv = false; c.psf = false; double d[MAXP], e[MAXP], m[MAXP], p[3], d2[MAXP]; fill(c, d, e, m, p); for (int i = 0; i < 2; i++) d2[i] = d[i];
  d2[0] = vx_pick("negative", 0, 1) ? -vx_real("huge", 1e308, 1.7e308) : vx_real("huge", 1e308, 1.7e308); compare(c, run(c, d2, e, m, p, 10, 2, 0), run(c, d, e, m, p, 10, 2, 0)); }
