// P04: a model has no memory of what was evaluated before
#include "multi.h"
#include "psf_oversampling_info.h"
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
extern "C" double __wrap__Z8mp_enormiPKd(int n, const double* x) { double s = n; for (int i = 0; i < n; i += 3) s = vx_ufr("norm", s, x[i], i + 1 < n ? x[i + 1] : 0.0, i + 2 < n ? x[i + 2] : 0.0, 1, 1000); return s; }
struct Cfg { int nc, nr, stat, psf, regions, mask, ps; };
struct One { ModelObject* m = nullptr; std::vector<double*> keep; std::vector<PsfOversamplingInfo*> info;
  double* vec(const std::vector<double>& v) { double* p = dalloc((long)v.size()); for (size_t i = 0; i < v.size(); i++) p[i] = v[i]; keep.push_back(p); return p; }
  void build(const Cfg& c, const std::vector<double>& d, const std::vector<double>& e, const std::vector<double>& k) { m = new ModelObject; m->SetVerboseLevel(-1); long n = (long)c.nc * c.nr;
    m->AddFunction(new StubFunc(0, 1, false, false, true)); m->AddFunction(new StubFunc(1, 2, c.ps)); m->AddFunction(new StubFunc(2, 1)); std::vector<int> st; st.push_back(0); st.push_back(2); m->DefineFunctionSets(st); m->PopulateParameterNames(); if (c.psf) m->AddPSFVector(c.psf == 2 ? 16 : 2, c.psf == 2 ? 4 : 2, c.psf == 2 ? 4 : 1, vec(k), true); if (c.ps && c.psf == 2) m->SetupPsfInterpolation(); m->AddImageDataVector(vec(d), c.nc, c.nr); m->AddImageCharacteristics(2, 1, 1, 1, c.psf ? 1e8 : 3);
    if (c.mask) { std::vector<double> mv(n, 0.0); mv[0] = 1; m->AddMaskVector(n, c.nc, c.nr, vec(mv), MASK_ZERO_IS_GOOD); }
    for (int r = 0; r < c.regions; r++) { std::vector<double> kk(1, 1.0); if (c.ps) { kk.assign(16, 0.0); for (int i = 0; i < 16; i++) kk[i] = 1 + i % 5; } PsfOversamplingInfo* in = new PsfOversamplingInfo(vec(kk), c.ps ? 4 : 1, c.ps ? 4 : 1, 2, r ? "2:3,1:2" : "1:2,1:2", 0, 0, false, true); info.push_back(in); CK(m->AddOversampledPsfInfo(in) == 0, "region accepted"); }
    if (c.stat == 1) m->AddErrorVector(n, c.nc, c.nr, vec(e), WEIGHTS_ARE_SIGMAS); if (c.stat == 2) m->UseModelErrors(); if (c.stat == 3) m->UseCashStatistic(); if (c.stat == 4) m->UsePoissonMLR(); CK(m->FinalSetupForFitting() == 0, "set-up succeeds"); }
  ~One() { delete m; for (double* p : keep) free(p); } };
static void op(ModelObject* m, int kind, double* p, long n, int ps) { double out[16]; std::vector<double> q(p, p + 8);
  if (kind == 1) m->CreateModelImage(p); if (kind == 2) m->GetSingleFunctionImage(p, 0); if (kind == 3) m->GetFitStatistic(p); if (kind == 4) m->ComputeDeviates(out, p); if (kind == 5) m->FindTotalFluxes(p, 2, 2, out); if (kind == 6) { m->CreateModelImage(p); m->GetResidualImageVector(); m->GetWeightImageVector(); m->GetExpandedModelImageVector(); } if (kind == 7) m->GetSingleFunctionImage(p, 1); if (kind == 8) { m->CreateModelImage(p); m->GetWeightImageVector(); m->UseBootstrap(); }
  for (int i = 0; i < 8; i++) CK(vx_same(q[i], p[i]), "parameters not changed"); }
static void look(ModelObject* m, int what, double* p, long n, std::vector<double>& v, const Cfg& c) { v.clear(); double out[16]; for (int i = 0; i < 16; i++) out[i] = 0; double* im = nullptr;
  if (what == 0) { m->CreateModelImage(p); im = m->GetModelImageVector(); } if (what == 1) { v.push_back(m->GetFitStatistic(p)); im = m->GetModelImageVector(); } if (what == 2) { m->ComputeDeviates(out, p); for (long i = 0; i < n; i++) v.push_back(out[i]); } if (what == 3) im = m->GetSingleFunctionImage(p, 0); if (what == 4) im = m->GetSingleFunctionImage(p, 1); if (what == 5) { v.push_back(m->FindTotalFluxes(p, 2, 3, out)); for (int i = 0; i < 3; i++) v.push_back(out[i]); } if (what == 6) { m->CreateModelImage(p); im = m->GetResidualImageVector(); } if (what == 7) { m->CreateModelImage(p); im = m->GetWeightImageVector(); }
  if (what == 8) im = m->GetSingleFunctionImage(p, 2);
  if (im) for (long i = 0; i < n; i++) v.push_back(im[i]); }
static void body(Cfg c, int maxops) { long n = (long)c.nc * c.nr; StubFunc::LO() = 1000; StubFunc::HI() = 1001; vx_option("realbranch", 1);
  std::vector<double> d, e, k; for (int i = 0; i < n; i++) { d.push_back(vx_real("data", 10, 100)); e.push_back(vx_real("error", 0.5, 3)); } for (int i = 0; i < (c.psf == 2 ? 16 : 2); i++) k.push_back(1 + (i * 7) % 5);
  int a = vx_pick("first", 1, 8), b = maxops > 1 ? vx_pick("second", 0, 8) : 0, what = vx_pick("looked at", 0, 8); bool stats = what == 1 || what == 2; if (what == 7 && c.stat == 2) vx_end(); if (stats && (a == 8 || b == 8)) vx_end(); if (a == 8 && b) vx_end(); if (c.stat == 2 && (b == 8 || a == 8) && maxops > 1) vx_end();
  double p[8], q[8], r[8]; for (int i = 0; i < 8; i++) { p[i] = vx_real("p", -100, 100); q[i] = vx_real("q", -100, 100); r[i] = vx_real("r", -100, 100); }
  { One u, f; u.build(c, d, e, k); f.build(c, d, e, k); op(u.m, a, q, n, c.ps); if (b) op(u.m, b, vx_pick("other parameters", 0, 1) ? r : p, n, c.ps); std::vector<double> x, y; look(u.m, what, p, n, x, c); look(f.m, what, p, n, y, c); CK(x.size() == y.size(), "same kind of answer"); for (size_t i = 0; i < x.size(); i++) vx_check(vx_same(x[i], y[i]), "answer does not depend on earlier evaluations"); vx_reach("compared"); } }
extern "C" void p04_stats() { Cfg c; c.nc = 2; c.nr = vx_pick("rows", 1, 2); c.stat = vx_pick("statistic", 0, 4); c.psf = vx_pick("psf", 0, 1); c.mask = vx_pick("mask", 0, 1); c.regions = 0; c.ps = 0; body(c, TIER > 1 ? 2 : 1); }
extern "C" void p04_regions() { Cfg c; c.nc = 3; c.nr = 2; c.stat = vx_pick("statistic", 0, 1) * 2; c.psf = vx_pick("psf", 0, 1); c.regions = vx_pick("regions", 1, 2); c.mask = 0; c.ps = 0; body(c, TIER > 1 ? 2 : 1); }
extern "C" void p04_sequences() { Cfg c; c.nc = 2; c.nr = 1; c.stat = vx_pick("statistic", 0, 4); c.psf = c.mask = 1; c.regions = 0; c.ps = 0; body(c, 2); }
// a point source uses the interpolator of the grid it is evaluated on
struct Src : public StubFunc { Src(int id, int n) : StubFunc(id, n, true) {} double GetValue(double x, double y) { return vx_uf("src", StubFunc::value(id, st, x0, y0, x, y), interp ? interp->GetValue(0.25, 0.5) : -1.0, osamp, 0); } };
extern "C" void p04_sources() { int region = vx_pick("region", 0, 1), nx = 3; double p[6], q[6]; for (int i = 0; i < 6; i++) { p[i] = vx_real("p", -100, 100); q[i] = vx_real("q", -100, 100); } int a = vx_pick("first", 0, 3), b = vx_pick("second", 0, 3), what = vx_pick("looked at", 0, 2); std::vector<double> v[2];
  for (int t = 0; t < 2; t++) { double *k = dalloc(16), *k2 = dalloc(16), *dd = dalloc(2 * nx); for (int i = 0; i < 16; i++) { k[i] = 1 + i % 3; k2[i] = 2 + i % 5; } dd[0] = 1; dd[1] = 2; { ModelObject m; m.SetVerboseLevel(-1); m.AddFunction(new Src(0, 1)); m.AddFunction(new StubFunc(1, 1)); std::vector<int> st; st.push_back(0); st.push_back(1); m.DefineFunctionSets(st); m.PopulateParameterNames(); m.AddPSFVector(16, 4, 4, k, true); m.AddImageDataVector(dd, nx, 2); PsfOversamplingInfo* in = nullptr; if (region) { in = new PsfOversamplingInfo(k2, 4, 4, 1, "2:3,1:2", 0, 0, false, true); CK(m.AddOversampledPsfInfo(in) == 0, "region accepted"); } m.FinalSetupForFitting();
      if (t) { int o[2] = {a, b}; for (int i = 0; i < 2; i++) { if (o[i] == 1) m.CreateModelImage(q); if (o[i] == 2) m.GetSingleFunctionImage(q, 0); if (o[i] == 3) m.GetSingleFunctionImage(q, 1); } } double* im; if (what == 0) { m.CreateModelImage(p); im = m.GetModelImageVector(); } else im = m.GetSingleFunctionImage(p, what - 1); for (int i = 0; i < 2 * nx; i++) v[t].push_back(im[i]); }
    free(k2); free(k); free(dd); }
  for (int i = 0; i < 2 * nx; i++) vx_check(vx_same(v[0][i], v[1][i]), "pixel does not depend on earlier evaluations"); vx_reach("compared"); }
// several images
extern "C" void p04_multi() { StubFunc::LO() = 1000; StubFunc::HI() = 1001; vx_option("realbranch", 1); int stat = vx_pick("statistic", 0, 2), mask = vx_pick("mask", 0, 1), err = stat ? 0 : vx_pick("errors", 0, 1); std::vector<int> funcs, sets; funcs.push_back(2); funcs.push_back(1); sets.push_back(0); if (vx_pick("sets", 0, 1)) sets.push_back(1); std::vector<ImageSpec> sp; for (int i = 0; i < 2; i++) { ImageSpec s; s.nc = 1 + i; s.nr = 1; s.useErr = err; for (int j = 0; j < 2; j++) { s.data.push_back(vx_real("data", 10, 100)); s.err.push_back(vx_real("error", 0.5, 3)); s.mask.push_back(i && j && mask); } s.useMask = i && mask; if (i) { s.localFuncs.push_back(1); s.localSets.push_back(0); } sp.push_back(s); }
  Multi u, f; int code = stat == 0 ? 2 : stat + 4; u.build(funcs, sets, sp, code); f.build(funcs, sets, sp, code); u.mm->FinalSetupForFitting(); f.mm->FinalSetupForFitting(); int n = u.mm->GetNParams(); CK(n == f.mm->GetNParams() && n <= 24, "parameters"); double p[24], q[24], out[16]; for (int i = 0; i < n; i++) { p[i] = vx_real("p", 1, 4); q[i] = vx_real("q", 1, 4); }
  int a = vx_pick("first", 0, 2), b = vx_pick("second", 0, 2); int o[2] = {a, b}; for (int i = 0; i < 2; i++) { if (o[i] == 0) u.mm->CreateAllModelImages(q); if (o[i] == 1) u.mm->GetFitStatistic(q); if (o[i] == 2) { if (stat == 1) vx_end(); u.mm->ComputeDeviates(out, q); } }
  int what = vx_pick("looked at", 0, 2); if (what == 0) { vx_check(vx_same(u.mm->GetFitStatistic(p), f.mm->GetFitStatistic(p)), "statistic does not depend on earlier evaluations"); } if (what == 1) { if (stat == 1) vx_end(); double g[16]; for (int i = 0; i < 16; i++) g[i] = out[i] = 7; u.mm->ComputeDeviates(out, p); f.mm->ComputeDeviates(g, p); for (int i = 0; i < 16; i++) vx_check(vx_same(out[i], g[i]), "deviate does not depend on earlier evaluations"); }
  if (what == 2) { u.mm->CreateAllModelImages(p); f.mm->CreateAllModelImages(p); for (int i = 0; i < 2; i++) { double *x = u.mm->GetModelImageVector(i), *y = f.mm->GetModelImageVector(i); for (int j = 0; j < sp[i].nc; j++) vx_check(vx_same(x[j], y[j]), "pixel does not depend on earlier evaluations"); } } vx_reach("compared"); }
