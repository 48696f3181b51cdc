// P07: fit statistics and deviates equal their documented formulas
#include "mo.h"
#include "definitions.h"
extern double conv_lo, conv_hi; extern int conv_pixels;
extern "C" double __wrap__Z8mp_enormiPKd(int n, const double* x) { double s = 0; for (int i = 0; i < n; i++) s += x[i] * x[i]; return std::sqrt(s); }   // the norm is the subject of P08
static const int MAXP = 8;
struct S { int nc, nr, n, kind, mask; double gain, sky; double d[MAXP], w2[MAXP], mod[MAXP], dev[MAXP]; double stat; double p[4]; ModelObject* mo; double *dd, *ee, *mm, *psf; };
static void run(S& s, double dlo, double dhi, double mlo, double mhi, bool devfirst, bool freeGain = true) {
  s.nc = vx_pick("columns", 1, 2); s.nr = vx_pick("rows", s.nc == 1 ? 2 : 1, s.nc == 1 ? 3 : TIER > 1 ? 3 : 2); s.n = s.nc * s.nr; s.mask = vx_pick("masked", 0, TIER > 1 ? (1 << s.n) - 2 : 2); int pc = vx_pick("psfcols", 0, 2), pr = pc ? 3 - pc : 0; int sk = vx_pick("sky", 0, 1);
  s.gain = freeGain ? vx_real("gain", 0.5, 4) : 2.5; s.sky = sk ? vx_real("skylevel", 0.5, 20) : 0.0; StubFunc::LO() = mlo; StubFunc::HI() = mhi; conv_lo = mlo; conv_hi = mhi; conv_pixels = (s.nc + 2 * pc) * (s.nr + 2 * pr);
  s.dd = dalloc(s.n); s.ee = dalloc(s.n); s.mm = dalloc(s.n); s.psf = dalloc(2); s.psf[0] = 0.25; s.psf[1] = 0.75; for (int i = 0; i < 4; i++) s.p[i] = vx_real("p", -50, 50);
  for (int i = 0; i < s.n; i++) { s.d[i] = s.dd[i] = vx_real("data", dlo, dhi); s.ee[i] = vx_real("error", 0.5, 20); s.w2[i] = 1.0 / (s.ee[i] * s.ee[i]); s.mm[i] = (s.mask >> i) & 1; if (s.mm[i] != 0) s.w2[i] = 0; else if (s.kind >= 5) s.w2[i] = 1; }
  ModelObject* mo = s.mo = new ModelObject; mo->SetVerboseLevel(-1); mo->AddFunction(new StubFunc(0, 1)); if (freeGain) mo->AddFunction(new StubFunc(1, 1)); std::vector<int> st; st.push_back(0); mo->DefineFunctionSets(st); mo->PopulateParameterNames(); if (pc) mo->AddPSFVector(2, pc, pr, s.psf, false);
  mo->AddImageDataVector(s.dd, s.nc, s.nr); mo->AddImageCharacteristics(s.gain, 0, 1, 1, s.sky); if (s.kind == 2) mo->AddErrorVector(s.n, s.nc, s.nr, s.ee, WEIGHTS_ARE_SIGMAS); if (s.kind == 5) mo->UseCashStatistic(); if (s.kind == 6) mo->UsePoissonMLR(); 
  if (s.mask) mo->AddMaskVector(s.n, s.nc, s.nr, s.mm, MASK_ZERO_IS_GOOD); mo->FinalModelSetup(); vx_check(mo->FinalSetupForFitting() == 0, "accepted"); 
  if (devfirst && s.kind != 5) mo->ComputeDeviates(s.dev, s.p); s.stat = mo->GetFitStatistic(s.p); if (!devfirst && s.kind != 5) mo->ComputeDeviates(s.dev, s.p); double* mv = mo->GetModelImageVector(); for (int i = 0; i < s.n; i++) s.mod[i] = mv[i]; }
static void done(S& s) { delete s.mo; free(s.dd); free(s.ee); free(s.mm); free(s.psf); }
extern "C" void p07_chi() { vx_option("realarith", 1); S s; s.kind = 2; run(s, -100, 100, -100, 100, vx_pick("deviatesfirst", 0, 1)); double e = 0; for (int i = 0; i < s.n; i++) { double r = s.d[i] - s.mod[i]; e += s.w2[i] * r * r; if (s.w2[i] != 0) vx_check_real(s.dev[i], r / s.ee[i] * s.ee[i] * s.ee[i], 1e-9, "deviate is weight times data minus model"); else vx_check(s.dev[i] == 0, "masked pixel has zero deviate"); } 
  vx_check_real(s.stat, e, 1e-9, "chi-squared equals its definition"); double q = 0; for (int i = 0; i < s.n; i++) q += s.dev[i] * s.dev[i]; vx_check_real(s.stat, q, 1e-9, "sum of squared deviates is the statistic"); vx_reach("chi"); done(s); }
extern "C" void p07_cash() { vx_option("realarith", 1); S s; s.kind = vx_pick("kind", 5, 6); run(s, 1, 100, 1, 100, vx_pick("deviatesfirst", 0, 1)); double e = 0;
  for (int i = 0; i < s.n; i++) if (s.w2[i] != 0) { double m = s.gain * (s.mod[i] + s.sky), d = s.gain * (s.d[i] + s.sky), t = m - d * std::log(m); if (s.kind == 6) { t += d * std::log(d) - d; double q = s.dev[i] * s.dev[i]; vx_check_real(q * q, 4 * t * t, 1e-9, "Poisson deviate squared is the pixel's term"); } e += t; } else if (s.kind == 6) vx_check(s.dev[i] == 0, "masked pixel has zero deviate");
  vx_check_real(s.stat, 2 * e, 1e-9, "Poisson statistic equals its definition"); vx_reach("cash"); done(s); }
extern "C" void p07_zero() { vx_option("realarith", 1); S s; s.kind = 6; s.nc = vx_pick("columns", 1, 2); s.nr = 2; s.n = s.nc * s.nr; s.gain = vx_real("gain", 0.5, 4); s.sky = vx_pick("sky", 0, 1) ? vx_real("skylevel", 0.5, 20) : 0.0; StubFunc::LO() = 1; StubFunc::HI() = 100; for (int i = 0; i < 3; i++) s.p[i] = vx_real("p", -50, 50); s.dd = dalloc(s.n);
  for (int i = 0; i < s.n; i++) s.dd[i] = StubFunc::value(0, StubFunc::state(0, s.p + 2, 1), s.p[0], s.p[1], 1 + i % s.nc, 1 + i / s.nc); ModelObject mo; mo.SetVerboseLevel(-1); mo.AddFunction(new StubFunc(0, 1)); std::vector<int> st; st.push_back(0); mo.DefineFunctionSets(st); mo.PopulateParameterNames(); mo.AddImageDataVector(s.dd, s.nc, s.nr); mo.AddImageCharacteristics(s.gain, 0, 1, 1, s.sky); mo.UsePoissonMLR(); mo.FinalModelSetup(); mo.FinalSetupForFitting();
  double v = mo.GetFitStatistic(s.p); vx_check_real(v, 0, 1e-9, "Poisson-MLR statistic is zero when the model equals the data"); vx_reach("zero"); free(s.dd); }
// zero, tiny and negative data and model values
extern "C" void p07_finite() { S s; s.kind = vx_pick("kind", 5, 6); int md = vx_pick("modelrange", 0, 2); run(s, vx_pick("negativedata", 0, 1) ? -100 : 0, 100, md == 0 ? -100 : 0, md == 1 ? 0.5 : 100, true, false); vx_check(std::isfinite(s.stat), "statistic is finite"); if (s.kind == 6) for (int i = 0; i < s.n; i++) vx_check(std::isfinite(s.dev[i]), "deviates are finite"); vx_reach("finite"); done(s); }
// zero counts, negative model
extern "C" void p07_negative() { vx_option("realarith", 1); double d[1] = {0}, dev[1]; StubFunc::LO() = -10; StubFunc::HI() = -1; double p[3]; for (int i = 0; i < 3; i++) p[i] = vx_real("p", -50, 50); ModelObject mo; mo.SetVerboseLevel(-1); mo.AddFunction(new StubFunc(0, 1)); std::vector<int> st; st.push_back(0); mo.DefineFunctionSets(st); mo.PopulateParameterNames(); mo.AddImageDataVector(d, 1, 1); mo.AddImageCharacteristics(1, 0, 1, 1, 0); mo.UsePoissonMLR(); mo.FinalModelSetup(); mo.FinalSetupForFitting();
  double v = mo.GetFitStatistic(p); mo.ComputeDeviates(dev, p); vx_check_real(dev[0] * dev[0], v, 1e-9, "sum of squared deviates is the statistic at negative model values"); vx_reach("negative"); }
