// P06: weights are built as documented
#include "mo.h"
#include "definitions.h"
static const int MAXP = 6;
// the norm itself is the subject of P08
extern "C" double __wrap__Z8mp_enormiPKd(long n, const double* x) { double s = 0; for (long i = 0; i < n; i++) s += x[i] * x[i]; return std::sqrt(s); }
struct Job { int nc, nr, n, kind; };   // kind: 0 data errors, 1 model errors, 2 sigmas, 3 variances, 4 weights, 5 Cash, 6 Poisson-MLR
static int errType(int kind) { return kind == 2 ? WEIGHTS_ARE_SIGMAS : kind == 3 ? WEIGHTS_ARE_VARIANCES : WEIGHTS_ARE_WEIGHTS; }
static ModelObject* build(const Job& j, double* d, double* e, double* m, int maskType, double gain, double ron, double texp, int ncomb, double sky, bool charsFirst) {
  ModelObject* mo = new ModelObject; mo->SetVerboseLevel(-1); mo->AddFunction(new StubFunc(0, 1)); std::vector<int> st; st.push_back(0); mo->DefineFunctionSets(st); mo->PopulateParameterNames();
  if (charsFirst) mo->AddImageCharacteristics(gain, ron, texp, ncomb, sky); mo->AddImageDataVector(d, j.nc, j.nr); if (!charsFirst) mo->AddImageCharacteristics(gain, ron, texp, ncomb, sky);
  if (j.kind >= 2 && j.kind <= 4) mo->AddErrorVector(j.n, j.nc, j.nr, e, errType(j.kind));
  if (j.kind == 1) mo->UseModelErrors(); if (j.kind == 5) mo->UseCashStatistic(); if (j.kind == 6) mo->UsePoissonMLR();
  if (m) vx_check(mo->AddMaskVector(j.n, j.nc, j.nr, m, maskType) == 0, "documented mask types are accepted"); return mo; }
static void shape(Job& j) { j.nc = vx_pick("columns", 1, 2); j.nr = vx_pick("rows", j.nc == 1 ? 2 : 1, j.nc == 1 ? 3 : TIER > 1 ? 2 : 1); j.n = j.nc * j.nr; }
// values: error values in the ordinary range, masks of either convention
extern "C" void p06_supplied() { vx_option("realarith", 1); Job j; shape(j); j.kind = vx_pick("kind", 2, 4); int msk = vx_pick("masked", 0, (1 << j.n) - 2); bool zbad = vx_pick("zeroisbad", 0, 1); bool use = vx_pick("usemask", 0, 1); if (!use && (msk || zbad)) vx_end();
  double *d = dalloc(j.n), *e = dalloc(j.n), *e0 = dalloc(j.n), *m = dalloc(j.n); for (int i = 0; i < j.n; i++) { d[i] = vx_real("data", -100, 100); e[i] = e0[i] = vx_real("error", 0.01, 100); bool b = (msk >> i) & 1; m[i] = b == zbad ? 0.0 : b ? vx_real("maskvalue", 1, 100) : 1.0; }
  ModelObject* mo = build(j, d, e, use ? m : nullptr, zbad ? MASK_ZERO_IS_BAD : MASK_ZERO_IS_GOOD, 1, 0, 1, 1, 0, true); vx_check(mo->FinalSetupForFitting() == 0, "good errors are accepted"); int good = 0;
  double* w = mo->GetWeightImageVector(); for (int i = 0; i < j.n; i++) { if ((msk >> i) & 1) vx_check(w[i] == 0, "masked pixel has zero weight"); else { good++; vx_check_real(w[i], j.kind == 2 ? 1.0 / (e0[i] * e0[i]) : j.kind == 3 ? 1.0 / e0[i] : e0[i], 1e-9, "weight equals its documented formula"); } }
  vx_check(mo->GetNValidPixels() == good, "number of valid pixels"); vx_reach("weights"); delete mo; free(d); free(e); free(e0); free(m); }
// acceptance: every double as data, error and mask
extern "C" void p06_accept() { Job j; j.nc = 1; j.nr = 1; j.n = 1; if (TIER > 1) { j.nr = j.n = vx_pick("pixels", 1, 2); } j.kind = vx_pick("kind", 2, 4); bool zbad = vx_pick("zeroisbad", 0, 1), use = vx_pick("usemask", 0, 1); if (!use && zbad) vx_end();
  double *d = dalloc(j.n), *e = dalloc(j.n), *e0 = dalloc(j.n), *m = dalloc(j.n); bool bad[MAXP]; for (int i = 0; i < j.n; i++) { d[i] = vx_double("data"); e[i] = e0[i] = vx_double("error"); bad[i] = false; if (use) { m[i] = vx_double("mask"); bad[i] = !std::isfinite(m[i]) || (zbad ? m[i] < 1 : m[i] > 0); if (zbad) vx_assume(vx_or(!(m[i] > 0), m[i] >= 1)); else vx_assume(!(m[i] < 0 && std::isfinite(m[i]))); } }
  ModelObject* mo = build(j, d, e, use ? m : nullptr, zbad ? MASK_ZERO_IS_BAD : MASK_ZERO_IS_GOOD, 1, 0, 1, 1, 0, true);
  bool neg = false; int good = 0; for (int i = 0; i < j.n; i++) { bool b = bad[i]; if (!std::isfinite(d[i])) b = true; double x = e0[i]; bool unusable = std::isnan(x) || (j.kind == 2 ? !std::isfinite(1.0 / x) : j.kind == 3 ? x <= 0 : (x < 0 || std::isinf(x))); 
    bad[i] = b || unusable; if (!bad[i]) { good++; if (j.kind == 2 && x < 0 && std::isfinite(x)) neg = true; } }
  int st = mo->FinalSetupForFitting(); bool shouldFail = neg || good < 1;
  if (shouldFail) vx_check(st < 0, "no usable pixel or a negative weight makes setup fail"); else { vx_check(st >= 0, "usable data is accepted"); vx_check(mo->GetNValidPixels() == good, "number of valid pixels");
    double* w = mo->GetWeightImageVector(); for (int i = 0; i < j.n; i++) { if (bad[i]) vx_check(w[i] == 0, "unusable pixel has zero weight"); else vx_check(w[i] >= 0, "usable pixel has a non-negative weight"); } vx_reach("accepted"); }
  if (shouldFail) vx_reach("refused"); }
// internally generated Gaussian errors
static void noise(bool model) { vx_option("realarith", 1); Job j; shape(j); j.kind = model; bool first = vx_pick("charsfirst", 0, 1); int ncomb = vx_pick("combined", 1, 3); bool ron0 = vx_pick("noreadnoise", 0, 1), sky0 = vx_pick("nosky", 0, 1);
  double gain = vx_real("gain", 0.5, 10), ron = ron0 ? 0.0 : vx_real("ron", 0.5, 10), texp = vx_real("exptime", 0.5, 4), sky = sky0 ? 0.0 : vx_real("sky", 0.5, 20);
  double *d = dalloc(j.n), *m = dalloc(j.n); int msk = vx_pick("masked", 0, 1); double p[3] = {1, 1, 0.5}; for (int i = 0; i < j.n; i++) { int sg = vx_pick("sign", 0, ron0 ? 1 : 2); d[i] = sg == 0 ? vx_real("data", -50, -30) : sg == 1 ? vx_real("data", 1, 100) : -vx_real("data", 0.5, 20); m[i] = i == 0 ? msk : 0; } int ms = vx_pick("modelsign", 0, model ? 2 - ron0 : 0); StubFunc::LO() = ms == 0 ? 1 : ms == 1 ? -50 : -20; StubFunc::HI() = ms == 0 ? 100 : ms == 1 ? -30 : 20;
  ModelObject* mo = build(j, d, nullptr, m, MASK_ZERO_IS_GOOD, gain, ron, texp, ncomb, sky, first); mo->FinalModelSetup(); int st = mo->FinalSetupForFitting(); double eg = gain * texp * ncomb; bool fail = false; double flux[MAXP];
  if (model) { vx_check(st == 0, "accepted"); double dummy[MAXP]; bool dev = vx_pick("deviates", 0, 1); if (dev) mo->ComputeDeviates(dummy, p); else mo->GetFitStatistic(p); }
  for (int i = 0; i < j.n; i++) { flux[i] = sky + (model ? StubFunc::value(0, StubFunc::state(0, p + 2, 1), p[0], p[1], 1 + i % j.nc, 1 + i / j.nc) : d[i]); if (!(flux[i] >= 0)) flux[i] = 0; if (ron0 && flux[i] == 0 && m[i] != 0) fail = true; }
  if (!model) { if (fail) vx_check(st < 0, "infinite weight makes setup fail"); else vx_check(st >= 0, "accepted"); if (st < 0) { vx_reach("refused"); return; } }
  if (model && fail) vx_end();
  double* w = mo->GetWeightImageVector(); for (int i = 0; i < j.n; i++) { if (m[i] == 0) vx_check(w[i] == 0, "masked pixel has zero weight"); else { vx_check(std::isfinite(w[i]), "weight is finite"); vx_check_real(w[i], 1.0 / (flux[i] / eg + ncomb * (ron / eg) * (ron / eg)), 1e-9, "weight equals the documented noise model"); } } vx_reach("generated"); delete mo; free(d); free(m); }
extern "C" void p06_data() { noise(false); }
extern "C" void p06_model() { noise(true); }
// Cash and Poisson-MLR: unit weights on good pixels
extern "C" void p06_counts() { Job j; shape(j); j.kind = vx_pick("kind", 5, 6); int msk = vx_pick("masked", 0, (1 << j.n) - 2); double *d = dalloc(j.n), *m = dalloc(j.n); for (int i = 0; i < j.n; i++) { d[i] = vx_real("data", -100, 100); m[i] = (msk >> i) & 1; }
  ModelObject* mo = build(j, d, nullptr, m, MASK_ZERO_IS_GOOD, 2, 3, 1, 1, 0, true); vx_check(mo->FinalSetupForFitting() == 0, "accepted"); double* w = mo->GetWeightImageVector(); int good = 0; for (int i = 0; i < j.n; i++) { bool b = (msk >> i) & 1; good += !b; vx_check(w[i] == (b ? 0 : 1), "unit weight on good pixels only"); } vx_check(mo->GetNValidPixels() == good, "number of valid pixels"); vx_reach("counts"); delete mo; free(d); free(m); }
