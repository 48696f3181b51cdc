// P28: fluxes of components and their total
#include "p24_common.h"
#include "func_exp.h"
#include "func_gaussian.h"
#include "func_sersic.h"
#include "gsl/gsl_sf_gamma.h"
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
struct FStub : public StubFunc { FStub(int id, int n, bool bg, bool tf) : StubFunc(id, n, false, bg, tf) { isBackground = bg; } };
extern "C" double gsl_sf_gamma(double x) { return vx_uf("gamma", x, 0, 0, 0); }
extern "C" void p28_model() { vx_option("realarith", 1); int nf = vx_pick("components", 1, TIER > 1 ? 3 : 2), xs = vx_pick("columns", 1, 3), ys = vx_pick("rows", 1, 3); int bg[3], tf[3], np[3]; std::vector<int> sets; int lay = vx_pick("sets", 0, nf - 1); ModelObject* m = new ModelObject; m->SetVerboseLevel(-1); FStub* f[3]; int npar = 0;
  for (int i = 0; i < nf; i++) { int k = vx_pick("kind", 0, 5); bg[i] = k == 2 || k == 5; tf[i] = k == 1 || k == 4 || k == 5; np[i] = k < 3 ? 1 : 2; f[i] = new FStub(i, np[i], bg[i], tf[i]); m->AddFunction(f[i]); if (i == 0 || i == lay) { sets.push_back(i); npar += 2; } npar += np[i]; }
  m->DefineFunctionSets(sets); m->PopulateParameterNames(); m->FinalModelSetup(); int used = vx_pick("history", 0, 2); double p[12]; for (int i = 0; i < npar; i++) p[i] = vx_real("parameter", -100, 100); if (used) { m->SetupModelImage(2, 2); double q[12]; for (int i = 0; i < npar; i++) q[i] = i; m->CreateModelImage(q); if (used == 2) { double old[3]; m->FindTotalFluxes(q, 2, 3, old); } }
  double fl[4], keep = vx_real("untouched", -9, 9); for (int i = 0; i < 3; i++) fl[i] = vx_real("before", -1e6, 1e6); fl[nf] = keep; double total = m->FindTotalFluxes(p, xs, ys, fl), sum = 0; vx_check(vx_same(fl[nf], keep), "nothing written past the last component"); int off = 0;
  for (int i = 0; i < nf; i++) { if (i == 0 || i == lay) off += 2; double st = StubFunc::state(i, p + off, np[i]), e = 0; off += np[i]; if (bg[i]) CK(fl[i] == 0, "background component: flux written as zero"); else { vx_check(vx_same(f[i]->st, st), "component set up with its own parameters"); CK(f[i]->x0 == f[0]->x0 && f[i]->y0 == f[0]->y0, "common centre of the estimation image"); CK(fabs(f[i]->x0 - 0.5 * xs) <= 0.5 && fabs(f[i]->y0 - 0.5 * ys) <= 0.5, "centred in the estimation image"); if (tf[i]) { vx_check(vx_same(fl[i], vx_uf("flux", st, i, 0, 0)), "component's own total flux"); e = fl[i]; } else { for (int y = 1; y <= ys; y++) for (int x = 1; x <= xs; x++) e += StubFunc::value(i, st, f[i]->x0, f[i]->y0, x, y); vx_check_real(fl[i], e, 1e-9, "component flux is the sum over the estimation image"); } sum += e; } }
  vx_check_real(total, sum, 1e-9, "total is the sum of the non-background components"); vx_reach("model"); delete m; }
// the four functions which know their flux: alone, within a model, after other parameters; closed forms
extern "C" void p28_own() { vx_option("realarith", 1); vx_option("realbranch", 1); vx_option("fpatimeout", 200); vx_option("uftimeout", 200); int k = vx_pick("function", 0, 4); static const char* nm[5] = {"Exponential", "Gaussian", "Sersic", "PointSource", "PointSourceRot"}; FunctionObject* f = make(nm[k], true); Desc d = describe(f, nm[k]); double p[12], q[12]; p[0] = vx_real("x0", 1, 100); p[1] = vx_real("y0", 1, 100); for (int i = 0; i < d.n; i++) { p[2 + i] = value(d, i, "parameter"); q[2 + i] = value(d, i, "other"); } q[0] = q[1] = 3; CK(f->CanCalculateTotalFlux(), "knows its flux"); CK(!f->IsBackground(), "not a background");
  int at = vx_pick("history", 0, 2); if (at == 1) { f->Setup(q, 2, 3, 3); f->TotalFlux(); } if (at == 2) f->SetOversamplingScale(3); f->Setup(p, 2, p[0], p[1]); double a = f->TotalFlux();
  double I = 0, ell = 0, h = 0, n = 0, off = 0; for (int i = 0; i < d.n; i++) { const std::string& s = d.names[i]; double v = p[2 + i]; if (s == "I_0" || s == "I_e" || s == "I_tot") I = v; else if (s == "ell") ell = v; else if (s == "h" || s == "sigma" || s == "r_e") h = v; else if (s == "n") n = v; } (void)off;
  if (k < 2) vx_check_real(a, 2 * M_PI * I * h * h * (1 - ell), 1e-9, "closed form"); else if (k > 2) vx_check_real(a, I, 1e-12, "flux of a point source");
  else { if (n > 0.36) { double n2 = n * n, bn = 2 * n - 0.333333333333333 + 0.009876543209876543 / n + 0.0018028610621203215 / n2 + 0.00011409410586365319 / (n2 * n) - 7.1510122958919723e-05 / (n2 * n2); vx_check_real(a, 2 * M_PI * n * exp(bn) * I * h * h * (1 - ell) * gsl_sf_gamma(2 * n) / pow(bn, 2 * n), 1e-9, "closed form of the Sersic flux"); } double I2 = 0; FunctionObject* g = make(nm[k], true); double z[12]; for (int i = 0; i < d.n + 2; i++) z[i] = p[i]; for (int i = 0; i < d.n; i++) if (d.names[i] == "I_e") z[2 + i] = 2 * p[2 + i]; g->Setup(z, 2, 7, 7); I2 = g->TotalFlux(); vx_check_real(I2, 2 * a, 1e-9, "proportional to the intensity"); for (int i = 0; i < d.n; i++) { z[2 + i] = p[2 + i]; if (d.names[i] == "r_e") z[2 + i] = 3 * p[2 + i]; } g->Setup(z, 2, 7, 7); vx_check_real(g->TotalFlux(), 9 * a, 1e-9, "proportional to the area"); for (int i = 0; i < d.n; i++) { z[2 + i] = p[2 + i]; if (d.names[i] == "ell") z[2 + i] = 0; } g->Setup(z, 2, 7, 7); vx_check_real(g->TotalFlux() * (1 - ell), a, 1e-9, "proportional to the axis ratio"); for (int i = 0; i < d.n; i++) { z[2 + i] = p[2 + i]; if (d.names[i] == "PA") z[2 + i] = 11; } g->Setup(z, 2, 7, 7); vx_check_real(g->TotalFlux(), a, 1e-9, "independent of the position angle"); delete g; }
  ModelObject* m = new ModelObject; m->SetVerboseLevel(-1); FunctionObject* other = make("Exponential", true); bool first = vx_pick("order", 0, 1); FunctionObject* g = make(nm[k], true); m->AddFunction(first ? g : other); m->AddFunction(first ? other : g); std::vector<int> sets; sets.push_back(0); m->DefineFunctionSets(sets); double w[16] = {5, 6}; int o = 2; if (first) for (int i = 0; i < d.n; i++) w[o++] = p[2 + i]; double ep[4] = {10, 0.25, 3, 4}; for (int i = 0; i < 4; i++) w[o++] = ep[i]; if (!first) for (int i = 0; i < d.n; i++) w[o++] = p[2 + i]; double fl[2] = {-1, -1}; double total = m->FindTotalFluxes(w, 2, 2, fl); vx_check_real(fl[!first], a, 1e-12, "same flux within a model"); vx_check_real(total, fl[0] + fl[1], 1e-12, "total"); vx_reach("own"); delete m; delete f; }
