// P32: one-dimensional profiles: sum of components, convolution, statistics over the unmasked points
#include "mo.h"
#include "convolver1d.h"
#include "model_object_1d.h"
#define CK(c, m) do { int ok_ = 1; if (!(c)) ok_ = 0; vx_check(ok_, m); } while (0)
struct S1 : public StubFunc { S1(int id, int n) : StubFunc(id, n) {} double zp = 0; static double val(int id, double st, double x0, double x) { return vx_ufr("prof", st, x0, x, id, 0.5, 4); } void Setup(double p[], int off, double xc) override { x0 = xc; st = state(id, p + off, np); } double GetValue(double x) override { return val(id, st, x0, x); } void SetZeroPoint(double z) override { zp = z; } };
static double NV[16]; static int NN = -1; extern "C" double __wrap__Z8mp_enormiPKd(int n, const double* x) { NN = n; for (int i = 0; i < n && i < 16; i++) NV[i] = x[i]; return 3; }
struct M1 : public ModelObject1d { double st(double* p) { return ModelObject::GetFitStatistic(p); } void boot(int n, long* ix) { doBootstrap = true; bootstrapIndices = (long*)calloc(n, sizeof(long)); bootstrapIndicesAllocated = true; for (int i = 0; i < n; i++) bootstrapIndices[i] = ix[i]; } };
extern "C" void p32_profile() { vx_option("realarith", 1); int n = vx_pick("points", 2, TIER > 1 ? 5 : 4), np = vx_pick("PSF points", 0, TIER > 1 ? 4 : 3), nf = vx_pick("components", 1, TIER > 1 ? 3 : 2), lay = vx_pick("sets", 0, nf - 1), mags = np ? 0 : vx_pick("magnitudes", 0, 1); int mk = vx_pick("mask", 0, 4), fm = mk ? vx_pick("mask format", 0, 1) : 0, wk = vx_pick("errors", 0, 2);
  double *x = dalloc(n), *d = dalloc(n), *e = dalloc(n), *k = dalloc(np), *kx = dalloc(np), *mv = dalloc(n), k0[4], ks = 0, er[5], w[5]; for (int i = 0; i < n; i++) { x[i] = 2.5 + 0.25 * i; d[i] = vx_real("data", -100, 100); e[i] = er[i] = vx_real("error", 0.1, 10); } for (int i = 0; i < np; i++) { k[i] = k0[i] = vx_real("kernel", 0.1, 5); kx[i] = i; ks += k0[i]; }
  int good[5], ng = 0; int bad = mk == 3 ? vx_pick("not finite", 0, n - 1) : -1; for (int i = 0; i < n; i++) { good[i] = mk == 0 || mk == 3 || (mk == 1 && i != 0) || (mk == 2 && i != n - 1) || (mk == 4 && i == 1); if (mk == 3) good[i] = 1; mv[i] = fm ? good[i] : 1 - good[i]; if (i == bad) { d[i] = vx_pick("which", 0, 1) ? NAN : INFINITY; good[i] = 0; } ng += good[i]; }
  { M1 m; m.SetVerboseLevel(-1); std::vector<int> sets; int npar = 0, cnt[3]; for (int i = 0; i < nf; i++) { cnt[i] = 1 + (i & 1); m.AddFunction(new S1(i, cnt[i])); if (i == 0 || i == lay) { sets.push_back(i); npar++; } npar += cnt[i]; } m.DefineFunctionSets(sets); m.PopulateParameterNames(); CK(m.GetNParams() == npar, "number of parameters"); double zp = vx_real("zero point", 0, 30); m.SetZeroPoint(zp); m.AddDataVectors(n, x, d, mags); if (wk) m.AddErrorVector1D(n, e, wk == 1 ? WEIGHTS_ARE_SIGMAS : WEIGHTS_ARE_VARIANCES); if (mk && mk != 3) CK(m.AddMaskVector1D(n, mv, fm ? MASK_ZERO_IS_BAD : MASK_ZERO_IS_GOOD) == 0, "mask accepted"); if (np) CK(m.AddPSFVector1D(np, kx, k) == 0, "PSF accepted"); int st = m.FinalSetupForFitting(); CK(st == 0, "set-up succeeds"); vx_check(m.GetNValidPixels() == ng, "number of valid points");
    for (int i = 0; i < n; i++) w[i] = !wk ? 1 : wk == 1 ? 1 / er[i] : 1 / sqrt(er[i]);
    for (int round = 0; round < 2; round++) { double p[12]; for (int i = 0; i < npar; i++) p[i] = vx_real("parameter", -50, 50); double out[6]; for (int i = 0; i < 6; i++) out[i] = 77; double dev[6]; for (int i = 0; i < 6; i++) dev[i] = 77; int how = round ? vx_pick("how", 0, 2) : 0; long ix[5]; int nb = 0;
      if (how == 2) { for (int i = 0; i < n; i++) if (good[i]) ix[nb++] = i; if (nb > 1) { ix[0] = ix[nb - 1]; } if (nb < 1) vx_end(); m.boot(nb, ix); }
      if (how == 0) m.CreateModelImage(p); if (how == 1) { double s = m.st(p); CK(s == 9, "statistic from the norm of the deviates"); CK(NN == n, "norm over all points"); } if (how == 2) m.ComputeDeviates(dev, p); if (how == 0) m.ComputeDeviates(dev, p);
      CK(m.GetModelVector(out) == n, "length of the profile"); CK(out[n] == 77, "nothing past the profile"); double val[16]; for (int i = 0; i < n + 2 * np; i++) { double s = 0, xx = 2.5 + 0.25 * (i - np), x0 = 0; int o = 0; for (int f = 0; f < nf; f++) { if (f == 0 || f == lay) x0 = p[o++]; s += S1::val(f, StubFunc::state(f, p + o, cnt[f]), x0, xx); o += cnt[f]; } val[i] = s; }
      double mod[5]; for (int i = 0; i < n; i++) { if (mags) mod[i] = zp - 2.5 * log10(val[i]); else if (np) { double s = 0; for (int j = 0; j < np; j++) s += k0[j] / ks * val[np + i - (j - np / 2)]; mod[i] = s; } else mod[i] = val[i]; vx_check_real(out[i], mod[i], 1e-8, "profile value"); }
      double* got = how == 1 ? NV : dev; if (how == 2) { for (int i = 0; i < nb; i++) vx_check_real(got[i], w[ix[i]] * (d[ix[i]] - out[ix[i]]), 1e-8, "deviate of a resampled point"); for (int i = nb; i < n; i++) CK(got[i] == 0, "no deviate beyond the resampled points"); } else for (int i = 0; i < n; i++) { if (good[i]) vx_check_real(got[i], w[i] * (d[i] - out[i]), 1e-8, "deviate"); else if (i == bad) CK(got[i] == 0, "point without a value does not count"); else vx_check_real(got[i], 0, 1e-9, "masked point does not count"); } CK(dev[n] == 77, "nothing past the deviates"); vx_reach("profile"); } }
  free(x); free(d); free(e); free(k); free(kx); free(mv); }
