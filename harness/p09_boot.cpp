// P09: bootstrap resampling. Random draws are arbitrary values of the generator's documented interval.
#include "multi.h"
#include "definitions.h"
extern double conv_lo, conv_hi; extern int conv_pixels;
extern "C" double __wrap__Z8mp_enormiPKd(int n, const double* x) { double s = 0; for (int i = 0; i < n; i++) s += x[i] * x[i]; return std::sqrt(s); }   // the norm is the subject of P08
// any value of [0,1) on the generator's 2^-32 grid: which of `cells` equal parts it falls into is picked, its place inside is symbolic
static int budget, cells = 1;
extern "C" double __wrap__Z13genrand_real2v() { if (budget-- <= 0) vx_end(); const double g = 4294967296.0; int c = vx_pick("cell", 0, cells - 1); double lo = std::ceil(c * g / cells), hi = std::ceil((c + 1) * g / cells) - 1; return vx_real("draw", lo / g, hi / g); }
struct BM : public ModelObject { long* idx() { return bootstrapIndices; } };
static double term(int stat, double w, double m, double d, double gain, double sky) { if (stat == 2) { double r = w * (d - m); return r * r; } double M = gain * (m + sky), D = gain * (d + sky); return 2 * (M - D * std::log(M) + (stat == 6 ? D * std::log(D) - D : 0.0)); }
// every index is a valid pixel, every valid pixel can be drawn, statistic and deviates use exactly the resampled pixels
extern "C" void p09_single() { vx_option("realarith", 1); int shape = vx_pick("shape", 0, TIER > 1 ? 4 : 3); int nc = shape == 0 ? 1 : shape == 1 ? 2 : shape == 2 ? 1 : shape == 3 ? 3 : 2, nr = shape == 0 ? 2 : shape == 1 ? 1 : shape == 2 ? 3 : shape == 3 ? 1 : 2, n = nc * nr; int stat = (int[]){2, 5, 6}[vx_pick("statistic", 0, 2)], pc = vx_pick("psf", 0, 1) ? 1 : 0, pr = pc ? 2 : 0, mask = vx_pick("mask", 0, (1 << n) - 2), rounds = TIER > 1 ? 2 : 1, late = vx_pick("masked", 0, 0);
  StubFunc::LO() = 1; StubFunc::HI() = 100; conv_lo = 1; conv_hi = 100; conv_pixels = (nc + 2 * pc) * (nr + 2 * pr); double* d = dalloc(n); double* e = dalloc(n); double* mk = dalloc(n); double* psf = dalloc(2); psf[0] = 0.25; psf[1] = 0.75; double d0[8], e0[8]; double p[4]; for (int i = 0; i < 4; i++) p[i] = vx_real("p", -50, 50); int nv = 0;
  for (int i = 0; i < n; i++) { d[i] = vx_real("data", 1, 100); e[i] = vx_real("error", 0.5, 20); mk[i] = (mask >> i) & 1; nv += !((mask >> i) & 1); d0[i] = d[i]; e0[i] = e[i]; }
  BM* mo = new BM; mo->SetVerboseLevel(-1); mo->AddFunction(new StubFunc(0, 1)); std::vector<int> st; st.push_back(0); mo->DefineFunctionSets(st); mo->PopulateParameterNames(); if (pc) mo->AddPSFVector(2, pc, pr, psf, false); mo->AddImageDataVector(d, nc, nr); mo->AddImageCharacteristics(2.5, 0, 1, 1, 3.0); if (stat == 2) mo->AddErrorVector(n, nc, nr, e, WEIGHTS_ARE_SIGMAS); else if (stat == 5) mo->UseCashStatistic(); else mo->UsePoissonMLR(); if (mask) mo->AddMaskVector(n, nc, nr, mk, MASK_ZERO_IS_GOOD); mo->FinalModelSetup(); vx_check(mo->FinalSetupForFitting() == 0, "accepted");
  budget = nv + 1; cells = n; vx_check(mo->UseBootstrap() == 0, "bootstrap mode accepted"); for (int r = 0; r < rounds - 1; r++) { budget = nv + 1; mo->MakeBootstrapSample(); } vx_check(mo->GetNValidPixels() == nv, "as many resampled pixels as valid ones"); long* ix = mo->idx(); char tag[32];
  for (int i = 0; i < nv; i++) { vx_check(ix[i] >= 0 && ix[i] < n, "index inside the image"); vx_check(!((mask >> ix[i]) & 1), "index of an unmasked pixel"); } for (int k = 0; k < n; k++) if (ix[0] == k) { snprintf(tag, 32, "n%d_m%d_p%d", shape, mask, k); vx_reach(tag); }
  double* dev = dalloc(nv); if (stat != 5) mo->ComputeDeviates(dev, p); double s = mo->GetFitStatistic(p), ex = 0; double* mv = mo->GetModelImageVector();
  for (int i = 0; i < nv; i++) { int b = 0; for (int k = 0; k < n; k++) if (ix[i] == k) b = k; double w = stat == 2 ? 1 / e0[b] : 1.0, t = term(stat, w, mv[b], d0[b], 2.5, 3.0); ex += t; if (stat == 2) vx_check_real(dev[i], w * (d0[b] - mv[b]), 1e-9, "deviate of the resampled pixel"); else if (stat == 6) vx_check_real(dev[i] * dev[i] * dev[i] * dev[i], t * t, 1e-9, "deviate of the resampled pixel"); }
  vx_check_real(s, ex, 1e-9, "statistic is the sum over the resampled pixels"); delete mo; free(dev); free(d); free(e); free(mk); free(psf); }
// multi-image: the deviates of every image's sample fill the output without gaps or overruns
extern "C" void p09_multi() { vx_option("realarith", 1); int ni = vx_pick("images", 2, TIER > 1 ? 3 : 2), stat = vx_pick("statistic", 0, 1) ? 6 : 2; StubFunc::LO() = 1; StubFunc::HI() = 100; std::vector<ImageSpec> sp; std::vector<int> masks; int tot = 0;
  for (int i = 0; i < ni; i++) { ImageSpec s; s.nc = i == 0 ? 2 : 1; s.nr = i == 1 ? 2 : 1; int n = s.nc * s.nr; int m = vx_pick("mask", 0, (1 << n) - 2); masks.push_back(m); s.useMask = m != 0; s.useErr = true; s.gain = 2.5; s.sky = 3; for (int k = 0; k < n; k++) { s.data.push_back(vx_real("data", 1, 100)); s.err.push_back(vx_real("error", 0.5, 20)); s.mask.push_back((m >> k) & 1); tot += !((m >> k) & 1); } sp.push_back(s); }
  Multi M; std::vector<int> f; f.push_back(1); std::vector<int> sets; sets.push_back(0); M.build(f, sets, sp, stat); vx_check(M.mm->FinalSetupForFitting() == 0, "accepted"); double p[16]; int np = M.mm->GetNParams(); for (int i = 0; i < np; i++) p[i] = i < np - 3 && i % 5 == 0 ? 1.0 : i < np - 3 && i % 5 == 1 ? 0.0 : vx_real("p", 1, 50);
  cells = 2; budget = tot + 1; vx_check(M.mm->UseBootstrap() == 0, "bootstrap mode accepted"); budget = tot + (TIER > 1 ? 1 : 0); vx_check(M.mm->MakeBootstrapSample() == 0, "sample drawn"); vx_check(M.mm->GetNValidPixels() == tot, "as many resampled pixels as valid ones");
  double* dev = dalloc(tot); M.mm->ComputeDeviates(dev, p); double s = M.mm->GetFitStatistic(p), ex = 0; int z = 0; for (int i = 0; i < ni; i++) { long* ix = M.im[i]->indices(); double* mv = M.mm->GetModelImageVector(i); int n = sp[i].nc * sp[i].nr; for (int k = 0; k < M.im[i]->GetNValidPixels(); k++, z++) { vx_check(ix[k] >= 0 && ix[k] < n && !((masks[i] >> ix[k]) & 1), "index of an unmasked pixel of its own image"); int b = 0; for (int j = 0; j < n; j++) if (ix[k] == j) b = j; double w = stat == 2 ? 1 / sp[i].err[b] : 1.0, t = term(stat, w, mv[b], sp[i].data[b], 2.5, 3.0); ex += t; if (stat == 2) vx_check_real(dev[z], w * (sp[i].data[b] - mv[b]), 1e-9, "deviate in its own slot"); else vx_check_real(dev[z] * dev[z] * dev[z] * dev[z], t * t, 1e-9, "deviate in its own slot"); } }
  vx_check_real(s, ex, 1e-9, "statistic is the sum over the images' resampled pixels"); vx_reach("multi"); free(dev); }
