// P29: whatever the order and extent of the set-up, and whatever is asked of the model, its memory is used properly; it can be destroyed at any point
#include "multi.h"
#include "psf_oversampling_info.h"
extern "C" double __wrap__Z8mp_enormiPKd(int n, const double* x) { double s = n; for (int i = 0; i < n; i++) s = vx_ufr("norm", s, x[i], 0, 0, 1, 1000); return s; }
static const int PC[5] = {0, 2, 1, 3, 4}, PR[5] = {0, 1, 2, 2, 4};
static double sink = 0; static void use(double* p, long n) { if (p) for (long i = 0; i < n; i++) { unsigned long long u; __builtin_memcpy(&u, p + i, 8); if (u == 0x7ff4deadbeef0001ull) sink = 1; } }
struct Life { int nc, nr, ps, regions, stat, mask, fitting; std::vector<double*> keep; double* arr(long n, double v) { double* p = dalloc(n); for (long i = 0; i < n; i++) p[i] = v + i % 3; keep.push_back(p); return p; }
  double* pixels() { double* p = dalloc(16); for (int i = 0; i < 16; i++) p[i] = 1 + i; return p; }   // released by its owner
  ModelObject* m = nullptr; std::vector<PsfOversamplingInfo*> info;
  void functions() { m->AddFunction(new StubFunc(0, 1)); m->AddFunction(new StubFunc(1, 2, ps == 4)); std::vector<int> st; st.push_back(0); st.push_back(1); m->DefineFunctionSets(st); m->PopulateParameterNames(); }
  void image() { if (ps) m->AddPSFVector((long)PC[ps] * PR[ps], PC[ps], PR[ps], arr((long)PC[ps] * PR[ps], 1), (TIER > 1 ? vx_pick("normalise", 0, 1) : 1)); if (fitting) { m->AddImageDataVector(arr((long)nc * nr, 20), nc, nr); m->AddImageCharacteristics(2, 1, 1, 1, 1e8); } else m->SetupModelImage(nc, nr); }
  void extras() { long n = (long)nc * nr; for (int i = 0; i < regions; i++) { PsfOversamplingInfo* in = new PsfOversamplingInfo(i ? pixels() : arr(16, 1), ps == 4 ? 4 : 2, ps == 4 ? 4 : 1 + i, 2, i ? "1:2,1:2" : "2:9,1:3", 0, 0, i, true); info.push_back(in); m->AddOversampledPsfInfo(in); } if (!fitting) return; bool before = mask && vx_pick("mask before errors", 0, 1); double* mv = nullptr; if (mask) { mv = arr(n, 0); for (long i = 0; i < n; i++) mv[i] = i % 2; } if (mask && before) m->AddMaskVector(n, nc, nr, mv, MASK_ZERO_IS_GOOD); if (stat == 1) m->AddErrorVector(n, nc, nr, arr(n, 1), WEIGHTS_ARE_VARIANCES); if (stat == 2) m->UseModelErrors(); if (stat == 3) m->UseCashStatistic(); if (stat == 4) m->UsePoissonMLR(); if (mask && !before) m->AddMaskVector(n, nc, nr, mv, MASK_ZERO_IS_GOOD); }
  void ask(int k, double* p) { long n = (long)nc * nr; double out[16]; for (int i = 0; i < 16; i++) out[i] = 0; switch (k) { case 0: m->CreateModelImage(p); use(m->GetModelImageVector(), n); break; case 1: use(m->GetSingleFunctionImage(p, 1), n); break; case 2: use(m->GetSingleFunctionImage(p, 0), n); break; case 3: if (fitting) { m->GetFitStatistic(p); use(m->GetResidualImageVector(), n); } break; case 4: if (fitting) { m->ComputeDeviates(out, p); use(out, n); } break; case 5: m->FindTotalFluxes(p, 2, 1, out); break; case 6: if (fitting) { use(m->GetWeightImageVector(), n); use(m->GetDataVector(), n); } use(m->GetExpandedModelImageVector(), 1); break; case 7: if (fitting) { m->GetFitStatistic(p); m->UseBootstrap(); m->MakeBootstrapSample(); if (stat != 3) { m->ComputeDeviates(out, p); use(out, n); } m->GetFitStatistic(p); } break; case 8: { use(m->GetModelImageVector(), n); if (fitting) use(m->GetResidualImageVector(), n); break; } case 9: { std::vector<std::string> v; m->GetFunctionNames(v); m->GetFunctionLabels(v); m->GetParameterName(3); m->WhichFitStatistic(); m->GetNValidPixels(); break; } } }
  ~Life() { delete m; for (auto o : info) delete o; for (double* p : keep) free(p); } };
static void life(int ops) { Life L; StubFunc::LO() = 1000; StubFunc::HI() = 1001; vx_option("realbranch", 1); int kind = vx_pick("PSF and statistic", 0, 29); L.fitting = kind >= 5; L.ps = kind % 5; L.nr = TIER > 1 ? vx_pick("rows", 2, 3) : 2 + (kind & 1); L.nc = L.nr == 3 ? 2 : 3; L.regions = TIER > 1 ? vx_pick("regions", 0, 2) : 2 * vx_pick("regions", 0, 1); if (TIER == 1 && (L.ps == 3 || (L.ps && kind >= 15))) vx_end(); if (L.regions && kind >= 15 && TIER == 1) vx_end(); L.stat = L.fitting ? kind / 5 - 1 : 0; L.mask = L.fitting ? vx_pick("mask", 0, 1) : 0; L.m = new ModelObject; L.m->SetVerboseLevel(-1);
  int stop = vx_pick("stop after", 0, 4); bool late = stop >= 2 && vx_pick("functions after image", 0, 1); if (stop < 4 && ops > 1) vx_end(); if (stop == 0) return; if (!late) L.functions(); if (stop == 1) return; L.image(); if (late) L.functions(); if (stop == 2) return; L.extras(); if (L.ps == 4 && late) L.m->SetupPsfInterpolation(); if (stop == 3) return; if (L.fitting) { int st = L.m->FinalSetupForFitting(); if (st) return; } else L.m->FinalModelSetup(); double p[8]; for (int i = 0; i < 8; i++) p[i] = vx_real("p", -100, 100); for (int i = 0; i < ops; i++) L.ask(vx_pick("operation", 0, 9), p); vx_reach("life"); }
extern "C" void p29_life() { life(1); }
extern "C" void p29_sequence() { life(2); }
extern "C" void p29_multi() { StubFunc::LO() = 1000; StubFunc::HI() = 1001; vx_option("realbranch", 1); int stat = vx_pick("statistic", 0, 2), mask = vx_pick("mask", 0, 1), err = stat ? 0 : vx_pick("errors", 0, 1), n = vx_pick("images", 1, 3); std::vector<int> funcs, sets; funcs.push_back(2); funcs.push_back(1); sets.push_back(0); if (vx_pick("sets", 0, 1)) sets.push_back(1); std::vector<ImageSpec> sp; for (int i = 0; i < n; i++) { ImageSpec s; s.nc = 1 + i; s.nr = 1 + i % 2; s.useErr = err; for (int j = 0; j < s.nc * s.nr; j++) { s.data.push_back(vx_real("data", 10, 100)); s.err.push_back(vx_real("error", 0.5, 3)); s.mask.push_back(i && j && mask); } s.useMask = i && mask; if (i) { s.localFuncs.push_back(i); s.localSets.push_back(0); } sp.push_back(s); }
  Multi u; u.build(funcs, sets, sp, stat == 0 ? 2 : stat + 4); int stop = vx_pick("stop", 0, 1); if (stop == 0) return; u.mm->FinalSetupForFitting(); int np = u.mm->GetNParams(); double p[40], out[40]; for (int i = 0; i < 40; i++) { out[i] = 0; p[i] = 0; } for (int i = 0; i < np && i < 40; i++) p[i] = vx_real("p", 1, 4);
  for (int k = 0; k < 2; k++) switch (vx_pick("operation", 0, 4)) { case 0: u.mm->CreateAllModelImages(p); for (int i = 0; i < n; i++) use(u.mm->GetModelImageVector(i), sp[i].nc * sp[i].nr); break; case 1: u.mm->GetFitStatistic(p); break; case 2: if (stat != 1) { u.mm->ComputeDeviates(out, p); use(out, u.mm->GetNDataValues()); } break; case 3: u.mm->UseBootstrap(); u.mm->MakeBootstrapSample(); if (stat != 1) { u.mm->ComputeDeviates(out, p); use(out, u.mm->GetNValidPixels()); } break; case 4: for (int i = 0; i < np; i++) u.mm->GetParameterName(i); for (int i = 0; i < n; i++) { u.mm->GetDataFilename(i); u.mm->GetOffsetsForImage(i); u.mm->GetImageDimensions(i); } break; } vx_reach("multi"); }
