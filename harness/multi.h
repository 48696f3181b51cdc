// Builder of multi-image models out of stand-in components.
#pragma once
#include "mo.h"
#include "model_object_multimage.h"
#include <memory>
struct MStub : public StubFunc {   // a component that also depends on the image description
  MStub(int id_, int n) : StubFunc(id_, n) {}
  static double mstate(int id, const double* p, int n, double ps, double rot, double is) { return vx_uf("im", StubFunc::state(id, p, n), ps, rot, is); }
  void Setup(double params[], int off, double xc, double yc) { StubFunc::Setup(params, off, xc, yc); st = mstate(id, params + off, np, 1.0 / pixelScaling, imageRotation, intensityScale); }
};
struct ImageSpec { int nc, nr; std::vector<double> data, err, mask; std::vector<int> localFuncs, localSets; bool useErr = false, useMask = false; double gain = 1, sky = 0; int ox = 1, oy = 1; };
struct MModel : public ModelObject { long* indices() { return bootstrapIndices; } };
struct Multi { ModelObjectMultImage* mm = nullptr; ModelObjectMultImage* given = nullptr; std::vector<MModel*> im; std::vector<std::vector<double*>> keep;
  // funcs: parameters per component, sets: indices of set starts; stat: 2 chi-squared, 5 Cash, 6 Poisson-MLR
  void build(const std::vector<int>& funcs, std::vector<int> sets, std::vector<ImageSpec>& specs, int stat) {
    mm = given ? given : new ModelObjectMultImage; mm->SetVerboseLevel(-1);
    for (auto& s : specs) { MModel* m = new MModel; im.push_back(m); m->SetVerboseLevel(-1); long n = (long)s.nc * s.nr; double* d = dalloc(n); for (long i = 0; i < n; i++) d[i] = s.data[i]; std::vector<double*> k; k.push_back(d); m->AddImageDataVector(d, s.nc, s.nr); m->AddImageCharacteristics(s.gain, 0, 1, 1, s.sky);
      if (s.useMask) { double* q = dalloc(n); for (long i = 0; i < n; i++) q[i] = s.mask[i]; k.push_back(q); m->AddMaskVector(n, s.nc, s.nr, q, MASK_ZERO_IS_GOOD); }
      if (stat == 5) m->UseCashStatistic(); else if (stat == 6) m->UsePoissonMLR(); else if (s.useErr) { double* q = dalloc(n); for (long i = 0; i < n; i++) q[i] = s.err[i]; k.push_back(q); m->AddErrorVector(n, s.nc, s.nr, q, WEIGHTS_ARE_SIGMAS); }
      keep.push_back(k); m->AddImageOffsets(s.ox, s.oy); std::vector<int> st = sets; int nf = 0; for (int np : funcs) { m->AddFunction(new MStub(nf, np), true); nf++; }
      for (size_t i = 0; i < s.localFuncs.size(); i++) m->AddFunction(new MStub(100 + im.size() * 10 + i, s.localFuncs[i]), false); for (int x : s.localSets) st.push_back((int)funcs.size() + x);
      m->DefineFunctionSets(st); m->PopulateParameterNames(); m->FinalModelSetup(); mm->AddModelObject(m); }
    int nf = 0; for (int np : funcs) { mm->AddFunction(new MStub(nf, np)); nf++; } mm->DefineFunctionSets(sets); mm->PopulateParameterNames(); mm->FinalModelSetup(); if (stat == 5) mm->UseCashStatistic(); else if (stat == 6) mm->UsePoissonMLR(); }
  ~Multi() { delete mm; for (auto& k : keep) for (double* p : k) free(p); }
};
