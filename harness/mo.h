// Shared pieces of the model-level harnesses: stand-in image functions whose pixel values are arbitrary (uninterpreted) functions of
// everything they were set up with, and a small builder for ModelObject instances.
#pragma once
#include "vx.h"
#include <cmath>
#include <string>
#include <vector>
#include <cstdlib>
#include <cstdio>
#include "definitions.h"
#include "function_object.h"
#include "model_object.h"
#include "mersenne_twister.h"
struct StubFunc : public FunctionObject {
  int id; double x0, y0, st; bool ps, bg, tf; int np; std::vector<double> got; int osamp = 1; PsfInterpolator* interp = nullptr;
  StubFunc(int id_, int n, bool ps_ = false, bool bg_ = false, bool tf_ = false) : id(id_), ps(ps_), bg(bg_), tf(tf_), np(n) {
    nParams = n; functionName = "stub"; shortFunctionName = "Stub"; isBackground = bg_; x0 = y0 = st = 0;
    for (int i = 0; i < n; i++) { char b[16]; snprintf(b, 16, "p%d_%d", id_, i); parameterLabels.push_back(b); } }
  static double state(int id, const double* p, int n) { double s = id + 0.5; for (int i = 0; i < n; i += 2) s = vx_uf("st", s, p[i], i + 1 < n ? p[i + 1] : 0.0, i); return s; }
  static double& LO() { static double v = 0; return v; } static double& HI() { static double v = 0; return v; }   // optional range of the pixel values
  static double value(int id, double st, double x0, double y0, double x, double y) { if (HI() > LO()) return vx_ufr("pix", vx_uf("pos", x0, y0, x, y), st, id, 0, LO(), HI()); return vx_uf("pix", vx_uf("pos", x0, y0, x, y), st, id, 0); }
  void Setup(double params[], int off, double xc, double yc) { x0 = xc; y0 = yc; got.assign(params + off, params + off + np); st = state(id, params + off, np); }
  double GetValue(double x, double y) { return value(id, st, x0, y0, x, y); }
  bool IsPointSource() { return ps; }
  std::string GetInterpolationType() { return "bicubic"; }
  void AddPsfInterpolator(PsfInterpolator* p) { interp = p; }
  void SetOversamplingScale(int s) { osamp = s; }
  bool CanCalculateTotalFlux() { return tf; }
  double TotalFlux() { return vx_uf("flux", st, id, 0, 0); }
};
static inline double* dalloc(long n) { return (double*)calloc(n ? n : 1, sizeof(double)); }
