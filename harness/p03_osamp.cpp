// P03: oversampled regions replace exactly their own pixels by block means
#include "mo.h"
#include "downsample.h"
#include "oversampled_region.h"
#include "psf_oversampling_info.h"
extern "C" void p03_downsample() { vx_option("realarith", 1);
  int s = vx_pick("scale", 1, 3), w = vx_pick("width", 1, 3), h = vx_pick("height", 1, 3), opc = vx_pick("opsfcols", 0, 2), opr = vx_pick("opsfrows", 0, 1), pc = vx_pick("psfcols", 0, 1), pr = vx_pick("psfrows", 0, 2); int x1 = vx_pick("x1", 1, 2), y1 = vx_pick("y1", 1, 2);
  int nc = x1 + w - 1 + (x1 & 1), nr = y1 + h - 1; int NC = nc + 2 * pc, NR = nr + 2 * pr, OC = w * s + 2 * opc, OR_ = h * s + 2 * opr; 
  double *os = dalloc(OC * OR_), *im = dalloc(NC * NR), *im0 = dalloc(NC * NR); for (int i = 0; i < OC * OR_; i++) os[i] = vx_real("o", -100, 100); for (int i = 0; i < NC * NR; i++) im[i] = im0[i] = vx_real("m", -100, 100);
  DownsampleAndReplace(os, OC, OR_, opc, opr, im, NC, NR, pc, pr, x1, y1, s, 0); vx_reach("downsampled");
  for (int r = 0; r < NR; r++) for (int c = 0; c < NC; c++) { int rr = r - pr - (y1 - 1), cc = c - pc - (x1 - 1); if (rr >= 0 && rr < h && cc >= 0 && cc < w) { double a = 0; for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) a += os[(opr + rr * s + i) * OC + opc + cc * s + j]; vx_check_real(im[r * NC + c], a / (s * s), 1e-9, "region pixel is the block mean"); } else vx_check(vx_same(im[r * NC + c], im0[r * NC + c]), "pixel outside the region unchanged"); }
  free(os); free(im); free(im0);
}
// through OversampledRegion: sub-pixel coordinates, with a 1-pixel PSF of arbitrary value or none
static double expected(int s, int x, int y, double st0, double st1, double x0, double y0, int nf) { double a = 0; for (int i = 0; i < s; i++) for (int j = 0; j < s; j++) for (int f = 0; f < nf; f++) a += StubFunc::value(f, f ? st1 : st0, x0, y0, x - 0.5 + (j + 0.5) / s, y - 0.5 + (i + 0.5) / s); return a / (s * s); }
extern "C" void p03_region() { vx_option("realarith", 1);
  int s = vx_pick("scale", 1, 4), w = vx_pick("width", 1, 2), h = vx_pick("height", 1, 3), x1 = vx_pick("x1", 1, 2), y1 = vx_pick("y1", 1, TIER > 1 ? 3 : 1), nf = vx_pick("components", 1, 2); bool psf = vx_pick("psf", 0, 1); int pc = vx_pick("mainpsfcols", 0, 1), pr = TIER > 1 ? vx_pick("mainpsfrows", 0, 2) : 2 * (1 - pc);
  int NC = x1 + w + 2 * pc, NR = y1 + h + 2 * pr; double *im = dalloc(NC * NR), *im0 = dalloc(NC * NR); for (int i = 0; i < NC * NR; i++) im[i] = im0[i] = vx_real("m", -100, 100);
  double p[4]; for (int i = 0; i < 4; i++) p[i] = vx_real("p", -100, 100); double kv = 1; double* k = dalloc(1);
  std::vector<FunctionObject*> fv; for (int f = 0; f < nf; f++) { fv.push_back(new StubFunc(f, 1)); fv[f]->Setup(p, 2 + f, p[0], p[1]); }
  { OversampledRegion R; if (psf) { kv = k[0] = vx_real("k", 0.1, 10); R.AddPSFVector(k, 1, 1, false); } int st = R.SetupModelImage(x1, y1, w, h, NC, NR, pc, pr, s); vx_check(st == 0, "region set up"); R.ComputeRegionAndDownsample(im, fv, nf); vx_reach("region"); }
  double s0 = StubFunc::state(0, p + 2, 1), s1 = StubFunc::state(1, p + 3, 1);
  for (int r = 0; r < NR; r++) for (int c = 0; c < NC; c++) { int y = r - pr + 1, x = c - pc + 1; if (x >= x1 && x < x1 + w && y >= y1 && y < y1 + h) vx_check_real(im[r * NC + c], kv * expected(s, x, y, s0, s1, p[0], p[1], nf), 1e-8, "region pixel is the mean of its sub-pixels"); else vx_check(vx_same(im[r * NC + c], im0[r * NC + c]), "pixel outside the region unchanged"); }
  for (auto f : fv) delete f; free(im); free(im0); free(k);
}
// through the model: region given as text and image offset, clipped to the image, with and without main PSF
extern "C" void p03_model() { vx_option("realarith", 1);
  int nc = vx_pick("columns", 2, 3), nr = vx_pick("rows", 2, TIER > 1 ? 4 : 3), s = vx_pick("scale", 1, 2), xo = vx_pick("xoffset", 0, 1) * 3, yo = xo ? 2 : 0; int x1 = vx_pick("x1", 0, 2), x2 = vx_pick("x2", x1 + 1, nc + 1), y1 = vx_pick("y1", 0, 2), y2 = vx_pick("y2", y1 + 1, nr + 1); bool main = vx_pick("mainpsf", 0, 1); int two = vx_pick("tworegions", 0, 1);
  if (x1 + xo < 1 || y1 + yo < 1) vx_end();
  if (two && (x1 != 1 || y1 != 1)) vx_end();
  double* k = dalloc(1); k[0] = 1; double* k2 = dalloc(1); k2[0] = 1; double* mp = dalloc(2); mp[0] = 0; mp[1] = 1; char b[64]; snprintf(b, 64, "%d:%d,%d:%d", x1 + xo, x2 + xo, y1 + yo, y2 + yo);
  { ModelObject m; m.SetVerboseLevel(-1); m.AddFunction(new StubFunc(0, 1)); std::vector<int> start; start.push_back(0); m.DefineFunctionSets(start); m.PopulateParameterNames(); m.FinalModelSetup(); if (main) m.AddPSFVector(2, 2, 1, mp, false); m.SetupModelImage(nc, nr);
    PsfOversamplingInfo* info = new PsfOversamplingInfo(k, 1, 1, s, b, xo, yo, false, false); int st = m.AddOversampledPsfInfo(info); vx_check(st == 0, "region accepted");
    PsfOversamplingInfo* info2 = nullptr; if (two) { snprintf(b, 64, "%d:%d,%d:%d", nc - 1 + xo, nc + xo, nr - 1 + yo, nr + yo); info2 = new PsfOversamplingInfo(k2, 1, 1, 3, b, xo, yo, false, false); st = m.AddOversampledPsfInfo(info2); vx_check(st == 0, "second region accepted"); }
    double p[3]; for (int i = 0; i < 3; i++) p[i] = vx_real("p", -100, 100); double s0 = StubFunc::state(0, p + 2, 1); m.CreateModelImage(p); double* im = m.GetModelImageVector(); vx_reach("model");
    for (int y = 1; y <= nr; y++) for (int x = 1; x <= nc; x++) { bool in = x >= x1 && x <= x2 && y >= y1 && y <= y2; bool in2 = two && x >= nc - 1 && y >= nr - 1; double e = in2 ? expected(3, x, y, s0, 0, p[0], p[1], 1) : in ? expected(s, x, y, s0, 0, p[0], p[1], 1) : StubFunc::value(0, s0, p[0], p[1], x, y); vx_check_real(im[(y - 1) * nc + x - 1], e, 1e-8, in2 || in ? "region pixel of the model image" : "other pixel of the model image"); }
    delete info; delete info2; }
  free(k); free(k2); free(mp);
}
