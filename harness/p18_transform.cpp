// P18, P19: per-image parameter vectors and the multi-image statistic.
#include "multi.h"
#include "definitions.h"
extern "C" double __wrap__Z8mp_enormiPKd(int n, const double* x) { double s = 0; for (int i = 0; i < n; i++) s += x[i] * x[i]; return std::sqrt(s); }   // the norm is the subject of P08
static double term(int stat, double w, double m, double d, double gain, double sky) { if (stat == 2) { double r = w * (d - m); return r * r; } double M = gain * (m + sky), D = gain * (d + sky); return 2 * (M - D * std::log(M) + (stat == 6 ? D * std::log(D) - D : 0.0)); }
struct Shape { std::vector<int> f, sets; int ni; std::vector<std::vector<int>> lf, ls; int nglob, ntot; };
static Shape shape(int maximg, int maxloc) { Shape s; int lay = vx_pick("layout", 0, TIER > 1 ? 6 : 4); s.sets.push_back(0); int np[7][3] = {{1, -1, -1}, {2, 1, -1}, {1, 2, -1}, {1, 0, 2}, {2, 1, 1}, {0, 1, 2}, {1, 1, 1}}; for (int k = 0; k < 3 && np[lay][k] >= 0; k++) s.f.push_back(np[lay][k]); if (lay == 2 || lay == 4 || lay == 6 || lay == 5) s.sets.push_back(1); if (lay == 3 || lay == 6) s.sets.push_back(2); s.ni = vx_pick("images", 1, maximg); s.nglob = 2 * s.sets.size(); for (int x : s.f) s.nglob += x; s.ntot = s.nglob + 5 * (s.ni - 1);
  for (int i = 0; i < s.ni; i++) { int l = vx_pick("local", 0, maxloc); std::vector<int> lf, ls; if (l) { lf.push_back(2); ls.push_back(0); } if (l == 2) { lf.push_back(1); } if (l == 3) { lf.push_back(1); ls.push_back(1); } s.lf.push_back(lf); s.ls.push_back(ls); s.ntot += 2 * ls.size(); for (int x : lf) s.ntot += x; } return s; }
static const double ANG[12] = {0, 30, 90, -60, 137.5, 180, 360, -90, 45, 270, -180, 12.25};
struct PM : public MModel { FunctionObject* fo(int k) { return functionObjects[k]; } };
// expected parameters of component c of image i: centre and own parameters; ang: rotation of each image (degrees)
struct Expect { double x0, y0; std::vector<double> p; };
static std::vector<Expect> expected(const Shape& s, const double* P, int im, double angle, bool* local) { std::vector<Expect> r; int ip = 5 * (s.ni - 1); double cx = 0, cy = 0, rx = 0, ry = 0; int z = ip; size_t set = 0; double th = angle * 3.14159265358979323846 / 180, c = std::cos(th), sn = std::sin(th);
  for (size_t k = 0; k < s.f.size(); k++) { if (set < s.sets.size() && s.sets[set] == (int)k) { double x = P[z], y = P[z + 1]; z += 2; if (set == 0) { rx = x; ry = y; } if (im == 0) { cx = x; cy = y; } else { const double* D = P + 5 * (im - 1); if (set == 0) { cx = D[3]; cy = D[4]; } else { double dx = x - rx, dy = y - ry; cx = D[3] + D[0] * (c * dx + sn * dy); cy = D[4] + D[0] * (c * dy - sn * dx); } } set++; } Expect e; e.x0 = cx; e.y0 = cy; for (int i = 0; i < s.f[k]; i++) e.p.push_back(P[z++]); r.push_back(e); }
  for (int i = 0; i < im; i++) { z += 2 * s.ls[i].size(); for (int x : s.lf[i]) z += x; } set = 0; for (size_t k = 0; k < s.lf[im].size(); k++) { if (set < s.ls[im].size() && s.ls[im][set] == (int)k) { cx = P[z]; cy = P[z + 1]; z += 2; set++; } Expect e; e.x0 = cx; e.y0 = cy; for (int i = 0; i < s.lf[im][k]; i++) e.p.push_back(P[z++]); r.push_back(e); } return r; }
static void params(const Shape& s, double* P, double* ang, int rots) { for (int i = 0; i < s.ntot; i++) { int m = i % 5; if (i < 5 * (s.ni - 1)) { if (m == 0 || m == 2) P[i] = vx_real("scale", 0.1, 10); else if (m == 1) P[i] = ang[i / 5 + 1] = ANG[vx_pick("rotation", 0, rots)]; else P[i] = vx_real("centre", -500, 500); } else P[i] = vx_real("p", -500, 500); } ang[0] = 0; }
static void build(Multi& M, const Shape& s, std::vector<ImageSpec>& sp, int stat) { M.build(s.f, s.sets, sp, stat); vx_check(M.mm->FinalSetupForFitting() == 0, "accepted"); vx_check(M.mm->GetNParams() == s.ntot, "number of parameters"); vx_check(M.mm->GetNImages() == s.ni, "number of images"); }
static ImageSpec plain() { ImageSpec s; s.nc = 1; s.nr = 1; s.data.push_back(5); return s; }
static void verify(Multi& M, const Shape& s, const double* P, const double* ang) { for (int i = 0; i < s.ni; i++) { std::vector<Expect> e = expected(s, P, i, ang[i], nullptr); for (size_t k = 0; k < e.size(); k++) { MStub* f = (MStub*)((PM*)M.im[i])->fo(k); bool ref = i == 0 || k >= s.f.size(); if (ref) vx_check(vx_same(f->x0, e[k].x0) && vx_same(f->y0, e[k].y0), i ? "local centre passed on unchanged" : "reference centre passed on unchanged"); else { vx_check_real(f->x0, e[k].x0, 1e-9, "x of the centre in this image"); vx_check_real(f->y0, e[k].y0, 1e-9, "y of the centre in this image"); } vx_check(f->got.size() == e[k].p.size(), "own parameters only"); for (size_t q = 0; q < e[k].p.size(); q++) vx_check(vx_same(f->got[q], e[k].p[q]), "component parameter passed on unchanged"); double ps = 1, ro = 0, is = 1; if (!ref) { ps = P[5 * (i - 1)]; ro = P[5 * (i - 1) + 1]; is = P[5 * (i - 1) + 2]; } vx_check(vx_same(f->st, MStub::mstate(f->id, f->got.data(), f->np, 1.0 / (1.0 / ps), ro, is)), ref ? "reference and per-image components are not rescaled" : "image description handed to every shared component"); } } }
extern "C" void p18_vectors() { vx_option("realarith", 1); Shape s = shape(TIER > 1 ? 3 : 3, 0); std::vector<ImageSpec> sp; for (int i = 0; i < s.ni; i++) sp.push_back(plain()); Multi M; build(M, s, sp, 2); double P[64], ang[4]; params(s, P, ang, TIER > 1 ? 11 : s.ni > 2 ? 3 : 7); int how = vx_pick("call", 0, 2); double* dev = dalloc(s.ni); if (vx_pick("before", 0, 1)) { double Q[64]; for (int i = 0; i < s.ntot; i++) Q[i] = i < 5 * (s.ni - 1) ? 2.0 + i : 7.0 + i; M.mm->GetFitStatistic(Q); } double P0[64]; for (int i = 0; i < s.ntot; i++) P0[i] = P[i]; if (how == 0) M.mm->CreateAllModelImages(P); else if (how == 1) M.mm->GetFitStatistic(P); else M.mm->ComputeDeviates(dev, P); for (int i = 0; i < s.ntot; i++) vx_check(vx_same(P[i], P0[i]), "caller's vector unchanged"); verify(M, s, P, ang); free(dev); vx_reach("vectors"); }
extern "C" void p18_local() { vx_option("realarith", 1); Shape s = shape(3, TIER > 1 ? 3 : 2); std::vector<ImageSpec> sp; for (int i = 0; i < s.ni; i++) { sp.push_back(plain()); sp[i].localFuncs = s.lf[i]; sp[i].localSets = s.ls[i]; } Multi M; build(M, s, sp, 2); double P[64], ang[4]; params(s, P, ang, 1); int how = vx_pick("call", 0, 2); double* dev = dalloc(s.ni); if (how == 0) M.mm->CreateAllModelImages(P); else if (how == 1) M.mm->GetFitStatistic(P); else M.mm->ComputeDeviates(dev, P); verify(M, s, P, ang); free(dev); vx_reach("local"); }
extern "C" void p18_identity() { vx_option("realarith", 1); Shape s = shape(3, 0); if (s.ni < 2) vx_end(); std::vector<ImageSpec> sp; for (int i = 0; i < s.ni; i++) sp.push_back(plain()); Multi M; build(M, s, sp, 2); double P[64], ang[4] = {0, 0, 0, 0}; int ip = 5 * (s.ni - 1); for (int i = ip; i < s.ntot; i++) P[i] = vx_real("p", -500, 500); for (int i = 0; i < ip; i++) P[i] = i % 5 == 0 || i % 5 == 2 ? 1.0 : i % 5 == 1 ? 0.0 : P[ip + i % 5 - 3]; M.mm->CreateAllModelImages(P); for (int i = 1; i < s.ni; i++) for (size_t k = 0; k < s.f.size(); k++) { MStub* f = (MStub*)((PM*)M.im[i])->fo(k); MStub* g = (MStub*)((PM*)M.im[0])->fo(k); vx_check_real(f->x0, g->x0, 1e-12, "identity: x"); vx_check_real(f->y0, g->y0, 1e-12, "identity: y"); vx_check(vx_same(f->st, g->st), "identity: component state"); } vx_reach("identity"); }
extern "C" void p19_sum() { vx_option("realarith", 1); StubFunc::LO() = 1; StubFunc::HI() = 100; Shape s; s.f.push_back(1); s.sets.push_back(0); s.ni = vx_pick("images", 1, 3); s.ntot = 3 + 5 * (s.ni - 1); int stat = (int[]){2, 5, 6}[vx_pick("statistic", 0, 2)]; std::vector<ImageSpec> sp; std::vector<int> masks; int tot = 0, valid = 0, loc = vx_pick("local", 0, 1);
  for (int i = 0; i < s.ni; i++) { ImageSpec im; im.nc = i == 0 ? 2 : 1; im.nr = i == 2 ? 2 : 1; int n = im.nc * im.nr; int m = vx_pick("mask", 0, (1 << n) - 2); masks.push_back(m); im.useMask = m != 0 || (i & 1); im.useErr = true; im.gain = 1.5 + i; im.sky = 3 - i; for (int k = 0; k < n; k++) { im.data.push_back(vx_real("data", 1, 100)); im.err.push_back(vx_real("error", 0.5, 20)); im.mask.push_back((m >> k) & 1); tot++; valid += !((m >> k) & 1); } std::vector<int> lf, ls; if (loc && i == 1) { lf.push_back(1); ls.push_back(0); s.ntot += 3; } im.localFuncs = lf; im.localSets = ls; s.lf.push_back(lf); s.ls.push_back(ls); sp.push_back(im); }
  Multi M; build(M, s, sp, stat); double P[64], ang[4]; params(s, P, ang, 0); vx_check(M.mm->GetNValidPixels() == valid, "valid pixels of all images"); vx_check(M.mm->GetNDataValues() == tot, "pixels of all images"); if (vx_pick("before", 0, 1)) { double Q[64]; for (int i = 0; i < s.ntot; i++) Q[i] = 2.0 + i; M.mm->GetFitStatistic(Q); }
  double* dev = dalloc(tot); for (int i = 0; i < tot; i++) dev[i] = -777; if (stat != 5) M.mm->ComputeDeviates(dev, P); double v = M.mm->GetFitStatistic(P), ex = 0; int z = 0; for (int i = 0; i < s.ni; i++) { double* mv = M.mm->GetModelImageVector(i); std::vector<Expect> e = expected(s, P, i, 0, nullptr); int n = sp[i].nc * sp[i].nr; for (int k = 0; k < n; k++, z++) { double model = 0; for (size_t c = 0; c < e.size(); c++) { int id = c < 1 ? 0 : 100 + (i + 1) * 10; double ps = 1, ro = 0, is = 1; if (i && !c) { ps = P[5 * (i - 1)]; ro = P[5 * (i - 1) + 1]; is = P[5 * (i - 1) + 2]; } model += StubFunc::value(id, MStub::mstate(id, e[c].p.data(), (int)e[c].p.size(), 1.0 / (1.0 / ps), ro, is), e[c].x0, e[c].y0, k % sp[i].nc + 1, k / sp[i].nc + 1); } vx_check_real(mv[k], model, 1e-9, "model image at the image's own parameters"); bool bad = (masks[i] >> k) & 1; double w = stat == 2 ? 1 / sp[i].err[k] : 1.0, t = bad ? 0.0 : term(stat, w, mv[k], sp[i].data[k], sp[i].gain, sp[i].sky); ex += t;
      if (stat == 2) vx_check_real(dev[z], bad ? 0.0 : w * (sp[i].data[k] - mv[k]), 1e-9, "deviate in its own slot"); else if (stat == 6) vx_check_real(dev[z] * dev[z] * dev[z] * dev[z], t * t, 1e-9, "deviate in its own slot"); } }
  vx_check_real(v, ex, 1e-9, "statistic is the sum over the images"); vx_reach("sum"); free(dev); }
