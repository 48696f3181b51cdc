// P26: PSF interpolation and point sources.
#include "mo.h"
#include <map>
#include <math.h>
#include "psf_interpolators.h"
#include "psf_oversampling_info.h"
#include "func_pointsource.h"
#include "func_pointsource-rot.h"
static PsfInterpolator* build(int type, double* a, int nx, int ny) { PsfInterpolator* p = type == 1 ? (PsfInterpolator*)new PsfInterpolator_bicubic(a, nx, ny) : type == 2 ? (PsfInterpolator*)new PsfInterpolator_lanczos2(a, nx, ny) : (PsfInterpolator*)new PsfInterpolator_lanczos3(a, nx, ny); vx_check(p->GetInterpolatorType() == type, "interpolator reports its type"); return p; }
static double* pixels(int n, const char* tag) { double* a = dalloc(n); for (int i = 0; i < n; i++) a[i] = vx_real(tag, -100, 1000); return a; }
extern "C" void p26_nodes() { vx_option("realarith", 1); int type = vx_pick("type", 1, 3), nx = vx_pick("columns", 2, 5), ny = vx_pick("rows", 2, 5); double* a = pixels(nx * ny, "psf"); PsfInterpolator* p = build(type, a, nx, ny); int i = vx_pick("i", 0, nx - 1), j = vx_pick("j", 0, ny - 1); double v = p->GetValue(i - (nx - 1) / 2.0, j - (ny - 1) / 2.0);
  vx_check_real(v, a[j * nx + i], 1e-9, "value at a PSF pixel centre is that pixel"); delete p; free(a); vx_reach("node"); }
extern "C" void p26_outside() { int type = vx_pick("type", 1, 3), nx = vx_pick("columns", 2, 4), ny = vx_pick("rows", 2, 4); double* a = pixels(nx * ny, "psf"); PsfInterpolator* p = build(type, a, nx, ny); double x = vx_double("x"), y = vx_double("y"); vx_assume(x == x && y == y); double hx = (nx - 1) / 2.0, hy = (ny - 1) / 2.0; vx_assume(x < -hx || x > hx || y < -hy || y > hy); double v = p->GetValue(x, y); vx_check(v == 0, "zero outside the PSF"); delete p; free(a); vx_reach("outside"); }
// between the pixels: the separable Lanczos sum, every read inside the array
static double L(double d, int n) { double x = fabs(d); if (x < 1e-6) return 1; if (x > n) return 0; double P = 3.14159265358979; return n * sin(P * x) * sin(P * x / n) / (9.86960440108936 * x * x); }
extern "C" void p26_between() { vx_option("realarith", 1); int type = vx_pick("type", 2, 3), nx = vx_pick("columns", 2, 5), ny = vx_pick("rows", 2, 5); double* a = pixels(nx * ny, "psf"); PsfInterpolator* p = build(type, a, nx, ny); double hx = (nx - 1) / 2.0, hy = (ny - 1) / 2.0; static const double F[] = {0.25, 0.625}; double x = vx_pick("cx", 0, nx - 2) + F[vx_pick("fx", 0, 1)] - hx, y = vx_pick("cy", 0, ny - 2) + F[vx_pick("fy", 0, 1)] - hy;
  double s = 0; for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) s += L(x - (i - hx), type) * L(y - (j - hy), type) * a[j * nx + i]; vx_check_real(p->GetValue(x, y), s, 1e-9, "Lanczos-weighted sum of the PSF pixels"); delete p; free(a); vx_reach("between"); }
// optional parameter names
template <class F> static void options() { static const char* N[] = {"bicubic", "Bicubic", "lanczos2", "Lanczos2", "lanczos3", "Lanczos3"}; static const char* R[] = {"bicubic", "bicubic", "lanczos2", "lanczos2", "lanczos3", "lanczos3"}; F f; vx_check(f.IsPointSource() && f.HasExtraParams(), "point source takes optional parameters"); vx_check(f.GetInterpolationType() == "bicubic", "bicubic by default"); std::map<std::string, std::string> m; int c = vx_pick("case", 0, 8);
  if (c < 6) { m["method"] = N[c]; vx_check(f.SetExtraParams(m) == 1, "documented method accepted"); vx_check(f.GetInterpolationType() == R[c], "documented method selected"); vx_check(f.ExtraParamsSet(), "optional parameters noted"); }
  else if (c == 6) vx_check(f.SetExtraParams(m) == -1, "no parameters: refused"); else if (c == 7) { m["method"] = "nearest"; vx_check(f.SetExtraParams(m) == -3 && f.GetInterpolationType() == "bicubic", "unknown method refused"); } else { m["mode"] = "lanczos2"; vx_check(f.SetExtraParams(m) == 0 && f.GetInterpolationType() == "bicubic", "unknown name refused"); } vx_reach("options"); }
extern "C" void p26_options() { if (vx_pick("function", 0, 1)) options<PointSourceRot>(); else options<PointSource>(); }
// in a model: I_tot times the normalised PSF, at the source's position
struct M : public ModelObject { };
static FunctionObject* source(int rot, int method) { FunctionObject* f = rot ? (FunctionObject*)new PointSourceRot() : (FunctionObject*)new PointSource(); static const char* N[] = {"", "bicubic", "Lanczos2", "lanczos3"}; if (method) { std::map<std::string, std::string> m; m["method"] = N[method]; f->SetExtraParams(m); } return f; }
static double expect(const double* psf, double sum, int nx, int ny, int method, double dx, double dy) { double hx = (nx - 1) / 2.0, hy = (ny - 1) / 2.0; if (dx < -hx || dx > hx || dy < -hy || dy > hy) return 0; if (method <= 1) { double fx = dx + hx, fy = dy + hy; return psf[(int)fy * nx + (int)fx] / sum; } double s = 0; for (int j = 0; j < ny; j++) for (int i = 0; i < nx; i++) s += L(dx - (i - hx), method) * L(dy - (j - hy), method) * psf[j * nx + i]; return s / sum; }
extern "C" void p26_model() { vx_option("realarith", 1); int nx = vx_pick("columns", 4, 5), ny = vx_pick("rows", 4, 5); static const int LAY[][2] = {{0, -1}, {1, -1}, {2, -1}, {3, -1}, {1, 2}, {3, 1}, {2, 3}, {2, 2}}; int l = vx_pick("methods", 0, 7), rot = vx_pick("rotated", 0, 1), norm = vx_pick("normalise", 0, 1);
  double* psf = dalloc(nx * ny); double sum = 0; for (int i = 0; i < nx * ny; i++) { psf[i] = vx_real("psf", 0.5, 100); sum += psf[i]; } if (!norm) sum = 1; double* mine = dalloc(nx * ny); for (int i = 0; i < nx * ny; i++) mine[i] = psf[i]; M m; m.AddPSFVector(nx * ny, nx, ny, mine, norm); int n = LAY[l][1] < 0 ? 1 : 2; bool sub = false; (void)sub; std::vector<int> sets; for (int i = 0; i < n; i++) { vx_check(m.AddFunction(source(rot, LAY[l][i])) == 0, "point source added"); sets.push_back(i); } m.DefineFunctionSets(sets); m.SetupModelImage(4, 3);
  double* p = dalloc(8); int o = 0; double I[2]; double cx[2], cy[2]; bool nodes = true; for (int i = 0; i < n; i++) { bool lz = LAY[l][i] > 1; cx[i] = p[o++] = 2 + i + (nx % 2 ? 0 : 0.5) + (lz && i == 0 ? 0.25 : 0); cy[i] = p[o++] = 2 + (ny % 2 ? 0 : 0.5); if (rot) p[o++] = -90; I[i] = p[o++] = vx_real("flux", -1e3, 1e3); } (void)nodes;
  int how = vx_pick("image", 0, 1); double* out; if (how) { m.CreateModelImage(p); out = m.GetModelImageVector(); } else out = m.GetSingleFunctionImage(p, n - 1); vx_check(out != nullptr, "image returned");
  for (int y = 0; y < 3; y++) for (int x = 0; x < 4; x++) { double e = 0; for (int i = how ? 0 : n - 1; i < n; i++) e += I[i] * expect(psf, sum, nx, ny, LAY[l][i], x + 1 - cx[i], y + 1 - cy[i]); vx_check_real(out[y * 4 + x], e, 1e-9, "total flux times the PSF value"); } free(p); free(mine); free(psf); vx_reach("model"); }
// with an oversampled region: outside it nothing changes, inside it a pixel holds the flux of the (normalised) oversampled PSF which falls on it
static void osamp(bool inside) { vx_option("realarith", 1); int norm = vx_pick("normalise", 0, 1), fn = vx_pick("rotated", 0, 1), single = vx_pick("single image", 0, 1); const int N = 5, O = 4; double* psf = dalloc(N * N); double* ops = dalloc(O * O); double sum = 0, osum = 0; for (int i = 0; i < N * N; i++) { psf[i] = vx_real("psf", 0.5, 100); sum += psf[i]; } for (int i = 0; i < O * O; i++) { ops[i] = vx_real("opsf", 0.5, 100); osum += ops[i]; } double* own = dalloc(O * O); for (int i = 0; i < O * O; i++) own[i] = ops[i]; if (!norm) sum = osum = 1;
  double* mine = dalloc(N * N); for (int i = 0; i < N * N; i++) mine[i] = psf[i]; M m; m.AddPSFVector(N * N, N, N, mine, norm); vx_check(m.AddFunction(source(fn, 1)) == 0, "point source added"); std::vector<int> sets(1, 0); m.DefineFunctionSets(sets); m.SetupModelImage(6, 3); PsfOversamplingInfo info(own, O, O, 2, std::string("1:2,1:3"), 0, 0, true, norm); vx_check(m.AddOversampledPsfInfo(&info) == 0, "region added");
  double* p = dalloc(4); int o = 0; double x0 = inside ? 2 : 4; p[o++] = x0; p[o++] = 2; if (fn) p[o++] = -90; double I = p[o++] = vx_real("flux", -1e3, 1e3);
  for (int rep = 0; rep < 2; rep++) { double* out; if (single) out = m.GetSingleFunctionImage(p, 0); else { m.CreateModelImage(p); out = m.GetModelImageVector(); }
    if (!inside) { for (int y = 0; y < 3; y++) for (int x = 2; x < 6; x++) vx_check_real(out[y * 6 + x], I * expect(psf, sum, N, N, 1, x + 1 - x0, y - 1), 1e-9, "pixels outside the region unaffected"); }
    else { double e = 0; for (int i = 1; i < 3; i++) for (int j = 1; j < 3; j++) e += ops[i * O + j]; vx_check_real(out[1 * 6 + 1], I * e / osum, 1e-9, "flux of the point source inside the region"); e = 0; for (int i = 1; i < 3; i++) e += ops[i * O]; vx_check_real(out[1 * 6], I * e / osum, 1e-9, "flux of the point source inside the region"); } }
  free(p); free(mine); free(psf); free(ops); vx_reach("osamp"); }
extern "C" void p26_osamp() { osamp(false); }
extern "C" void p26_inside() { osamp(true); }
