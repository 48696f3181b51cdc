// P25: pixel sub-sampling. Pixel position symbolic (offset from the centre taken from a menu), intensities and shape parameters symbolic; sizes, ellipticity and position angle from menus.
#include "p24_common.h"
#include <math.h>
static const char* lead(const std::string& f) { static const char* T[][2] = {{"Exponential", "h"}, {"Sersic", "r_e"}, {"Sersic_GenEllipse", "r_e"}, {"Core-Sersic", "r_e"}, {"Exponential_GenEllipse", "h"}, {"BrokenExponential", "h1"}, {"BrokenExponential2D", "h1"}, {"FlatBar", "h1"}, {"Gaussian", "sigma"}, {"ModifiedKing", "r_c"}, {"ModifiedKing2", "r_c"}, {"FerrersBar2D", "a_bar"}, {"EdgeOnDisk", "h"}}; for (auto& t : T) if (f == t[0]) return t[1]; return ""; }
// documented rule: finer sampling near the centre and for small sizes, at most 100 x 100
static int capped(double v) { return v > 100 ? 100 : v < 1 ? 1 : (int)v; }
static int rule(const std::string& f, double size, double R, double Z, double z0) {
  if (f == "EdgeOnDisk") { double a = fabs(R), b = fabs(Z); if (a >= 10 && b >= 10) return 1; if ((size <= 1 && a <= 1) || (z0 <= 1 && b <= 1)) { int p = capped(20 / size), q = capped(20 / z0); return p > q ? p : q; } if (a <= 3 || b <= 3) return 20; int p = capped(20 / a), q = capped(20 / b); return p > q ? p : q; }
  double r = sqrt(R * R + Z * Z); if (r >= 10) return 1; if (size <= 1 && r <= 1) return capped((f == "Gaussian" || f == "Moffat" ? 40 : 20) / size);
  double flat = f == "Sersic" || f == "Sersic_GenEllipse" || f == "Core-Sersic" || f == "FerrersBar2D" ? 4 : 3; return r <= flat ? 20 : capped(20 / r); }
struct Geo { double dx, dy; };
static const Geo G[] = {{0.125, 0.25}, {1.75, -1.5}, {-2.5, 2.5}, {-5.5, 3.25}, {2.25, 9.125}, {12.5, -7.25}};
static bool samples(const std::string& f) { return *lead(f) || f == "Moffat"; }
static void run(const std::string& fn, int g, double size, bool symInt) { vx_option("realarith", 1); vx_option("realbranch", 1); vx_option("fpatimeout", 300); vx_option("uftimeout", 300); vx_option("fptoint", 1);
  FunctionObject *s = make(fn, true), *p = make(fn, false); Desc d = describe(p, fn); double v[16], pa = 30, ell = 0, z0 = 0; std::string ld = fn == "Moffat" ? "fwhm" : lead(fn);
  pa = vx_pick("position angle", 0, 1) ? 115 : -20;
  for (int i = 0; i < d.n; i++) { const std::string& n = d.names[i]; if (d.k[i] == ANGLE && i == 0) v[i] = pa; else if (n.compare(0, 3, "ell") == 0) v[i] = ell = 0.25; else if (d.k[i] == INTENSITY) v[i] = symInt ? vx_real("intensity", -1e4, 1e4) : 7.5; else if (n == ld) v[i] = size; else if (d.k[i] == LENGTH) { v[i] = 2.25 + 1.5 * i; if (n == "z_0") z0 = v[i] = vx_pick("z_0", 0, 1) ? 0.4375 : 4.5; } else if (n == "c0") v[i] = 0; else v[i] = n == "beta" ? 2.5 : d.k[i] == PLAIN ? 1.25 + 0.5 * i : d.k[i] == INVLENGTH ? 0.8125 : 40; }
  bool sym = g >= 3; double X = sym ? vx_real("x0", -50, 50) : 3.25, Y = sym ? vx_real("y0", -50, 50) : -2.5, x = X + G[g].dx, y = Y + G[g].dy, c = cos((pa + 90) * M_PI / 180), sn = sin((pa + 90) * M_PI / 180); double R = G[g].dx * c + G[g].dy * sn, Z = (-G[g].dx * sn + G[g].dy * c) / (1 - ell);
  double sz = size; if (fn == "Moffat") sz = 0.5 * size / sqrt(pow(2.0, 1 / 2.5) - 1.0);
  int N = samples(fn) ? rule(fn, sz, R, Z, z0) : 1;
  double* a = dalloc(d.n); for (int i = 0; i < d.n; i++) a[i] = v[i]; s->Setup(a, 0, X, Y); p->Setup(a, 0, X, Y);
  // sizes so small that the function itself is not finite at this pixel: only the number of samples matters
  { FunctionObject* o = make(fn, false); double* b = dalloc(d.n); for (int i = 0; i < d.n; i++) b[i] = d.k[i] == INTENSITY ? 7.5 : v[i]; o->Setup(b, 0, 0, 0); double w = o->GetValue(G[g].dx, G[g].dy), w2 = o->GetValue(G[g].dx + 0.25, G[g].dy - 0.125); free(b); if (!std::isfinite(w) || !std::isfinite(w2)) { s->GetValue(x, y); vx_reach("mean"); return; } }
  double got = s->GetValue(x, y), sum = 0; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) sum += p->GetValue(x + (i + 0.5) / N - 0.5, y + (j + 0.5) / N - 0.5);
  vx_check_real(got, sum / ((double)N * N), 1e-9, "sub-sampled value is the mean over a regular grid"); free(a); vx_reach("mean"); }
extern "C" void p25_mean() { int k = vx_pick("function", 0, NF - 1); std::string fn = fname(k); int g = vx_pick("pixel", 0, 5); static const double S[] = {0.8125, 5.25}; run(fn, g, S[vx_pick("size", 0, 1)], true); }
extern "C" void p25_small() { int k = vx_pick("function", 0, NF - 1); std::string fn = fname(k); if (!samples(fn)) { vx_reach("mean"); return; } static const double S[] = {1e-300, 1e-12, 0.0078125, 0.3125}; run(fn, 0, S[vx_pick("size", 0, 3)], true); }
