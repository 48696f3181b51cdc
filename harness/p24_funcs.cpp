// P24: every registered image function.
#include "p24_common.h"
static double adjusted(const Desc& d, int i, double v, double ps, double ro, double is) { switch (d.k[i]) { case ANGLE: return v - ro; case INTENSITY: return v * is; case LENGTH: return v / ps; case INVLENGTH: return v * ps; default: return v; } }
extern "C" void p24_adjust() { vx_option("realarith", 1); std::string fn = fname(vx_pick("function", 0, NF - 1)); FunctionObject* f = make(fn, false); Desc d = describe(f, fn); double ps = vx_real("pixel size", 0.1, 10), ro = vx_real("rotation", -360, 360), is = vx_real("intensity scale", 0.1, 10); int off = vx_pick("offset", 0, 2); double *in = dalloc(off + d.n), *out = dalloc(off + d.n); for (int i = 0; i < off; i++) { in[i] = -99; out[i] = -77; } for (int i = 0; i < d.n; i++) { in[off + i] = value(d, i, "p"); out[off + i] = -77; } if (vx_pick("before", 0, 1)) f->SetImageParameters(3, 40, 5); f->SetImageParameters(ps, ro, is); f->AdjustParametersForImage(in, out, off);
  for (int i = 0; i < off; i++) vx_check(out[i] == -77, "other slots untouched"); for (int i = 0; i < d.n; i++) vx_check_real(out[off + i], adjusted(d, i, in[off + i], ps, ro, is), 1e-12, "parameter rescaled according to its unit"); free(in); free(out); vx_reach("adjusted"); }
static double eval(FunctionObject* f, const Desc& d, const double* p, int off, double x0, double y0, double x, double y) { double* a = dalloc(off + d.n); for (int i = 0; i < off; i++) a[i] = vx_uf("junk", i, off, 0, 0); for (int i = 0; i < d.n; i++) a[off + i] = p[i]; f->Setup(a, off, x0, y0); double v = f->GetValue(x, y); for (int i = 0; i < d.n; i++) vx_check(vx_same(a[off + i], p[i]), "caller's parameters unchanged"); free(a); return v; }
struct Case { std::string fn; FunctionObject *a, *b; Desc d; double p[16], x0, y0, x, y; };
static void start(Case& c) { vx_option("realarith", 1); vx_option("realbranch", 1); vx_option("fpatimeout", 300); vx_option("uftimeout", 300); c.fn = fname(vx_pick("function", 0, NF - 1)); c.a = make(c.fn, false); c.b = make(c.fn, false); c.d = describe(c.a, c.fn); for (int i = 0; i < c.d.n; i++) c.p[i] = value(c.d, i, "p"); c.x0 = vx_real("x0", -100, 100); c.y0 = vx_real("y0", -100, 100); c.x = vx_real("x", -100, 100); c.y = vx_real("y", -100, 100); }
// history: what happened to the object before
static void history(Case& c, int how) { if (!how) return; double q[16]; for (int i = 0; i < c.d.n; i++) q[i] = c.d.k[i] == PLAIN ? (c.d.names[i].compare(0, 3, "ell") ? 1.5 : 0.25) : 3.0 + i; if (how == 2) c.a->SetImageParameters(2.0, 30.0, 4.0); eval(c.a, c.d, q, 1, 5.0, 6.0, 7.0, 9.0); }
extern "C" void p24_image() { Case c; start(c); double ps = vx_real("pixel size", 0.1, 10), ro = vx_real("rotation", -360, 360), is = vx_real("intensity scale", 0.1, 10), q[16]; history(c, vx_pick("history", 0, 2)); c.a->SetImageParameters(ps, ro, is); double v = eval(c.a, c.d, c.p, vx_pick("offset", 0, 1) * 2, c.x0, c.y0, c.x, c.y); for (int i = 0; i < c.d.n; i++) q[i] = adjusted(c.d, i, c.p[i], ps, ro, is); double w = eval(c.b, c.d, q, 0, c.x0, c.y0, c.x, c.y); vx_check_real(v, w, 1e-9, "internal adjustment equals explicit adjustment"); vx_reach("image"); }
extern "C" void p24_scale() { Case c; start(c); double k = vx_real("factor", 0.01, 100), q[16]; for (int i = 0; i < c.d.n; i++) q[i] = c.d.k[i] == INTENSITY || (c.fn == "TiltedSkyPlane" && i) ? c.p[i] * k : c.p[i]; double v = eval(c.a, c.d, c.p, 1, c.x0, c.y0, c.x, c.y), w = eval(c.b, c.d, q, 0, c.x0, c.y0, c.x, c.y); vx_check_real(w, v * k, 1e-9, "brightness proportional to the intensity parameters"); vx_reach("scale"); }
extern "C" void p24_shift() { Case c; start(c); double m = vx_real("m", -500, 500), n = vx_real("n", -500, 500); history(c, vx_pick("history", 0, 1)); double v = eval(c.a, c.d, c.p, 0, c.x0 + m, c.y0 + n, c.x + m, c.y + n), w = eval(c.b, c.d, c.p, 0, c.x0, c.y0, c.x, c.y); vx_check_real(v, w, 1e-9, "shifting centre and point together"); vx_reach("shift"); }
