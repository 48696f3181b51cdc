// Stand-in for FFTW: the definition of the discrete Fourier transform, row-column order, unnormalised as in FFTW.
#include <fftw3.h>
#include <cstdlib>
#include <cmath>
#include "vx.h"
int GetPhysicalCoreCount() { return 2; }
struct P { int nr, nc, dir; double* re; fftw_complex* cx; };
extern "C" {
void* fftw_malloc(size_t n) { return malloc(n); }
void fftw_free(void* p) { free(p); }
int fftw_init_threads(void) { return 1; }
void fftw_plan_with_nthreads(int) {}
void fftw_cleanup_threads(void) {}
void fftw_cleanup(void) {}
fftw_plan fftw_plan_dft_r2c_2d(int n0, int n1, double* in, fftw_complex* out, unsigned) { P* p = (P*)malloc(sizeof(P)); p->nr = n0; p->nc = n1; p->dir = 0; p->re = in; p->cx = out; return (fftw_plan)p; }
fftw_plan fftw_plan_dft_c2r_2d(int n0, int n1, fftw_complex* in, double* out, unsigned) { P* p = (P*)malloc(sizeof(P)); p->nr = n0; p->nc = n1; p->dir = 1; p->re = out; p->cx = in; return (fftw_plan)p; }
fftw_plan fftw_plan_dft_1d(int n, fftw_complex* in, fftw_complex* out, int sign, unsigned) { P* p = (P*)malloc(sizeof(P)); p->nr = n; p->nc = sign; p->dir = 2; p->re = (double*)in; p->cx = out; return (fftw_plan)p; }
void fftw_destroy_plan(fftw_plan p) { free(p); }
}
static void tw(int k, int n, double& c, double& s) { k %= n; c = (4 * k == n || 4 * k == 3 * n) ? 0 : (2 * k == n) ? -1 : cos(2 * M_PI * k / n); s = (2 * k == n || k == 0) ? 0 : sin(2 * M_PI * k / n); }
static void dft1(P* p) { int n = p->nr; double sg = p->nc, c, s; fftw_complex* in = (fftw_complex*)p->re; for (int k = 0; k < n; k++) { double re = 0, im = 0; for (int j = 0; j < n; j++) { double x = in[j][0], y = in[j][1]; tw(j * k, n, c, s); re += x * c - sg * y * s; im += y * c + sg * x * s; } p->cx[k][0] = re; p->cx[k][1] = im; } }
extern "C" void fftw_execute(const fftw_plan pl) {
  P* p = (P*)pl; if (p->dir == 2) { dft1(p); return; } int R = p->nr, C = p->nc, H = C / 2 + 1; double c, s;
  double* a = (double*)malloc(sizeof(double) * R * H); double* b = (double*)malloc(sizeof(double) * R * H);
  if (p->dir == 0) {
    for (int r = 0; r < R; r++) for (int k = 0; k < H; k++) { double re = 0, im = 0; for (int j = 0; j < C; j++) { double v = p->re[r * C + j]; tw(j * k, C, c, s); re += v * c; im -= v * s; } a[r * H + k] = re; b[r * H + k] = im; }
    for (int k = 0; k < H; k++) for (int l = 0; l < R; l++) { double re = 0, im = 0; for (int r = 0; r < R; r++) { tw(r * l, R, c, s); double x = a[r * H + k], y = b[r * H + k]; re += x * c + y * s; im += y * c - x * s; } p->cx[l * H + k][0] = re; p->cx[l * H + k][1] = im; }
  } else {
    for (int k = 0; k < H; k++) for (int r = 0; r < R; r++) { double re = 0, im = 0; for (int l = 0; l < R; l++) { tw(r * l, R, c, s); double x = p->cx[l * H + k][0], y = p->cx[l * H + k][1]; re += x * c - y * s; im += y * c + x * s; } a[r * H + k] = re; b[r * H + k] = im; }
    for (int r = 0; r < R; r++) for (int j = 0; j < C; j++) { double v = 0; for (int k = 0; k < H; k++) { tw(j * k, C, c, s); double m = (k == 0 || 2 * k == C) ? 1 : 2; v += m * (a[r * H + k] * c - b[r * H + k] * s); } p->re[r * C + j] = v; }
  }
  free(a); free(b);
}
