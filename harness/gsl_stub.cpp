// Stand-in for GSL's 2-D interpolation: reproduces the data at the nodes, is an arbitrary function between them, aborts outside.
#include "vx.h"
#include <stdlib.h>
#include <string.h>
#include "gsl/gsl_spline2d.h"
extern "C" {
static const gsl_interp2d_type bicubic_type = {"bicubic", 4, 0, 0, 0, 0, 0, 0, 0, 0, 0};
const gsl_interp2d_type* gsl_interp2d_bicubic = &bicubic_type;
gsl_interp_accel* gsl_interp_accel_alloc(void) { gsl_interp_accel* a = (gsl_interp_accel*)calloc(1, sizeof(gsl_interp_accel)); return a; }
void gsl_interp_accel_free(gsl_interp_accel* a) { free(a); }
gsl_spline2d* gsl_spline2d_alloc(const gsl_interp2d_type* t, size_t nx, size_t ny) { vx_check(nx >= 2 && ny >= 2, "spline has at least two points per axis"); gsl_spline2d* s = (gsl_spline2d*)calloc(1, sizeof(gsl_spline2d)); s->interp_object.xsize = nx; s->interp_object.ysize = ny; s->xarr = (double*)calloc(nx, sizeof(double)); s->yarr = (double*)calloc(ny, sizeof(double)); s->zarr = (double*)calloc(nx * ny, sizeof(double)); return s; }
int gsl_spline2d_init(gsl_spline2d* s, const double xa[], const double ya[], const double za[], size_t nx, size_t ny) { vx_check(nx == s->interp_object.xsize && ny == s->interp_object.ysize, "spline sizes agree"); for (size_t i = 0; i < nx; i++) s->xarr[i] = xa[i]; for (size_t i = 0; i < ny; i++) s->yarr[i] = ya[i]; for (size_t i = 0; i < nx * ny; i++) s->zarr[i] = za[i]; return 0; }
void gsl_spline2d_free(gsl_spline2d* s) { free(s->xarr); free(s->yarr); free(s->zarr); free(s); }
double gsl_spline2d_eval(const gsl_spline2d* s, const double x, const double y, gsl_interp_accel* xa, gsl_interp_accel* ya) {
  size_t nx = s->interp_object.xsize, ny = s->interp_object.ysize; vx_check(x >= s->xarr[0] && x <= s->xarr[nx - 1] && y >= s->yarr[0] && y <= s->yarr[ny - 1], "interpolation point inside the PSF");
  if (xa) xa->miss_count++; if (ya) ya->miss_count++;   // the real lookup updates its accelerator on every call
  for (size_t i = 0; i < nx; i++) if (x == s->xarr[i]) for (size_t j = 0; j < ny; j++) if (y == s->yarr[j]) return s->zarr[j * nx + i];
  double v = vx_uf("spline", x, y, (double)nx, (double)ny); for (size_t k = 0; k < nx * ny; k += 2) v = vx_uf("spline z", v, s->zarr[k], k + 1 < nx * ny ? s->zarr[k + 1] : 0.0, 0); return v; }
}
