// Stand-in for function_objects/integrator.cpp: a fixed quadrature rule (any rule is linear in the integrand).
#include "integrator.h"
#ifndef NINTEG
#define NINTEG 2
#endif
static double rule(gsl_function F, double a, double b) { static const double s[3] = {0.125, 0.75, 0.375}, w[3] = {0.25, 0.5, 0.25}; double r = 0; for (int i = 0; i < NINTEG; i++) r += w[i] * F.function(a + (b - a) * s[i], F.params); return r * (b - a); }
double Integrate(gsl_function F, double a, double b) { return rule(F, a, b); }
double Integrate_cquad(gsl_function F, double a, double b) { return rule(F, a, b); }
double Integrate_Alt(gsl_function F, double a, double b) { return rule(F, a, b); }
