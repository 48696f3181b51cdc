// Force-included into core/bootstrap_errors.cpp (P10): printed text is recorded instead of being written out.
#pragma once
#include <cstdio>
#include <string>
#include <vector>
#include <cmath>
#include <tuple>
#include <memory>
#include <iostream>
void vx_rec_text(FILE* f, const char* s, long n); void vx_rec_num(FILE* f, double v);
static inline void vx_rec_arg(FILE* f, const char* s) { vx_rec_text(f, s, -1); }
static inline void vx_rec_arg(FILE* f, char* s) { vx_rec_text(f, s, -1); }
static inline void vx_rec_arg(FILE* f, double v) { vx_rec_num(f, v); }
static inline void vx_rec_arg(FILE* f, int v) { vx_rec_num(f, v); }
static inline void vx_rec_arg(FILE* f, long v) { vx_rec_num(f, (double)v); }
static inline void vx_rec_fmt(FILE* f, const char* s) { long k = 0; for (;; k++) { if (!s[k]) { vx_rec_text(f, s, k); return; } if (s[k] == '%' && s[k + 1] == '%') { vx_rec_text(f, s, k + 1); s += k + 2; k = -1; } } }
template <class A, class... R> static inline void vx_rec_fmt(FILE* f, const char* s, A a, R... r) { long k = 0; for (;; k++) { if (!s[k]) { vx_rec_text(f, s, k); return; } if (s[k] == '%' && s[k + 1] == '%') { vx_rec_text(f, s, k + 1); s += k + 2; k = -1; continue; } if (s[k] == '%') { vx_rec_text(f, s, k); k++; while (s[k] == '.' || s[k] == '-' || s[k] == '+' || s[k] == '#' || s[k] == 'l' || (s[k] >= '0' && s[k] <= '9')) k++; vx_rec_arg(f, a); vx_rec_fmt(f, s + k + 1, r...); return; } } }
template <class... A> static inline int vx_printf(const char* s, A... a) { vx_rec_fmt((FILE*)1, s, a...); return 0; }
template <class... A> static inline int vx_fprintf(FILE* f, const char* s, A... a) { vx_rec_fmt(f, s, a...); return 0; }
#define printf vx_printf
#define fprintf vx_fprintf
