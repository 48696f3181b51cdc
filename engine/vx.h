// Harness interface of the vx symbolic executor (see DESIGN.md). The same harness is compiled natively for replay.
#pragma once
#ifdef __cplusplus
extern "C" {
#endif
double vx_double(const char* name);                        // any 64-bit pattern (incl. NaN, infinities)
double vx_real(const char* name, double lo, double hi);    // any double in [lo,hi]
int vx_int(const char* name, int lo, int hi);              // any integer in [lo,hi] (kept symbolic)
long vx_long(const char* name, long lo, long hi);
int vx_pick(const char* name, int lo, int hi);             // one path per value
unsigned char vx_byte(const char* name);                   // any byte
void vx_assume(int cond);
void vx_check(int cond, const char* msg);
int vx_number(const char* text, double* v);                // number printed at text: its length (0 if none) and value
int vx_same(double a, double b);                           // bit-identical or both NaN
int vx_and(int a, int b); int vx_or(int a, int b);         // non-forking
double vx_ite(int c, double a, double b);                  // non-forking
void vx_check_real(double a, double b, double tol, const char* msg);  // equal as real-arithmetic expressions
double vx_uf(const char* name, double a, double b, double c, double d); // arbitrary (uninterpreted) function
double vx_ufr(const char* name, double a, double b, double c, double d, double lo, double hi); // the same with values in [lo,hi]
void vx_observe_d(const char* tag, double v);
void vx_observe_i(const char* tag, long v);
void vx_reach(const char* tag);
void vx_option(const char* name, long v);
void vx_end(void);
int vx_symbolic(void);
#ifdef __cplusplus
}
#endif
