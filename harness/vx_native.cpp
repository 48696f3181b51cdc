// Native side of the harness interface: replays recorded inputs against the real code.
#include "../engine/vx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <cmath>
#include <string>
#include <map>
#include <exception>
#include <dlfcn.h>
#include <unistd.h>
#include <cstdint>
static std::map<std::string, uint64_t> inputs; static std::map<std::string, int> occ; static std::map<std::string, long> opts; static bool ended = false;
static FILE* rep() { static FILE* f = nullptr; if (!f) { const char* p = getenv("VX_REPORT"); f = p ? fopen(p, "w") : stdout; setvbuf(f, nullptr, _IOLBF, 0); } return f; }
static bool get(const char* n, uint64_t& v) { std::string k = n; for (char& c : k) if (c == ' ') c = '_'; k += "#" + std::to_string(occ[n]++); auto it = inputs.find(k); if (it == inputs.end()) return false; v = it->second; return true; }
static double bd(uint64_t v) { double d; memcpy(&d, &v, 8); return d; }
extern "C" {
double vx_double(const char* n) { uint64_t v; return get(n, v) ? bd(v) : 1.0; }
double vx_real(const char* n, double lo, double) { uint64_t v; return get(n, v) ? bd(v) : lo; }
int vx_int(const char* n, int lo, int) { uint64_t v; return get(n, v) ? (int)(uint32_t)v : lo; }
long vx_long(const char* n, long lo, long) { uint64_t v; return get(n, v) ? (long)v : lo; }
int vx_pick(const char* n, int lo, int) { uint64_t v; return get(n, v) ? (int)(uint32_t)v : lo; }
unsigned char vx_byte(const char* n) { uint64_t v; return get(n, v) ? (unsigned char)v : 'a'; }
void vx_assume(int c) { if (!c) { fprintf(rep(), "VX-ASSUME-FAILED\n"); fflush(nullptr); _exit(77); } }
static void fail(const char* m) { fprintf(rep(), "VX-FAIL %s\n", m); fflush(nullptr); _exit(10); }
void vx_check(int c, const char* m) { if (!c) fail(m); }
int vx_number(const char* t, double* v) { char* e; double x = strtod(t, &e); if (e != t) *v = x; return (int)(e - t); }
int vx_same(double a, double b) { uint64_t x, y; memcpy(&x, &a, 8); memcpy(&y, &b, 8); return x == y || (a != a && b != b); }
int vx_and(int a, int b) { return a && b; }
int vx_or(int a, int b) { return a || b; }
double vx_ite(int c, double a, double b) { return c ? a : b; }
void vx_check_real(double a, double b, double tol, const char* m) { if (!(fabs(a - b) <= tol * (1 + fabs(a) + fabs(b)))) { fprintf(rep(), "VX-VALUES %.17g %.17g\n", a, b); fail(m); } }
double vx_uf(const char* name, double a0, double a1, double a2, double a3) { double a[4] = {a0, a1, a2, a3};
  uint64_t h = 1469598103934665603ULL; for (const char* c = name; *c; c++) { h ^= (unsigned char)*c; h *= 1099511628211ULL; } for (int i = 0; i < 4; i++) { uint64_t b; double d = a[i]; if (d == d && fabs(d) < 1e300) { char t[40]; snprintf(t, 40, "%.10e", d); d = atof(t); } d = d == 0 ? 0.0 : d != d ? NAN : d; memcpy(&b, &d, 8); for (int k = 0; k < 8; k++) { h ^= (b >> (8 * k)) & 255; h *= 1099511628211ULL; } } h ^= h >> 33; h *= 0xff51afd7ed558ccdULL; h ^= h >> 33; return 0.25 + (double)(h >> 11) / 9007199254740992.0; }
double vx_ufr(const char* name, double a, double b, double c, double d, double lo, double hi) { double u = vx_uf(name, a, b, c, d) - 0.25; return u < 0.125 ? lo : u > 0.875 ? hi : lo + (hi - lo) * u; }
void vx_observe_d(const char* t, double v) { uint64_t x; memcpy(&x, &v, 8); fprintf(rep(), "VX-OBS %s 0x%llx 1\n", t, (unsigned long long)x); }
void vx_observe_i(const char* t, long v) { fprintf(rep(), "VX-OBS %s 0x%llx 0\n", t, (unsigned long long)v); }
void vx_reach(const char* t) { fprintf(rep(), "VX-REACH %s\n", t); }
void vx_option(const char* n, long v) { opts[n] = v; }
void vx_end(void) { ended = true; fprintf(rep(), "VX-END\n"); fflush(nullptr); _exit(0); }
int vx_symbolic(void) { return 0; }
void vx_debug(const char* t, double v) { fprintf(rep(), "VX-DEBUG %s %.17g\n", t, v); }
}
static void onexit_() { if (!ended) { if (opts["exit_violation"]) { fprintf(rep(), "VX-FAIL process exit\n"); fflush(nullptr); _exit(10); } fprintf(rep(), "VX-EXIT\n"); } }
int main(int argc, char** argv) { // entry inputsfile
  if (argc < 2) return 3; if (argc > 2) { FILE* f = fopen(argv[2], "r"); if (!f) return 3; char n[512]; unsigned long long v; while (fscanf(f, "%511s %llx", n, &v) == 2) inputs[n] = v; fclose(f); }
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { fprintf(stderr, "no entry %s\n", argv[1]); return 3; }
  atexit(onexit_);
  try { fn(); } catch (std::exception& e) { if (!opts["throw_ok"]) { fprintf(rep(), "VX-FAIL exception %s\n", e.what()); fflush(nullptr); _exit(10); } } catch (...) { if (!opts["throw_ok"]) { fprintf(rep(), "VX-FAIL exception\n"); fflush(nullptr); _exit(10); } }
  ended = true; fprintf(rep(), "VX-END\n"); fflush(nullptr); _exit(0);
}
