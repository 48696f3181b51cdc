// P10: bootstrap summaries. Solvers return arbitrary parameters and an arbitrary success pattern; the statistics helpers are arbitrary
// functions of exactly the values they are given; everything printed is recorded.
#include "multi.h"
#include "definitions.h"
#include "param_struct.h"
#include "solver_results.h"
#include "bootstrap_errors.h"
#include <tuple>
#include <cstring>
using std::string; using std::vector;
static vector<std::pair<string, double>> items; static string tail; static vector<string> saved; static FILE* out; static string savedText;
void vx_rec_text(FILE* f, const char* s, long n) { string& t = f == (FILE*)1 ? tail : savedText; if (f != (FILE*)1 && (!out || f != out)) return; if (n < 0) t += s; else t.append(s, n); }
void vx_rec_num(FILE* f, double v) { if (f != (FILE*)1) return; items.push_back(std::make_pair(tail, v)); tail.clear(); }
static double chain(const char* nm, const double* v, int n) { double s = n; for (int i = 0; i < n; i++) s = vx_uf(nm, s, v[i], i, 0); return s; }
double Mean(double* v, int n) { return chain("mean", v, n); }
double StandardDeviation(double* v, int n) { return chain("sd", v, n); }
std::tuple<double, double> ConfidenceInterval(double* v, int n) { return std::make_tuple(chain("lo", v, n), chain("hi", v, n)); }
static int calls, draws, seen, kind, want_free; static long want_valid; static double want_ftol; static vector<vector<double>> good; static vector<double> best; static vector<mp_par>* limits; static ModelObject* model; static bool limexist;
static int solve(int n, double* p, vector<mp_par>& l, ModelObject* m, double ftol) { calls++; vx_check(draws > seen, "a new sample before every fit"); seen = draws; vx_check(m == model && n == (int)best.size() && ftol == want_ftol && l.size() == limits->size(), "fit set up as requested"); for (int i = 0; i < n; i++) { vx_check(vx_same(p[i], best[i]), "fit starts at the best-fit values"); vx_check(l[i].fixed == (*limits)[i].fixed, "fixed flags passed on"); }
  int st = vx_pick("status", -1, 1); vector<double> r; for (int i = 0; i < n; i++) { p[i] = l[i].fixed ? best[i] : vx_real("fitted", -1e4, 1e4); r.push_back(p[i]); } if (st > 0) good.push_back(r); return st > 0 ? 1 + vx_pick("kind", 0, 0) : st; }
int LevMarFit(int n, int nfree, int npix, double* p, vector<mp_par> l, ModelObject* m, const double ftol, const bool le, const int, SolverResults*) { vx_check(kind == 0 && nfree == want_free && npix == want_valid && le == limexist, "L-M set up as requested"); return solve(n, p, l, m, ftol); }
int NMSimplexFit(int n, double* p, vector<mp_par> l, ModelObject* m, const double ftol, const int, SolverResults*) { vx_check(kind == 1, "simplex for the Cash statistic"); return solve(n, p, l, m, ftol); }
extern "C" void __wrap__Z16PrintProgressBariiNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEEi(int, int, void*, int) {}
struct TM : public ModelObject { vector<vector<double>> rows; int MakeBootstrapSample() { draws++; return ModelObject::MakeBootstrapSample(); } string PrintModelParamsHorizontalString(const double p[], const string& = "\t") { rows.push_back(vector<double>(p, p + nParamsTot)); return "row"; } void lab(vector<string>& v) { v = parameterLabels; } };
struct TMM : public ModelObjectMultImage { vector<vector<double>> rows; int MakeBootstrapSample() { draws++; return ModelObjectMultImage::MakeBootstrapSample(); } string PrintModelParamsHorizontalString(const double p[], const string& = "\t") { rows.push_back(vector<double>(p, p + nParamsTot)); return "row"; } void lab(vector<string>& v) { v = parameterLabels; } };
static bool ends(const string& t, const string& lab) { string s = t; while (!s.empty() && (s.back() == ' ' || s.back() == '=' || s.back() == '\t')) s.pop_back(); return s.size() >= lab.size() && s.compare(s.size() - lab.size(), lab.size(), lab) == 0 && (s.size() == lab.size() || s[s.size() - lab.size() - 1] == '\n' || s[s.size() - lab.size() - 1] == ' ' || s[s.size() - lab.size() - 1] == '\t'); }
// compares the recorded summary with the definition; off: offsets in force
static void verify(const vector<string>& lab, const vector<double>& off) { int n = (int)best.size(), ns = (int)good.size(); size_t z = 0; bool got = false;
  for (; z < items.size() && !(ends(items[z].first, lab[0])); z++) if (items[z].second == ns && items[z].first.find("image") == string::npos) got = true; if (ns >= 3) vx_check(got, "number of successful iterations reported");
  if (ns < 3) { vx_check(z == items.size(), "no statistics from fewer than three successes"); vx_reach("few"); return; }
  for (int i = 0; i < n; i++) { while (z < items.size() && !ends(items[z].first, lab[i])) { vx_check((*limits)[i].fixed == 0 ? items[z].first.find("image") != string::npos : 1, "parameters in order"); z++; } vx_check(z < items.size(), "every parameter summarised under its own name"); double b = best[i] + off[i]; vx_check(vx_same(items[z].second, b), "best-fit value of this parameter"); z++; if ((*limits)[i].fixed) { const string& t = z < items.size() ? items[z].first : tail; vx_check(t.find("fixed") != string::npos, "fixed parameter marked"); continue; }
    vector<double> v; for (int k = 0; k < ns; k++) v.push_back(good[k][i] + off[i]); vx_check(z + 7 <= items.size(), "all numbers printed"); double lo = chain("lo", v.data(), ns), hi = chain("hi", v.data(), ns); vx_check(vx_same(items[z + 2].second, lo) && vx_same(items[z + 3].second, hi), "interval of the successful samples"); vx_check_real(items[z].second, hi - b, 1e-9, "upper error relative to the best fit"); vx_check_real(items[z + 1].second, b - lo, 1e-9, "lower error relative to the best fit"); vx_check_real(items[z + 4].second, (hi - lo) / 2, 1e-9, "half-width"); vx_check(vx_same(items[z + 5].second, chain("mean", v.data(), ns)), "mean of the successful samples"); vx_check(vx_same(items[z + 6].second, chain("sd", v.data(), ns)), "standard deviation of the successful samples"); z += 7; }
  vx_reach("summary"); }
static void rows(const vector<vector<double>>& r, bool save) { vx_check(r.size() == (save ? good.size() : 0), "one saved line per successful iteration"); if (!save) return; for (size_t k = 0; k < r.size(); k++) for (size_t i = 0; i < best.size(); i++) vx_check(vx_same(r[k][i], good[k][i]), "saved line holds that iteration's values"); size_t c = 0, pos = 0; while ((pos = savedText.find("row\n", pos)) != string::npos) { c++; pos++; } vx_check(c == good.size(), "saved lines written"); }
static int stats(int k) { kind = k == 1; return k == 0 ? FITSTAT_CHISQUARE : k == 1 ? FITSTAT_CASH : FITSTAT_POISSON_MLR; }
extern "C" void p10_single() { vx_option("realarith", 1); int lay = vx_pick("layout", 0, 2), st = stats(vx_pick("statistic", 0, 2)), off = vx_pick("offset", 0, 1), mm = vx_pick("multimfit", 0, 1), save = vx_pick("save", 0, 1), nit = TIER > 1 ? vx_pick("iterations", 1, 5) : 4; if (save) out = (FILE*)malloc(8); TM* mo = new TM; model = mo; mo->SetVerboseLevel(-1); vector<int> sets; sets.push_back(0); mo->AddFunction(new StubFunc(0, 1 + (lay == 2))); if (lay) { mo->AddFunction(new StubFunc(1, 1)); if (lay == 1) sets.push_back(1); } mo->DefineFunctionSets(sets); mo->PopulateParameterNames(); double* d = dalloc(2); d[0] = d[1] = 5; mo->AddImageDataVector(d, 2, 1); mo->AddImageCharacteristics(1, 0, 1, 1, 0); if (off) mo->AddImageOffsets(3, 7); if (kind) mo->UseCashStatistic(); else if (st == FITSTAT_POISSON_MLR) mo->UsePoissonMLR(); mo->FinalModelSetup(); vx_check(mo->FinalSetupForFitting() == 0, "accepted");
  int n = mo->GetNParams(); vector<mp_par> lim(n); memset(lim.data(), 0, n * sizeof(mp_par)); int fx = vx_pick("fixed", 0, n); if (fx < n) lim[fx].fixed = 1; limits = &lim; for (int i = 0; i < n; i++) best.push_back(vx_real("best", -1e4, 1e4)); want_free = n - (fx < n); want_valid = 2; want_ftol = 1e-7; limexist = true; vector<string> lab; mo->lab(lab); vector<double> o(n, 0.0); if (off) { o[0] = 3; o[1] = 7; if (lay == 1) { o[3] = 3; o[4] = 7; } }
  int r = BootstrapErrors(best.data(), lim, true, mo, 1e-7, nit, want_free, st, save ? out : nullptr, 5, mm); vx_check(calls == nit, "as many iterations as requested"); vx_check(r == (int)good.size(), "number of successful iterations returned"); verify(lab, o); rows(mo->rows, save); delete mo; free(d); if (save) free(out); }
extern "C" void p10_array() { vx_option("realarith", 1); int st = stats(vx_pick("statistic", 0, 2)), off = vx_pick("offset", 0, 1), verb = vx_pick("verbose", 0, 1), nit = TIER > 1 ? 5 : 4; TM* mo = new TM; model = mo; mo->SetVerboseLevel(-1); vector<int> sets; sets.push_back(0); mo->AddFunction(new StubFunc(0, 1)); mo->AddFunction(new StubFunc(1, 2)); sets.push_back(1); mo->DefineFunctionSets(sets); mo->PopulateParameterNames(); double* d = dalloc(2); d[0] = d[1] = 5; mo->AddImageDataVector(d, 2, 1); mo->AddImageCharacteristics(1, 0, 1, 1, 0); if (off) mo->AddImageOffsets(3, 7); if (kind) mo->UseCashStatistic(); else if (st == FITSTAT_POISSON_MLR) mo->UsePoissonMLR(); mo->FinalModelSetup(); vx_check(mo->FinalSetupForFitting() == 0, "accepted");
  int n = mo->GetNParams(); vector<mp_par> lim(n); memset(lim.data(), 0, n * sizeof(mp_par)); limits = &lim; for (int i = 0; i < n; i++) best.push_back(vx_real("best", -1e4, 1e4)); want_free = n; want_valid = 2; want_ftol = 1e-8; limexist = false; double* arr = dalloc(n * nit); int r = BootstrapErrorsArrayOnly(best.data(), lim, false, mo, 1e-8, nit, n, st, arr, 5, verb); vx_check(r == (int)good.size(), "number of successful iterations returned"); vx_check(calls == nit, "as many iterations as requested"); double o[7] = {0, 0, 0, 0, 0, 0, 0}; if (off) { o[0] = 3; o[1] = 7; o[3] = 3; o[4] = 7; } for (int k = 0; k < r; k++) for (int i = 0; i < n; i++) vx_check(vx_same(arr[k * n + i], good[k][i] + o[i]), "row of the successful iteration"); vx_reach("array"); free(arr); delete mo; free(d); }
extern "C" void p10_multi() { vx_option("realarith", 1); int ni = vx_pick("images", 1, TIER > 1 ? 4 : 3), st = stats(vx_pick("statistic", 0, 1)), nit = TIER > 1 ? 4 : 3, off = vx_pick("offset", 0, 1); vector<ImageSpec> sp; for (int i = 0; i < ni; i++) { ImageSpec s; s.nc = 2; s.nr = 1; s.data.push_back(5); s.data.push_back(6); s.ox = off * (3 + i); s.oy = off * (7 + i); sp.push_back(s); } Multi M; TMM* mm = new TMM; vector<int> f; f.push_back(1); f.push_back(1); vector<int> sets; sets.push_back(0); if (vx_pick("sets", 0, 1)) sets.push_back(1); M.given = mm; M.build(f, sets, sp, kind ? 5 : 2); model = mm; vx_check(mm->FinalSetupForFitting() == 0, "accepted");
  int n = mm->GetNParams(); vector<mp_par> lim(n); memset(lim.data(), 0, n * sizeof(mp_par)); int fx = vx_pick("fixed", 0, n); if (fx < n) lim[fx].fixed = 1; limits = &lim; for (int i = 0; i < n; i++) best.push_back(vx_real("best", -1e4, 1e4)); want_free = n - (fx < n); want_valid = 2 * ni; want_ftol = 1e-7; limexist = true; vector<string> lab; for (int i = 1; i < ni; i++) for (int k = 0; k < 5; k++) lab.push_back((const char*[]){"PIXEL_SCALE", "ROTATION", "FLUX_SCALE", "X0", "Y0"}[k]); lab.push_back("X0"); lab.push_back("Y0"); lab.push_back("p0_0"); if (sets.size() > 1) { lab.push_back("X0"); lab.push_back("Y0"); } lab.push_back("p1_0"); vx_check((int)lab.size() == n, "parameter count");
  int r = BootstrapErrors(best.data(), lim, true, mm, 1e-7, nit, want_free, st, nullptr, 5, true); vx_check(calls == nit, "as many iterations as requested"); vx_check(r == (int)good.size(), "number of successful iterations returned"); vector<double> o; for (int i = 0; i < n; i++) { int im = i < 5 * (ni - 1) ? i / 5 + 1 : 0; o.push_back(lab[i] == "X0" ? sp[im].ox : lab[i] == "Y0" ? sp[im].oy : 0); } verify(lab, o); }
