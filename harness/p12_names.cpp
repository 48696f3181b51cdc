// P12: parameter names, offsets and printed lines.
#include "multi.h"
#include "definitions.h"
#include "param_struct.h"
#include "solver_results.h"
#include "print_results.h"
#include "print_results_multi.h"
#include "utilities_multimfit.h"
#include <cstring>
#include <map>
extern "C" double __wrap__Z8mp_enormiPKd(int n, const double* x) { double s = 0; for (int i = 0; i < n; i++) s += x[i] * x[i]; return std::sqrt(s); }   // the norm is the subject of P08
using std::string; using std::vector;
struct Tok { bool num; string w; double v; };
// words and numbers of a printed text, in order; comment marks and punctuation left out
static void parse(const string& t, vector<Tok>& o) { const char* s = t.c_str(); size_t n = t.size(); for (size_t i = 0; i < n;) { unsigned char c = s[i]; if (c == ' ' || c == '\t' || c == '\n' || c == ',' || c == '#') { i++; continue; } double v = 0; int k = vx_number(s + i, &v); if (k > 0) { o.push_back(Tok{true, "", v}); i += k; continue; } string w; while (i < n) { c = s[i]; if (c == ' ' || c == '\t' || c == '\n' || c == ',' || c >= 128) break; w += (char)c; i++; } if (w == "+/-" || w.empty()) { if (w.empty()) i++; continue; } o.push_back(Tok{false, w, 0}); } }
static vector<Tok> parseAll(const vector<string>& l) { vector<Tok> o; for (auto& s : l) { vx_check(s.size() > 0, "no empty output"); parse(s, o); } return o; }
static string show(const vector<Tok>& t) { string s; for (auto& x : t) s += x.num ? string("<n>") : x.w + " "; return s; }
static void compare(const vector<Tok>& got, const vector<Tok>& want, const char* what) { vx_check(got.size() == want.size(), "as many words and values printed as expected"); for (size_t i = 0; i < got.size(); i++) { vx_check(got[i].num == want[i].num, "value printed where a value belongs"); if (got[i].num) vx_check_real(got[i].v, want[i].v, 2e-4, what); else vx_check(got[i].w == want[i].w, "names printed in order"); } }
static void W(vector<Tok>& o, const string& w) { o.push_back(Tok{false, w, 0}); } static void N(vector<Tok>& o, double v) { o.push_back(Tok{true, "", v}); }
static vector<string> out; static string fname; static map<string, string> files; static FILE* fp = nullptr;
FILE* vx_open(const char* n) { fname = n; files[fname] = ""; if (!fp) fp = (FILE*)malloc(8); return fp; }
void vx_rec_text(FILE* f, const char* s, long n) { string& t = f == (FILE*)1 ? files["stdout"] : files[fname]; if (f != (FILE*)1 && f != fp) return; if (n < 0) t += s; else t.append(s, n); }
void vx_rec_num(FILE* f, double v) { if (f != (FILE*)1 && f != fp) return; char b[64]; snprintf(b, 64, " %.17g ", v); (f == (FILE*)1 ? files["stdout"] : files[fname]) += b; }
void InterpretMpfitResult(int, string& s) { s = "mp"; } void GetInterpretation_NM(int, string& s) { s = "nm"; } void GetInterpretation_NLOpt(int, string& s) { s = "nlopt"; }
struct TM : public ModelObject { vector<string>& lab() { return parameterLabels; } };
struct Lay { vector<int> f, sets; vector<string> names; vector<int> isx; int n = 0; };   // isx: 1 for X0, 2 for Y0
static Lay layout() { Lay L; int k = vx_pick("layout", 0, TIER > 1 ? 9 : 6); static const int np[10][3] = {{1, -1, -1}, {2, 1, -1}, {1, 2, -1}, {1, 0, 2}, {2, 1, 1}, {1, 2, 1}, {0, -1, -1}, {1, 1, 1}, {2, 2, 2}, {0, 0, 3}}; static const int st[10] = {0, 0, 1, 2, 3, 1, 0, 0, 3, 2}; for (int i = 0; i < 3 && np[k][i] >= 0; i++) { bool start = i == 0 || (i == 1 && (st[k] & 1)) || (i == 2 && (st[k] & 2)); if (start) { L.sets.push_back(i); L.names.push_back("X0"); L.isx.push_back(1); L.names.push_back("Y0"); L.isx.push_back(2); } L.f.push_back(np[k][i]); for (int j = 0; j < np[k][i]; j++) { char b[16]; snprintf(b, 16, "p%d_%d", i, j); L.names.push_back(b); L.isx.push_back(0); } } L.n = (int)L.names.size(); return L; }
static void values(double* p, int n, const char* nm) { for (int i = 0; i < n; i++) p[i] = vx_real(nm, -1e4, 1e4); }
// printed block of one model: names with value (+ error, limits or "fixed")
static void block(vector<Tok>& o, const Lay& L, const double* p, double ox, double oy, const double* e, const vector<mp_par>* lim) { int z = 0; size_t set = 0; auto one = [&](double off) { W(o, L.names[z]); N(o, p[z] + off); if (lim) { if ((*lim)[z].fixed) W(o, "fixed"); else { N(o, (*lim)[z].limits[0] + off); N(o, (*lim)[z].limits[1] + off); } } else if (e) N(o, e[z]); z++; };
  for (size_t k = 0; k < L.f.size(); k++) { if (set < L.sets.size() && L.sets[set] == (int)k) { one(ox); one(oy); set++; } W(o, "FUNCTION"); W(o, "Stub"); for (int j = 0; j < L.f[k]; j++) one(0); } }
static void build(TM* mo, Lay& L, int ox, int oy) { mo->SetVerboseLevel(-1); for (size_t k = 0; k < L.f.size(); k++) mo->AddFunction(new StubFunc((int)k, L.f[k])); mo->DefineFunctionSets(L.sets); mo->PopulateParameterNames(); mo->FinalModelSetup(); if (ox || oy) mo->AddImageOffsets(ox, oy); }
static vector<mp_par> mklimits(int n, int fx) { vector<mp_par> l(n); if (n) memset(l.data(), 0, n * sizeof(mp_par)); for (int i = 0; i < n; i++) { if (i == fx) l[i].fixed = 1; else { l[i].limited[0] = l[i].limited[1] = 1; l[i].limits[0] = vx_real("lower", -1e4, 0); l[i].limits[1] = vx_real("upper", 1, 1e4); } } return l; }
extern "C" void p12_names() { vx_option("realarith", 1); Lay L = layout(); int off = vx_pick("offset", 0, 3), ox = (off & 1) * 3, oy = (off >> 1) * 7; TM* mo = new TM; build(mo, L, ox, oy); double* p = dalloc(L.n); values(p, L.n, "p"); vx_check(mo->GetNParams() == L.n, "number of parameters"); vx_check(mo->lab() == L.names, "X0, Y0 and the components' own names per set"); for (int i = 0; i < L.n; i++) vx_check(mo->GetParameterName(i) == L.names[i], "name by index");
  double* o = dalloc(L.n); mo->GetImageOffsets(o); for (int i = 0; i < L.n; i++) vx_check(o[i] == (L.isx[i] == 1 ? ox : L.isx[i] == 2 ? oy : 0), "offset for X0 and Y0 only"); vector<Tok> g, w; parse(mo->PrintModelParamsHorizontalString(p), g); for (int i = 0; i < L.n; i++) N(w, p[i] + (L.isx[i] == 1 ? ox : L.isx[i] == 2 ? oy : 0)); compare(g, w, "value in its own column"); g.clear(); parse(mo->PrintModelParamsHorizontalString(p, ","), g); compare(g, w, "value in its own column");
  vector<Tok> h; parse(mo->GetParamHeader(), h); vx_check(h.size() == L.names.size(), "one column title per parameter"); for (int i = 0; i < L.n; i++) vx_check(!h[i].num && h[i].w.compare(0, L.names[i].size() + 1, L.names[i] + "_") == 0, "column title of this parameter"); vector<string> fn; mo->GetFunctionNames(fn); vx_check(fn.size() == L.f.size(), "names of all components"); vx_reach("names"); free(p); free(o); delete mo; }
extern "C" void p12_print() { vx_option("realarith", 1); Lay L = layout(); int off = vx_pick("offset", 0, 1), ox = off * 3, oy = off * 7, mode = vx_pick("mode", 0, 2); TM* mo = new TM; build(mo, L, ox, oy); double* p = dalloc(L.n); double* e = dalloc(L.n); values(p, L.n, "p"); values(e, L.n, "error"); vector<mp_par> lim; if (mode == 2) { lim = mklimits(L.n, vx_pick("fixed", 0, L.n)); mo->AddParameterInfo(lim); } vector<string> s; vx_check(mo->PrintModelParamsToStrings(s, p, mode == 1 ? e : nullptr, vx_pick("prefix", 0, 1) ? "#" : "", mode == 2) == 0, "printed"); vector<Tok> w; block(w, L, p, ox, oy, mode == 1 ? e : nullptr, mode == 2 ? &lim : nullptr); compare(parseAll(s), w, "value, error and limits belong to the name"); vx_reach("print"); free(p); free(e); delete mo; }
static vector<Tok> after(const string& t, const char* mark) { vector<Tok> o; size_t z = t.find(mark); vx_check(z != string::npos, "section present"); size_t nl = t.find('\n', z); parse(t.substr(nl == string::npos ? t.size() : nl), o); return o; }
extern "C" void p12_save() { vx_option("realarith", 1); Lay L = layout(); int off = vx_pick("offset", 0, 1), ox = off * 3, oy = off * 7, how = vx_pick("how", 0, 2), err = vx_pick("errors", 0, 1), loop = 0; TM* mo = new TM; build(mo, L, ox, oy); double d[6] = {5, 6, 7, 8, 9, 4}; mo->AddImageDataVector(d, 6, 1); mo->AddImageCharacteristics(1, 0, 1, 1, 0); vx_check(mo->FinalSetupForFitting() == 0, "accepted"); double* p = dalloc(L.n); double* e = dalloc(L.n); values(p, L.n, "p"); values(e, L.n, "error"); SolverResults r; int solver = err ? MPFIT_SOLVER : DIFF_EVOLN_SOLVER; r.SetSolverType(solver); mp_result mp; memset(&mp, 0, sizeof mp); mp.npar = L.n; mp.nfree = L.n; mp.xerror = e; if (err) r.AddMPResults(mp); if (err) r.StoreErrors(e, L.n); r.StoreBestfitStatisticValue(vx_real("statistic", 0, 1e4)); vector<string> head; head.push_back("# head"); string fn = "par.dat"; const char* pre = "";
  if (how == 0) SaveParameters(p, mo, fn, head, L.n, solver, 1, r); else if (how == 1) { FILE* f = vx_open("par.dat"); pre = "#"; SaveParameters2(f, p, mo, head, "#"); } else PrintResults(p, mo, L.n, 1, r, false); string& t = files[how == 2 ? string("stdout") : fn]; vector<Tok> w; block(w, L, p, ox, oy, how != 1 && err ? e : nullptr, nullptr); compare(after(t, how == 0 ? "BIC:" : how == 1 ? "# head" : "BIC ="), w, "saved value and error belong to the name"); vx_reach("save"); free(p); free(e); delete mo; }
// ---- multi-image
struct PM : public MModel { FunctionObject* fo(int k) { return functionObjects[k]; } };
struct MSetup { vector<ImageSpec> sp; Lay L; int ni, n, ip; vector<string> names; vector<int> isx, img; };
static MSetup msetup(Multi& M, int maxloc) { MSetup s; s.ni = vx_pick("images", 1, TIER > 1 ? 4 : 3); int k = vx_pick("layout", 0, 2); s.L.f.push_back(1 + (k == 2)); s.L.sets.push_back(0); if (k) { s.L.f.push_back(1); if (k == 2) s.L.sets.push_back(1); } for (int i = 1; i < s.ni; i++) for (int q = 0; q < 5; q++) { s.names.push_back((const char*[]){"PIXEL_SCALE", "ROTATION", "FLUX_SCALE", "X0", "Y0"}[q]); s.isx.push_back(q == 3 ? 1 : q == 4 ? 2 : 0); s.img.push_back(i); } s.ip = 5 * (s.ni - 1); size_t set = 0; for (size_t c = 0; c < s.L.f.size(); c++) { if (set < s.L.sets.size() && s.L.sets[set] == (int)c) { set++; s.L.names.push_back("X0"); s.L.isx.push_back(1); s.L.names.push_back("Y0"); s.L.isx.push_back(2); } for (int j = 0; j < s.L.f[c]; j++) { char b[16]; snprintf(b, 16, "p%d_%d", (int)c, j); s.L.names.push_back(b); s.L.isx.push_back(0); } } s.L.n = (int)s.L.names.size(); for (int i = 0; i < s.L.n; i++) { s.names.push_back(s.L.names[i]); s.isx.push_back(s.L.isx[i]); s.img.push_back(0); }
  for (int i = 0; i < s.ni; i++) { ImageSpec im; im.nc = 2; im.nr = 1; im.data.push_back(5); im.data.push_back(6); int o = vx_pick("offset", 0, 1); im.ox = o * (3 + i); im.oy = o * (7 + i); int l = vx_pick("local", 0, maxloc); if (l) { im.localFuncs.push_back(2); im.localSets.push_back(0); char b[16]; s.names.push_back("X0"); s.isx.push_back(1); s.names.push_back("Y0"); s.isx.push_back(2); for (int j = 0; j < 2; j++) { snprintf(b, 16, "p%d_%d", 100 + (i + 1) * 10, j); s.names.push_back(b); s.isx.push_back(0); } for (int j = 0; j < 4; j++) s.img.push_back(i); } s.sp.push_back(im); } s.n = (int)s.names.size(); M.build(s.L.f, s.L.sets, s.sp, 2); vx_check(M.mm->FinalSetupForFitting() == 0, "accepted"); return s; }
static double offset(const MSetup& s, int i) { return s.isx[i] == 1 ? s.sp[s.img[i]].ox : s.isx[i] == 2 ? s.sp[s.img[i]].oy : 0; }
extern "C" void p12_multi() { vx_option("realarith", 1); Multi M; MSetup s = msetup(M, 1); vx_check(M.mm->GetNParams() == s.n, "number of parameters"); for (int i = 0; i < s.n; i++) vx_check(M.mm->GetParameterName(i) == s.names[i], "name by index"); double* p = dalloc(s.n); values(p, s.n, "p"); vector<Tok> g, w; parse(M.mm->PrintModelParamsHorizontalString(p), g); for (int i = 0; i < s.n; i++) N(w, p[i] + offset(s, i)); compare(g, w, "value in its own column"); vector<Tok> h; parse(M.mm->GetParamHeader(), h); vx_check((int)h.size() == s.n, "one column title per parameter"); for (int i = 0; i < s.n; i++) { string nm = s.names[i] == "ROTATION" ? "IMAGE_PA" : s.names[i]; vx_check(!h[i].num && h[i].w.compare(0, nm.size() + 1, nm + "_") == 0, "column title of this parameter"); } free(p); vx_reach("multi"); }
extern "C" void p12_correct() { vx_option("realarith", 1); Multi M; MSetup s = msetup(M, 1); double* p = dalloc(s.n); double* p0 = dalloc(s.n); values(p, s.n, "p"); for (int i = 0; i < s.n; i++) p0[i] = p[i]; int lk = vx_pick("limits", 0, 2); vector<mp_par> lim = mklimits(s.n, s.n), l0; for (auto& l : lim) { if (lk == 1) l.limited[0] = l.limited[1] = 0, l.limits[0] = l.limits[1] = 0; if (lk == 2) l.limited[1] = 0, l.limits[1] = 0; } l0 = lim; CorrectForImageOffsets(p, lim, M.mm); for (int i = 0; i < s.n; i++) { double o = offset(s, i); vx_check_real(p[i], p0[i] - o, 1e-9, "starting value shifted by the section offset of its image"); for (int b = 0; b < 2; b++) { vx_check(lim[i].limited[b] == l0[i].limited[b], "limit flags kept"); vx_check_real(lim[i].limits[b], l0[i].limited[b] ? l0[i].limits[b] - o : l0[i].limits[b], 1e-9, "limit shifted like the value"); } vx_check_real(lim[i].offset, o, 1e-9, "offset recorded"); } vector<double> back(s.n, 0.0); ((ModelObject*)M.mm)->GetImageOffsets(back.data()); for (int i = 0; i < s.n; i++) vx_check_real(p[i] + back[i], p0[i], 1e-9, "offsets cancel"); free(p); free(p0); vx_reach("correct"); }
static double rot(int k) { return (double[]){0, 30, 90, -45}[k]; }
extern "C" void p12_msave() { vx_option("realarith", 1); Multi M; MSetup s = msetup(M, 0); double* p = dalloc(s.n); double* e = dalloc(s.n); values(p, s.n, "p"); values(e, s.n, "error"); for (int i = 0; i < s.ip; i++) { if (i % 5 == 0) p[i] = vx_real("scale", 0.1, 10); if (i % 5 == 1) p[i] = 0; } int err = vx_pick("errors", 0, 1); vector<ImageInfo> ii(s.ni); for (int i = 0; i < s.ni; i++) { char b[16]; snprintf(b, 16, "im%d.fits", i); ii[i].dataImage_present = true; ii[i].dataImageFileName = b; ii[i].gain = 2.5; ii[i].readNoise = 3.25; ii[i].nCombined = 4; ii[i].originalSky = 6.5; M.im[i]->AddDataFilename(ii[i].dataImageFileName); } SolverResults r; r.SetSolverType(err ? MPFIT_SOLVER : DIFF_EVOLN_SOLVER); if (err) r.StoreErrors(e, s.n); vector<string> head; string fn = "info.dat"; SaveImageInfoParameters(p, M.mm, ii, r, fn, head); vector<Tok> w; for (int i = 0; i < s.ni; i++) { if (i == 0) { W(w, "Reference"); W(w, "image"); } if (i == 1) { W(w, "Additional"); W(w, "images"); } W(w, "IMAGE_START"); W(w, "DATA"); W(w, ii[i].dataImageFileName); W(w, "ORIGINAL_SKY"); N(w, 6.5); W(w, "GAIN"); N(w, 2.5); W(w, "READNOISE"); N(w, 3.25); W(w, "NCOMBINED"); N(w, 4); for (int q = 0; i && q < 5; q++) { int z = 5 * (i - 1) + q; W(w, (const char*[]){"PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"}[q]); N(w, p[z] + offset(s, z)); if (err) N(w, e[z]); } } compare(after(files[fn], "# IMAGE PARAMETERS"), w, "saved image-description value"); 
  string root = "out"; SaveMultImageParameters(p, M.mm, root, head); for (int i = 0; i < s.ni; i++) { char b[32]; if (i == 0) snprintf(b, 32, "out_refimage.dat"); else snprintf(b, 32, "out_image%d.dat", i + 1); vx_check(files.count(b) == 1, "one file per image"); vector<double> q(s.L.n); double rx = 0, ry = 0; bool first = true; for (int z = 0; z < s.L.n; z++) { q[z] = p[s.ip + z]; if (i && s.L.isx[z] == 1) { const double* D = p + 5 * (i - 1); if (first) { rx = p[s.ip + z]; ry = p[s.ip + z + 1]; q[z] = D[3]; } else q[z] = D[3] + D[0] * (p[s.ip + z] - rx); } else if (i && s.L.isx[z] == 2) { const double* D = p + 5 * (i - 1); q[z] = first ? D[4] : D[4] + D[0] * (p[s.ip + z] - ry); first = false; } } vector<Tok> x; block(x, s.L, q.data(), s.sp[i].ox, s.sp[i].oy, nullptr, nullptr); compare(after(files[b], "MODEL PARAMETERS FOR DATA IMAGE"), x, "parameters of this image"); }
  vector<string> ps; vx_check(M.mm->PrintModelParamsToStrings(ps, p, err ? e : nullptr, "", false) == 0, "printed"); string all; for (auto& x : ps) all += x + (x.back() == '\n' ? "" : "\n"); vector<Tok> y; block(y, s.L, p + s.ip, s.sp[0].ox, s.sp[0].oy, err ? e + s.ip : nullptr, nullptr); for (int i = 1; i < s.ni; i++) { char b[64]; for (auto x : {"Image-description", "parameters", "for", "image"}) W(y, x); N(y, i + 1); W(y, "(" + ii[i].dataImageFileName + ")"); for (int q = 0; q < 5; q++) { int z = 5 * (i - 1) + q; W(y, s.names[z]); N(y, p[z] + offset(s, z)); if (err) N(y, e[z]); } } compare(after(all, "Main model parameters"), y, "main summary value"); free(p); free(e); vx_reach("msave"); }
