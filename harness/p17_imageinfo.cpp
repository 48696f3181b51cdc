// P17: image-information files
#include "mo.h"
#include "imageparams_file_parser.h"
#include "utilities_pub.h"
using std::string; using std::vector;
static string num() { string s; unsigned char c = vx_byte("digit"); vx_assume(c >= '0' && c <= '9'); if (vx_pick("sign", 0, TIER > 1 ? 1 : 0)) s = "-"; s.push_back((char)c); return s; }
static string plain() { string s; unsigned char c = vx_byte("digit"); vx_assume(c >= '1' && c <= '9'); s.push_back((char)c); return s; }
static double val(const string& s) { return strtod(s.c_str(), nullptr); }
static string word() { string s = "f"; unsigned char c = vx_byte("letter"); vx_assume((c >= 'a' && c <= 'z') || c == '[' || c == ','); s.push_back((char)c); return s; }
static const int FORMS = 38;
static const char* LIM[] = {"PIXEL_SCALE", "IMAGE_PA", "FLUX_SCALE", "X0", "Y0"};
// one line and what it states about an image; false: the line is malformed
static bool line(int f, string& t, ImageInfo& w) { string a, b, c; mp_par p; memset(&p, 0, sizeof p);
  if (f < 20) { int k = f % 5, how = f / 5; t = LIM[k]; a = num(); t += " " + a; bool ok = true, inside = true; if (how == 1) { p.fixed = 1; t += "\tfixed # 3,4"; } if (how == 2) { b = num(); c = num(); t += "  " + b + "," + c; p.limited[0] = p.limited[1] = 1; p.limits[0] = val(b); p.limits[1] = val(c); inside = val(b) < val(c) && val(a) >= val(b) && val(a) <= val(c); } if (how == 3) { int bad = vx_pick("bad", 0, 2); t += bad == 0 ? " 5," : bad == 1 ? " ," : " 1,2,3"; ok = false; }
    if (k < 2 && (how != 2 || !inside)) { memset(&p, 0, sizeof p); p.fixed = 1; } double v = val(a); if (k == 0) { w.pixelScale = v; w.pixelScale_limitInfo = p; } if (k == 1) { w.rotation = v; w.rotation_limitInfo = p; } if (k == 2) { w.intensityScale = v; w.intensityScale_limitInfo = p; } if (k == 3) { w.x0 = v; w.x0_limitInfo = p; } if (k == 4) { w.y0 = v; w.y0_limitInfo = p; } return ok; }
  switch (f) {
  case 20: a = num(); t = "GAIN " + a; w.gain = val(a); break;
  case 21: a = num(); t = "READNOISE\t" + a + " # e-"; w.readNoise = val(a); break;
  case 22: a = num(); t = "ORIGINAL_SKY " + a; w.originalSky = val(a); break;
  case 23: a = num(); t = "EXPTIME " + a; w.expTime = val(a); break;
  case 24: a = num(); t = "WEIGHT " + a; w.weight = val(a); break;
  case 25: a = plain(); t = "NCOLS " + a; w.nColumns = a[0] - '0'; break;
  case 26: a = plain(); t = "NROWS " + a; w.nRows = a[0] - '0'; break;
  case 27: a = plain(); b = plain(); t = "NROWS,NCOLS " + a + "," + b; w.nRows = a[0] - '0'; w.nColumns = b[0] - '0'; break;
  case 28: a = plain(); b = plain(); t = "NCOLS,NROWS " + a + "," + b; w.nColumns = a[0] - '0'; w.nRows = b[0] - '0'; break;
  case 29: a = plain(); t = "NCOMBINED " + a; w.nCombined = a[0] - '0'; break;
  case 30: a = word(); switch (vx_pick("file", 0, 3)) { case 0: t = "DATA " + a; w.dataImageFileName = a; w.dataImage_present = true; break; case 1: t = "MASK " + a; w.maskImageFileName = a; w.maskImage_present = true; break; case 2: t = "ERROR " + a; w.errorImageFileName = a; w.errorImage_present = true; break; default: t = "PSF " + a; w.psfImageFileName = a; w.psfImage_present = true; } break;
  case 31: a = plain(); t = "OVERSAMPLE_SCALE " + a; w.psfOversamplingScales.push_back(a[0] - '0'); w.nOversamplingScales += 1; break;
  case 32: a = word(); if (vx_pick("region", 0, 1)) { t = "OVERSAMPLED_REGION " + a; w.psfOversampleRegions.push_back(a); w.nOversampleRegions += 1; w.oversampleRegionSet = true; } else { t = "OVERSAMPLED_PSF " + a; w.psfOversampledFileNames.push_back(a); w.nOversampledFileNames += 1; w.psfOversampledImage_present = true; } break;
  case 33: switch (vx_pick("flag", 0, 4)) { case 0: t = "MASK_ZERO_IS_GOOD"; w.maskFormat = MASK_ZERO_IS_GOOD; break; case 1: t = "MASK_ZERO_IS_BAD # x"; w.maskFormat = MASK_ZERO_IS_BAD; break; case 2: t = "ERRORS_ARE_SIGMAS"; w.errorType = WEIGHTS_ARE_SIGMAS; break; case 3: t = "ERRORS_ARE_VARIANCES"; w.errorType = WEIGHTS_ARE_VARIANCES; break; default: t = "ERRORS_ARE_WEIGHTS"; w.errorType = WEIGHTS_ARE_WEIGHTS; } break;
  case 34: switch (vx_pick("nothing", 0, 3)) { case 0: t = "  "; break; case 1: t = "# IMAGE_START"; break; case 2: t = "OTHER 5 # IMAGE_START FUNCTIONS_START"; break; default: t = ""; } break;
  // malformed
  case 35: { static const char* k[] = {"GAIN", "PIXEL_SCALE # 1", "NROWS,NCOLS", "DATA", "OVERSAMPLE_SCALE"}; t = k[vx_pick("keyword", 0, 4)]; return false; }
  case 36: t = vx_pick("pair", 0, 1) ? "NROWS,NCOLS " : "NCOLS,NROWS "; t += vx_pick("second", 0, 1) ? "5," : "7"; return false;
  default: t = "X0 # 5 1,9"; return false; }
  return true; }
static void lim(const mp_par& a, const mp_par& b, const char* what) { vx_check(a.fixed == b.fixed && a.limited[0] == b.limited[0] && a.limited[1] == b.limited[1], what); if (b.limited[0]) vx_check(vx_same(a.limits[0], b.limits[0]) && vx_same(a.limits[1], b.limits[1]), what); }
static void same(const ImageInfo& g, const ImageInfo& w) { vx_check(g.dataImageFileName == w.dataImageFileName && g.maskImageFileName == w.maskImageFileName && g.errorImageFileName == w.errorImageFileName && g.psfImageFileName == w.psfImageFileName, "file names"); vx_check(g.dataImage_present == w.dataImage_present && g.maskImage_present == w.maskImage_present && g.errorImage_present == w.errorImage_present && g.psfImage_present == w.psfImage_present, "files present");
  vx_check(g.maskFormat == w.maskFormat && g.errorType == w.errorType, "mask and error formats"); vx_check(vx_same(g.weight, w.weight), "weight"); vx_check(vx_same(g.gain, w.gain), "gain"); vx_check(vx_same(g.readNoise, w.readNoise), "read noise"); vx_check(vx_same(g.originalSky, w.originalSky), "sky"); vx_check(vx_same(g.expTime, w.expTime), "exposure time"); vx_check(g.nCombined == w.nCombined, "images combined"); vx_check(g.nColumns == w.nColumns && g.nRows == w.nRows, "image size");
  vx_check(vx_same(g.x0, w.x0) && vx_same(g.y0, w.y0), "position"); vx_check(vx_same(g.pixelScale, w.pixelScale) && vx_same(g.intensityScale, w.intensityScale) && vx_same(g.rotation, w.rotation), "scales and rotation"); vx_check(g.psfOversampledFileNames == w.psfOversampledFileNames && g.psfOversamplingScales == w.psfOversamplingScales && g.psfOversampleRegions == w.psfOversampleRegions, "oversampling lists"); vx_check(g.nOversampledFileNames == w.nOversampledFileNames && g.nOversamplingScales == w.nOversamplingScales && g.nOversampleRegions == w.nOversampleRegions && g.psfOversampledImage_present == w.psfOversampledImage_present && g.oversampleRegionSet == w.oversampleRegionSet, "oversampling counts");
  lim(g.pixelScale_limitInfo, w.pixelScale_limitInfo, "pixel-scale limits"); lim(g.rotation_limitInfo, w.rotation_limitInfo, "rotation limits"); lim(g.intensityScale_limitInfo, w.intensityScale_limitInfo, "flux-scale limits"); lim(g.x0_limitInfo, w.x0_limitInfo, "x0 limits"); lim(g.y0_limitInfo, w.y0_limitInfo, "y0 limits");
  vx_check(g.perImageFunctionsExist == w.perImageFunctionsExist, "per-image functions"); if (w.perImageFunctionsExist) { vx_check(g.perImageFuncNames == w.perImageFuncNames, "per-image function names"); vx_check(g.perImageFuncLabels == w.perImageFuncLabels, "per-image labels"); vx_check(g.perImageFuncSetIndices == w.perImageFuncSetIndices, "per-image sets"); vx_check(g.perImageParamVals.size() == w.perImageParamVals.size() && g.perImageParamLimits.size() == w.perImageParamVals.size(), "per-image value count"); for (size_t i = 0; i < w.perImageParamVals.size() && i < g.perImageParamVals.size() && i < g.perImageParamLimits.size(); i++) { vx_check(vx_same(g.perImageParamVals[i], w.perImageParamVals[i]), "per-image value"); lim(g.perImageParamLimits[i], w.perImageParamLimits[i], "per-image limits"); } vx_check(g.perImageParamLimitsExist == w.perImageParamLimitsExist, "per-image limits exist"); } }
static void run(const vector<string>& t, const vector<ImageInfo>& want, bool ok) { std::vx_ifstream::add("info", t); vector<ImageInfo> got; int n = -7; got.push_back(ImageInfo()); got[0].gain = 99; got.push_back(got[0]); int rc = ReadImageParamsFile("info", n, got); vx_check((rc < 0) == !ok, "accepted exactly when well formed"); if (rc < 0 || !ok) { vx_reach("rejected"); return; } vx_check(n == (int)want.size() && got.size() == want.size(), "number of images"); for (size_t i = 0; i < want.size() && i < got.size(); i++) same(got[i], want[i]); vx_reach("accepted"); }
static bool put(vector<string>& t, ImageInfo& w) { string s; bool ok = line(vx_pick("form", 0, FORMS - 1), s, w); t.push_back(s); return ok; }
// two images, one line each, then an empty third
extern "C" void p17_images() { vector<string> t; vector<ImageInfo> w; bool ok = true; if (vx_pick("before", 0, 1)) t.push_back("GAIN 7"); for (int k = 0; k < 2; k++) { t.push_back(k ? "IMAGE_START # second" : " IMAGE_START"); ImageInfo i; ok &= put(t, i); w.push_back(i); } t.push_back("IMAGE_START"); w.push_back(ImageInfo()); run(t, w, ok); }
// one image, two lines of different keywords
extern "C" void p17_lines() { vector<string> t; vector<ImageInfo> w; t.push_back("IMAGE_START"); ImageInfo i; int f = vx_pick("form", 0, FORMS - 1), g = vx_pick("form", 0, FORMS - 1); vx_assume(!(f < 20 && g < 20 && f % 5 == g % 5)); string s; bool ok = line(f, s, i); t.push_back(s); ok &= line(g, s, i); t.push_back(s); w.push_back(i); run(t, w, ok); }
extern "C" void p17_empty() { vector<string> t; int n = vx_pick("lines", 0, 2); for (int k = 0; k < n; k++) { ImageInfo i; put(t, i); } run(t, vector<ImageInfo>(), false); }
// per-image function sections: none leaks into another image
struct Fn { string t; int kind; string v; };
static bool section(vector<string>& t, ImageInfo& w, int lines) { t.push_back("FUNCTIONS_START"); static const char* forms[] = {"X0 4", "Y0 5", "FUNCTION Aa", "FUNCTION Bb # LABEL bulge", "P 3", "P 2 1,9", "P 6 fixed", "Pa", "FUNCTION", "OPTIONAL_PARAMS_START x", "OPTIONAL_PARAMS_END x", "P 3 5,"}; vector<int> L; int how = vx_pick("how", 0, 1); if (how) { L.push_back(0); L.push_back(1); L.push_back(vx_pick("function", 2, 3)); } for (int i = 0; i < lines; i++) L.push_back(vx_pick("line", 0, 11)); for (int k : L) t.push_back(forms[k]);
  // meaning
  bool fn = false, opt = false; for (int k : L) if (k == 2 || k == 3) fn = true; if (L.empty() || L[0] != 0 || !fn) return false; w.perImageFunctionsExist = true; w.perImageParamLimitsExist = false; mp_par z; memset(&z, 0, sizeof z);
  for (size_t i = 0; i < L.size(); i++) { int k = L[i]; bool pos = k == 0 || (k == 1 && i && L[i - 1] == 0); if (k == 8) return false; if (k == 7) return false; if (k == 9) { if (w.perImageFuncNames.empty()) return false; opt = true; continue; } if (k == 10) { opt = false; continue; } if (k == 2 || k == 3) { w.perImageFuncNames.push_back(k == 2 ? "Aa" : "Bb"); w.perImageFuncLabels.push_back(k == 2 ? "" : "bulge"); continue; }
    if (k == 0) { if (i + 1 >= L.size() || L[i + 1] != 1) return false; w.perImageFuncSetIndices.push_back((int)w.perImageFuncNames.size()); } if (opt && !pos) continue; if (k == 11) return false;
    mp_par p = z; double v = k == 0 ? 4 : k == 1 ? 5 : k == 4 ? 3 : k == 5 ? 2 : 6; if (k == 5) { p.limited[0] = p.limited[1] = 1; p.limits[0] = 1; p.limits[1] = 9; } if (k == 6) p.fixed = 1; if (k == 5 || k == 6) w.perImageParamLimitsExist = true; w.perImageParamVals.push_back(v); w.perImageParamLimits.push_back(p); }
  return true; }
extern "C" void p17_functions() { vector<string> t; vector<ImageInfo> w; bool ok = true; int which = vx_pick("which", 0, 2); for (int k = 0; k < 2; k++) { t.push_back("IMAGE_START"); t.push_back("GAIN 3"); ImageInfo i; i.gain = 3; if (which == k || which == 2) { if (which == 2) ok &= section(t, i, k); else ok &= section(t, i, TIER > 1 ? 3 : 2); } w.push_back(i); } run(t, w, ok); }
// description parameters
extern "C" void p17_desc() { int n = vx_pick("images", 1, 3); vector<ImageInfo> L; vector<double> want; vector<mp_par> wl; bool any = false; for (int k = 0; k < n; k++) { ImageInfo i; double v[5]; mp_par p[5]; int which = k == 1 ? vx_pick("limited", 0, 4) : 2; for (int j = 0; j < 5; j++) { memset(&p[j], 0, sizeof(mp_par)); if (k < 2) v[j] = vx_double("value"); else v[j] = 10 * k + j; int kind = j == which ? vx_pick("kind", 0, 4) : 0; if (kind == 1) p[j].fixed = 1; if (kind == 2 || kind == 4) p[j].limited[0] = 1; if (kind == 3 || kind == 4) p[j].limited[1] = 1; p[j].limits[0] = k + j; p[j].limits[1] = k + j + 0.5; if (k > 0) { want.push_back(v[j]); wl.push_back(p[j]); if (kind) any = true; } }
    i.pixelScale = v[0]; i.pixelScale_limitInfo = p[0]; i.rotation = v[1]; i.rotation_limitInfo = p[1]; i.intensityScale = v[2]; i.intensityScale_limitInfo = p[2]; i.x0 = v[3]; i.x0_limitInfo = p[3]; i.y0 = v[4]; i.y0_limitInfo = p[4]; L.push_back(i); }
  double* d; int c; bool simple = vx_pick("simple", 0, 1); vector<mp_par> lims; bool found = !any; if (simple) std::tie(d, c) = GetImageDescriptionParams(L); else std::tie(d, c) = GetImageDescriptionParams(L, lims, found);
  vx_check(c == 5 * (n - 1), "number of values"); for (int i = 0; i < c && i < (int)want.size(); i++) vx_check(vx_same(d[i], want[i]), "value"); if (!simple) { vx_check(found == any, "limits found"); vx_check(lims.size() == wl.size(), "one limit entry per value"); for (size_t i = 0; i < wl.size() && i < lims.size(); i++) lim(lims[i], wl[i], "limits of the value"); } free(d); vx_reach("described"); }
// any bytes
extern "C" void p17_bytes() { int n = vx_pick("length", 0, TIER > 1 ? 5 : 3); string s; for (int i = 0; i < n; i++) { unsigned char c = vx_byte("char"); vx_assume(c != 0 && c != '\n' && c != 'x' && c != 'X' && c != 'n' && c != 'N' && c != 'i' && c != 'I'); s.push_back((char)c); } static const char* head[] = {"GAIN ", "PIXEL_SCALE ", "X0 5 ", "NROWS,NCOLS ", "FUNCTIONS_START", "IMAGE_START", "", "Y0 1 2,"}; vector<string> t; int where = vx_pick("where", 0, 1); if (where) t.push_back("IMAGE_START"); t.push_back(head[vx_pick("head", 0, 7)] + s); if (!where) t.push_back("IMAGE_START"); t.push_back("GAIN 5"); std::vx_ifstream::add("info", t); vector<ImageInfo> got; int k = 0; int rc = ReadImageParamsFile("info", k, got); if (rc >= 0) { vx_check(k == (int)got.size() && k >= 1, "images counted"); const ImageInfo& g = got[0]; if (g.pixelScale_limitInfo.limited[0]) vx_check(g.pixelScale_limitInfo.limits[0] < g.pixelScale_limitInfo.limits[1] && !g.pixelScale_limitInfo.fixed, "limits in order"); vx_reach("read"); } }
