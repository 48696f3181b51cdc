// Every registered image function, obtained through the real registration code (AddFunctions).
#pragma once
#include "mo.h"
#include "add_functions.h"
#include "func_pointsource.h"
#include "func_pointsource-rot.h"
#include "psf_interpolators.h"
struct FM : public ModelObject { FunctionObject* fo() { return functionObjects[0]; } };
struct StubPsf : public PsfInterpolator { double GetValue(double x, double y) { return vx_uf("psf", x, y, 0, 0); } };
static const int NF = 28;
static std::string fname(int k) { std::vector<std::string> names; GetFunctionNames(names); vx_check((int)names.size() >= NF, "registered functions"); return names[k]; }
static FunctionObject* make(std::string n, bool sub) { static StubPsf psf; FunctionObject* f; if (n == "PointSource") f = new PointSource(); else if (n == "PointSourceRot") f = new PointSourceRot(); else { FM* m = new FM(); std::vector<std::string> names(1, n), labels(1, ""); std::vector<int> sets(1, 0); vx_check(AddFunctions(m, names, labels, sets, sub, -1) == 0, "function can be added by its name"); f = m->fo(); } vx_check(f->GetShortName() == n, "registered under its own name"); if (f->IsPointSource()) { f->AddPsfInterpolator(&psf); f->SetSubsampling(sub); } return f; }
enum Kind { PLAIN, TILT, ANGLE, INTENSITY, LENGTH, INVLENGTH };
struct Desc { int n; std::vector<Kind> k; std::vector<std::string> names; };
static Desc describe(FunctionObject* f, const std::string& fn) { Desc d; d.n = f->GetNParams(); std::vector<std::string> units; f->GetParameterNames(d.names); f->GetParameterUnits(units); vx_check((int)d.names.size() == d.n && (int)units.size() == d.n, "number of parameters, names and units agree"); for (int i = 0; i < d.n; i++) { for (int j = 0; j < i; j++) vx_check(d.names[i] != d.names[j], "parameter names distinct"); vx_check(d.names[i].size() > 0, "parameter has a name"); const std::string& u = units[i]; Kind k = PLAIN; if (u.compare(0, 8, "deg (CCW") == 0) k = ANGLE; else if (u.compare(0, 6, "counts") == 0) k = INTENSITY; else if (u == "pixels") k = LENGTH; else if (u == "1/pixels") k = INVLENGTH; else if (u == "deg") k = TILT; d.k.push_back(k); } std::vector<std::string> byname; std::string nm = fn; vx_check(GetFunctionParameterNames(nm, byname) == 0 && byname == d.names, "listed parameter names"); return d; }
// parameter values as the documentation allows: positive sizes, shape parameters in their usual ranges
static double value(const Desc& d, int i, const char* tag) { switch (d.k[i]) { case ANGLE: return vx_real(tag, -360, 360); case TILT: return vx_real(tag, 0, 90); case INTENSITY: return vx_real(tag, -1e4, 1e4); case LENGTH: case INVLENGTH: return vx_real(tag, 0.5, 100); default: { const std::string& n = d.names[i]; if (n.compare(0, 3, "ell") == 0) return vx_real(tag, 0, 0.9); return vx_real(tag, 0.25, 4); } } }
