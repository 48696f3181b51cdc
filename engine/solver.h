// Z3 layer: exact-by-CEGAR decision of constraints over Expr.
#pragma once
#include "expr.h"
#include <z3++.h>
#include <memory>
enum Res { R_SAT, R_UNSAT, R_UNK };
struct SolverStats { long queries = 0, sat = 0, unsat = 0, unk = 0, uf = 0, fpa = 0, refinements = 0, modelhits = 0; double secs = 0, maxsecs = 0; };
struct Solver {
  z3::context ctx;
  SolverStats st;
  unsigned uf_timeout = 10000, fpa_timeout = 15000; int max_refine = 12; bool use_fpa = true; bool verbose = false;
  Solver();
  // satisfiability of the conjunction; on SAT *out holds a model that satisfies the constraints under host IEEE semantics
  Res check(const std::vector<E>& cs, Model* out);
  // real-arithmetic bounded linear query: exists |m_i|<=B_i with |sum c_i m_i| > tol ?
  Res check_linear(const std::vector<double>& coef, double tol);
 private:
  std::unordered_map<uint32_t, z3::expr> cu, cf_bv, cf_fp;    // translation caches
  std::unordered_map<uint32_t, std::vector<z3::expr>> lem;
  std::unordered_map<std::string, z3::func_decl> ufs;
  z3::expr tr(E e);            // UF mode, bit-vector result (width-1 => bv1)
  z3::expr trF(E e);           // FPA mode, bit-vector result
  z3::expr trFP(E e);          // FPA mode, fp result
  z3::expr trnode(E e, std::vector<z3::expr>& a, bool fpa);
  z3::expr b2bv(const z3::expr& b);
  z3::expr bv2b(const z3::expr& b);
  void lemmas(E e);
  z3::expr var(E e);
  z3::func_decl uf(const std::string& n, unsigned arity, E e);
  Res run(const std::vector<E>& cs, Model* out, bool fpa);
};
