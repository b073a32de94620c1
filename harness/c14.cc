// SOURCES: ALL
// FLAGS: -fno-access-control
#include "h.h"
#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/soc_constraint.h"
using namespace h;
using namespace conex;

// what the program is documented to have registered
struct Entry {
  std::vector<int> vars, dual;
  bool cone;
  MatrixXd data;  // first data matrix, where readable
};

MatrixXd data(std::any& a) {
  if (auto* o = std::any_cast<LinearConstraint>(&a)) return o->constraint_matrix_;
  if (auto* o = std::any_cast<SOCConstraint>(&a)) return o->constraint_matrix_;
  if (auto* o = std::any_cast<EqualityConstraints>(&a)) return o->A_;
  if (auto* o = std::any_cast<DenseLMIConstraint>(&a)) return o->constraint_matrices_.size() ? o->constraint_matrices_[0] : MatrixXd();
  return MatrixXd();
}

bool valid(const std::vector<int>& v, int n) {
  std::set<int> s;
  for (int i : v)
    if (i < 0 || i >= n || !s.insert(i).second) return false;
  return true;
}

void compare(Program& p, int nv, const std::vector<Entry>& want) {
  auto& m = p.kkt_system_manager_;
  int K = want.size(), duals = 0, cones = 0;
  check((int)m.eqs.size() == K && (int)m.cliques.size() == K && (int)m.dual_vars.size() == K && p.NumberOfConstraints() == K,
        "one entry per accepted constraint");
  if ((int)m.eqs.size() != K || (int)m.cliques.size() != K || (int)m.dual_vars.size() != K) return;
  auto it = m.eqs.begin();
  std::set<int> used;
  for (int k = 0; k < K; k++, ++it) {
    auto clique = want[k].vars;
    for (int d : want[k].dual) clique.push_back(d);
    check(m.cliques[k] == clique, fmt("constraint %d keeps its variables, followed by its dual indices: got %s expected %s", k,
                                      show(m.cliques[k]).c_str(), show(clique).c_str()));
    check(m.dual_vars[k] == want[k].dual, fmt("constraint %d: private dual indices: got %s expected %s", k, show(m.dual_vars[k]).c_str(), show(want[k].dual).c_str()));
    for (int d : m.dual_vars[k]) check(d >= nv && used.insert(d).second, "dual indices are disjoint from the variables and each other");
    if (want[k].data.size()) check(data(it->obj) == want[k].data, fmt("constraint %d keeps its data", k));
    check((int)it->supernodal_assembler.num_variables_ == (int)clique.size(), "the assembler has one row per index");
    duals += want[k].dual.size();
    if (want[k].cone) {
      check(cones < (int)p.constraints_.size() && p.constraints_[cones] == &it->constraint, "stepped constraints are the cones in order");
      cones++;
    }
  }
  check((int)p.constraints_.size() == cones, "only the cones are stepped");
  check(m.SizeOfKKTSystem() == nv + duals, fmt("system size: got %d expected %d", m.SizeOfKKTSystem(), nv + duals));
  check(p.GetNumberOfVariables() == nv, "number of variables");
}

// adds T as an lvalue, a const lvalue or an rvalue; afterwards the argument is overwritten
template <typename T>
bool add(Rng& r, Program& p, T& x, const std::vector<int>* v) {
  switch (r.range(0, 2)) {
    case 0: return v ? p.AddConstraint(x, *v) : p.AddConstraint(x);
    case 1: { const T& y = x; return v ? p.AddConstraint(y, *v) : p.AddConstraint(y); }
    default: { T y(x); return v ? p.AddConstraint(std::move(y), *v) : p.AddConstraint(std::move(y)); }
  }
}

void run(Rng& r) {
  Mute mute;
  int nv = r.range(0, 6);
  Program p(nv);
  std::vector<Entry> want;
  std::string log = fmt("%d variables:", nv);
  int start = nv, K = r.range(1, 7);
  for (int k = 0; k < K; k++) {
    bool listed = r.range(0, 4) != 0;
    std::vector<int> v = r.subset(nv, nv ? r.range(0, nv) : 0);
    if (listed && r.range(0, 2) == 0) {     // spoil the list
      int pos = v.empty() ? 0 : r.range(0, v.size() - 1);
      int bad;
      switch (r.range(0, 4)) {
        case 0: bad = -r.range(1, 3); break;
        case 1: bad = nv; break;
        case 2: bad = nv + r.range(0, 3); break;
        default: bad = v.empty() ? nv : v[r.range(0, v.size() - 1)];
      }
      if (r.coin()) v.insert(v.begin() + pos, bad); else v.push_back(bad);
    }
    if (!listed) { v.clear(); for (int i = 0; i < nv; i++) v.push_back(i); }
    int n = v.size(), rows = r.range(0, 3), kind = r.range(0, 5);
    if (kind >= 2 && kind <= 4 && rows == 0) rows = 1;
    bool ok = valid(v, nv), st;
    Entry e{v, {}, kind != 0, MatrixXd()};
    log += fmt(" %s(%s,%d rows)", kind == 0 ? "equality" : kind == 5 ? "cost" : "cone", show(v).c_str(), rows);
    ctx() = log;
    auto* lp = listed ? &v : nullptr;
    if (kind == 0) {
      MatrixXd A = r.dense(rows, n), b = r.dense(rows, 1);
      EqualityConstraints c(A, b);
      st = add(r, p, c, lp);
      c.A_.setConstant(7);
      e.data = A;
      for (int i = 0; i < rows; i++) e.dual.push_back(start + i);
    } else if (kind == 1) {
      MatrixXd A = r.dense(rows, n), b = r.dense(rows, 1);
      LinearConstraint c(A, b);
      st = add(r, p, c, lp);
      c.constraint_matrix_.setConstant(7);
      e.data = A;
    } else if (kind == 2) {
      MatrixXd A = r.dense(rows + 1, n), b = r.dense(rows + 1, 1);
      SOCConstraint c(A, b);
      st = add(r, p, c, lp);
      c.constraint_matrix_.setConstant(7);
      e.data = A;
    } else if (kind == 3) {
      std::vector<MatrixXd> A;
      for (int i = 0; i < n; i++) A.push_back(r.sym(rows));
      DenseLMIConstraint c(A, r.sym(rows));
      st = add(r, p, c, lp);
      if (n) e.data = A[0];
    } else if (kind == 4) {
      MatrixXd A = r.dense(rows + 1, n), b = r.dense(rows + 1, 1);
      QuadraticConstraint c(r.psd(rows), A, b);
      st = add(r, p, c, lp);
    } else {
      bool had = p.contains_quadratic_costs_;
      MatrixXd Q = r.psd(n);
      st = lp ? p.AddQuadraticCost(Q, v) : p.AddQuadraticCost(Q);
      check(p.contains_quadratic_costs_ == (had || ok), "quadratic costs are remembered exactly when accepted");
    }
    check((st == 0) == ok, fmt("a list is accepted exactly when its entries are distinct and in range; status %d for a%s valid list", st, ok ? "" : "n in"));
    if (ok) { want.push_back(e); start += e.dual.size(); nontrivial()++; }
    compare(p, nv, want);
  }
}

int main() {
  Rng r(seed());
  int k = 12000 * scale();
  for (int i = 0; i < k; i++) {
    run(r);
    if (i < 3) sample(ctx());
  }
  // exhaustive: every list over -1..nv of length up to 4
  for (int nv = 0; nv <= 3; nv++)
    for (int len = 0; len <= 4; len++) {
      int b = nv + 2, tot = 1;
      for (int i = 0; i < len; i++) tot *= b;
      for (int c = 0; c < tot; c++) {
        std::vector<int> v;
        for (int i = 0, x = c; i < len; i++, x /= b) v.push_back(x % b - 1);
        ctx() = fmt("IsUnique(%d, %s)", nv, show(v).c_str());
        check((IsUnique(nv, v) != 0) == valid(v, nv), "a list is accepted exactly when its entries are distinct and in range");
      }
    }
  return finish(fmt("%d random sequences of up to 7 additions of 6 kinds over up to 6 variables; all lists over -1..n of length up to 4 for n up to 3", k));
}
