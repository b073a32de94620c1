// Random programs with a box (bounded, strictly feasible at 0 unless asked otherwise) for whole-solve checks.
#pragma once
#include "h.h"
#include "conex/cone_program.h"
#include "conex/constraint.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/equality_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cost.h"
#include "conex/soc_constraint.h"
namespace h {
using namespace conex;
struct Part {
  int kind;                     // 0 linear, 1 second-order cone, 2 LMI, 3 LMI as a Hermitian constraint over R
  std::vector<int> vars;
  MatrixXd A;                   // linear, SOC: one column per variable
  MatrixXd c;
  std::vector<MatrixXd> As;     // LMI
  int rows() const { return kind >= 2 ? c.rows() * c.rows() : c.rows(); }
  // adjoint of the linear map applied to the dual variable x (as returned)
  VectorXd adjoint(const VectorXd& x) const {
    VectorXd r(vars.size());
    for (size_t i = 0; i < vars.size(); i++)
      r(i) = kind >= 2 ? As[i].cwiseProduct(Eigen::Map<const MatrixXd>(x.data(), c.rows(), c.rows())).sum() : A.col(i).dot(x);
    return r;
  }
  double cost(const VectorXd& x) const {
    return kind >= 2 ? c.cwiseProduct(Eigen::Map<const MatrixXd>(x.data(), c.rows(), c.rows())).sum() : c.col(0).dot(x);
  }
  // smallest eigenvalue of the slack c - A y
  double slack(const VectorXd& y) const {
    if (kind >= 2) {
      MatrixXd s = c;
      for (size_t i = 0; i < vars.size(); i++) s -= As[i] * y(vars[i]);
      return Eigen::SelfAdjointEigenSolver<MatrixXd>(s).eigenvalues().minCoeff();
    }
    VectorXd s = c.col(0);
    for (size_t i = 0; i < vars.size(); i++) s -= A.col(i) * y(vars[i]);
    if (kind == 1) return s(0) - s.tail(s.size() - 1).norm();
    return s.minCoeff();
  }
  void add(Program& p) const {
    if (kind == 0) p.AddConstraint(LinearConstraint(A, c), vars);
    if (kind == 1) p.AddConstraint(SOCConstraint(A, c), vars);
    if (kind == 2) p.AddConstraint(DenseLMIConstraint(As, c), vars);
    if (kind == 3) {
      std::vector<Real::Matrix> ms;
      for (auto& a : As) {
        ms.emplace_back(1);
        ms.back().at(0) = a;
      }
      Real::Matrix cm(1);
      cm.at(0) = c;
      p.AddConstraint(HermitianPsdConstraint<Real>(c.rows(), ms, cm), vars);
    }
  }
};
inline Part box(Rng& r, int m, double lo = .3, double hi = 2) {
  Part p;
  p.kind = 0;
  for (int i = 0; i < m; i++) p.vars.push_back(i);
  p.A = MatrixXd(2 * m, m);
  p.A << MatrixXd::Identity(m, m), -MatrixXd::Identity(m, m);
  p.c = MatrixXd(2 * m, 1);
  for (int i = 0; i < 2 * m; i++) p.c(i) = r.real(lo, hi);
  return p;
}
inline Part part(Rng& r, int m, int kind) {
  Part p;
  p.kind = kind;
  int nv = r.range(1, m);
  auto perm = r.perm(m);
  p.vars.assign(perm.begin(), perm.begin() + nv);
  if (kind >= 2) {
    int n = r.range(1, 3);
    for (int i = 0; i < nv; i++) p.As.push_back(r.sym(n));
    p.c = MatrixXd::Identity(n, n) * r.real(.5, 2);
  } else {
    int n = kind == 1 ? r.range(2, 4) : r.range(1, 3);
    p.A = r.dense(n, nv);
    p.c = MatrixXd::Zero(n, 1);
    for (int i = 0; i < n; i++) p.c(i) = kind == 1 ? (i ? r.real(-.2, .2) : r.real(.6, 2)) : r.real(.2, 2);
  }
  return p;
}
inline SolverConfiguration config(Rng& r) {
  SolverConfiguration f;
  f.enable_line_search = r.coin();
  f.enable_rescaling = r.coin();
  if (r.coin()) f.inv_sqrt_mu_max = r.real(1, 500);
  if (r.coin()) f.maximum_mu = r.real(1, 100);
  f.max_iterations = r.range(0, 3) ? r.range(1, 40) : r.range(0, 3);
  f.final_centering_steps = r.range(0, 5);
  f.final_centering_tolerance = r.coin() ? .01 : r.real(1e-9, 2);
  f.iterative_refinement_iterations = r.range(0, 1);
  f.kkt_solver = r.range(0, 2);
  f.prepare_dual_variables = r.coin();
  if (r.range(0, 3) == 0) f.infeasibility_threshold = r.real(1e-4, 10);
  if (r.range(0, 3) == 0) f.kkt_error_tolerance = r.real(1e-9, 1);
  if (r.range(0, 3) == 0) f.warmstart_abort_threshold = r.real(0, 2);
  f.initial_centering_steps_coldstart = r.range(0, 1);
  f.initial_centering_steps_warmstart = r.range(0, 1);
  return f;
}
}  // namespace h
