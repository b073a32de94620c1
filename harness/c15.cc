// SOURCES: ALL
// FLAGS: -fno-access-control
// INTERFACE
#include "interfaces/conex.h"
#include "prog.h"
using namespace h;

VectorXd dual_of(Program& p, int i, int rows, Rng& r) {
  MatrixXd x = MatrixXd::Constant(rows, 1, 7);
  int n = (int)std::lround(std::sqrt(rows));
  bool square = n * n == rows;
  if (r.coin()) {
    MatrixXd y = square ? MatrixXd::Constant(n, n, 7) : x;
    check(CONEX_GetDualVariableSize(&p, i) == rows, fmt("CONEX_GetDualVariableSize of constraint %d: %d, want %d", i, CONEX_GetDualVariableSize(&p, i), rows));
    CONEX_GetDualVariable(&p, i, y.data(), y.rows(), y.cols());
    return Eigen::Map<VectorXd>(y.data(), rows);
  }
  check(p.GetDualVariableSize(i) == rows, fmt("size of dual variable %d: %d, want %d", i, p.GetDualVariableSize(i), rows));
  p.GetDualVariable(i, &x);
  return x;
}

double cone_distance(const Part& p, const VectorXd& x) {
  if (p.kind >= 2) {
    MatrixXd m = Eigen::Map<const MatrixXd>(x.data(), p.c.rows(), p.c.rows());
    return Eigen::SelfAdjointEigenSolver<MatrixXd>((m + m.transpose()) / 2).eigenvalues().minCoeff();
  }
  return x.minCoeff();
}

// Primal and dual results of a solved program: stationarity, feasibility and gap in the user's units.
void optimal(Rng& r) {
  Mute mute;
  int m = r.range(1, 4), cons = r.range(0, 3);
  std::vector<Part> parts;
  parts.push_back(box(r, m));
  static const int kinds[] = {0, 2, 3};
  for (int k = 0; k < cons; k++) parts.push_back(part(r, m, kinds[r.range(0, 2)]));
  double scale = std::pow(10, r.real(-2, 2)), size = std::pow(10, r.real(-1, 1));
  for (auto& p : parts) p.c *= size;
  if (r.coin()) std::swap(parts[0], parts.back());
  Program prog(m);
  for (auto& p : parts) p.add(prog);
  VectorXd cost = r.mat(m, 1) * scale;
  int pieces = r.range(0, 3);
  std::vector<double> x(m);
  SolverConfiguration f;
  f.max_iterations = 100;
  f.prepare_dual_variables = 1;
  f.enable_rescaling = r.coin();
  // the line search supports linear constraints only
  f.enable_line_search = r.coin();
  for (auto& p : parts) f.enable_line_search &= p.kind == 0;
  f.kkt_solver = r.range(0, 2);
  f.inv_sqrt_mu_max = std::pow(10, r.real(1.5, 3));
  f.final_centering_steps = 5;
  ctx() = fmt("%d variables, %d constraints, cost of size %g in %d pieces, right-hand sides of size %g, %s, %s, k <= %g", m, (int)parts.size(), scale, pieces, size,
              f.enable_rescaling ? "rescaling" : "no rescaling", f.enable_line_search ? "line search" : "divergence", f.inv_sqrt_mu_max);
  bool ret;
  int solves = r.range(1, 2);
  for (int s = 0; s < solves; s++) {
    if (s) {
      cost = r.mat(m, 1) * scale;
      f.initialization_mode = r.coin();
      ctx() += f.initialization_mode ? ", then a warm start with another cost" : ", then another cost";
    }
    if (pieces == 0) {
      ret = conex::Solve(-cost, prog, f, x.data());
    } else {
      // earlier costs, cleared
      if (r.coin()) prog.AddLinearCost(r.mat(m, 1));
      if (s || r.coin()) prog.AddLinearCost(r.mat(m, 1));
      prog.ClearLinearCosts();
      VectorXd rest = cost;
      for (int k = 1; k < pieces; k++) {
        VectorXd b = r.mat(m, 1) * scale;
        prog.AddLinearCost(b);
        rest -= b;
      }
      prog.AddLinearCost(rest);
      ret = conex::Solve(prog, f, x.data());
    }
    if (!ret) continue;
    nontrivial()++;
    VectorXd y = Eigen::Map<VectorXd>(x.data(), m), g = VectorXd::Zero(m);
    double pobj = 0, n = 0, big = 0;
    // whether the solver gets to the target (C16) is not decided here: after a warm start with another cost it may stop on the way
    bool there = f.initialization_mode == 0;
    double mu = 1 / (f.inv_sqrt_mu_max * f.inv_sqrt_mu_max);
    for (size_t i = 0; i < parts.size(); i++) {
      auto& p = parts[i];
      VectorXd d = dual_of(prog, i, p.rows(), r);
      VectorXd a = p.adjoint(d);
      for (size_t k = 0; k < p.vars.size(); k++) g(p.vars[k]) += a(k);
      pobj += p.cost(d);
      n += p.kind >= 2 ? p.c.rows() : p.rows();
      big = std::max(big, d.norm());
      if (there) check(p.slack(y) > -1e-7 * size, fmt("the point satisfies constraint %d: slack %g", (int)i, p.slack(y)));
      if (there) check(cone_distance(p, d) > -1e-5 * std::max(scale, big), fmt("dual variable %d is in the dual cone: %g", (int)i, cone_distance(p, d)));
    }
    double e = (g + cost).norm();
    check(e <= 1e-4 * (scale + big), fmt("A'x = b in the user's units: error %g, cost %s, A'x %s", e, show(cost).c_str(), show(g).c_str()));
    double gap = pobj + cost.dot(y);
    double last = prog.stats->sqrt_inv_mu[prog.stats->num_iter - 1];
    double mul = 1 / (last * last) / (prog.stats->b_scaling() * prog.stats->c_scaling());
    if (there) check(mul <= mu * 1.0001, fmt("parameter of the last iterate in the user's units: %g, target %g", mul, mu));
    double tol = 1e-5 * (std::fabs(pobj) + scale * size + big * size);
    if (there) check(gap >= -tol && gap <= n * mul * 2 + tol, fmt("c'x - b'y = %g, %g constraints times mu = %g", gap, n, n * mul));
  }
}

// a ray of an infeasible program is returned unscaled: the internal iterate, whatever the scalings
void rays(Rng& r) {
  Mute mute;
  int m = r.range(1, 3);
  Program prog(m);
  Part b = box(r, m), p;
  p.kind = 0;
  p.vars = {0};
  p.A = MatrixXd(2, 1);
  p.A << 1, -1;
  p.c = MatrixXd::Constant(2, 1, -r.real(.5, 2));
  b.add(prog);
  p.add(prog);
  prog.AddLinearCost(r.mat(m, 1));
  SolverConfiguration f;
  f.max_iterations = 60;
  f.prepare_dual_variables = 1;
  f.enable_rescaling = r.coin();
  f.enable_line_search = r.coin();
  std::vector<double> x(m);
  ctx() = fmt("infeasible program with %d variables, rescaling %d, line search %d", m, f.enable_rescaling, f.enable_line_search);
  bool ret = conex::Solve(prog, f, x.data());
  auto s = prog.Status();
  if (ret || !prog.stats->num_iter) return;
  double k = prog.stats->sqrt_inv_mu[prog.stats->num_iter - 1], scale = s.primal_infeasible ? 1 : k * prog.stats->b_scaling();
  int i = 0;
  for (auto q : {&b, &p}) {
    auto d = dual_of(prog, i, q->rows(), r);
    VectorXd w(q->rows());
    auto it = std::next(prog.kkt_system_manager_.eqs.begin(), i++);
    it->constraint.get_dual_variable(w.data());
    eq(d, VectorXd(w / scale), fmt("dual variable %d of a program that is %sinfeasible", i - 1, s.primal_infeasible ? "" : "not reported primal "), 1e-12);
  }
  if (s.primal_infeasible) nontrivial()++;
}

// a dual variable is the constraint's own, of the size reported
template <typename T>
void hermitian(Rng& r, const char* name) {
  Mute mute;
  int m = r.range(1, 3), n = r.range(1, 3), at = 0;
  Program prog(m);
  auto zero = [&] { return T::Zero(n, n); };
  std::vector<typename T::Matrix> ms;
  for (int k = 0; k < m; k++) {
    auto a = T::Random(n, n);
    ms.push_back(T::ScalarMultiply(T::Add(a, T::ConjugateTranspose(a)), .5));
  }
  if (r.coin()) box(r, m).add(prog), at = 1;
  prog.AddConstraint(HermitianPsdConstraint<T>(n, ms, T::Identity(n)));
  if (!at) box(r, m).add(prog);
  prog.AddLinearCost(r.mat(m, 1));
  SolverConfiguration f;
  f.prepare_dual_variables = 1;
  f.enable_rescaling = r.coin();
  std::vector<double> y(m);
  ctx() = fmt("%s matrices of order %d, %d variables, rescaling %d", name, n, m, f.enable_rescaling);
  bool ret = conex::Solve(prog, f, y.data());
  if (!ret) return;
  nontrivial()++;
  auto it = std::next(prog.kkt_system_manager_.eqs.begin(), at);
  auto* o = std::any_cast<HermitianPsdConstraint<T>>(&it->obj);
  if (!o) { check(false, "the constraint is kept by the program"); return; }
  auto d = dual_of(prog, at, n * n, r);
  double k = prog.stats->sqrt_inv_mu[prog.stats->num_iter - 1] * prog.stats->b_scaling();
  MatrixXd w = o->W.at(0) / k;
  eq(d, VectorXd(Eigen::Map<VectorXd>(w.data(), n * n)), fmt("%s matrices: the dual variable is the real part of the constraint's scaling point in the user's units", name), 1e-9);
}

// known finding: nothing is ever written to the dual variable of these constraints
void unwritten(Rng& r) {
  Mute mute;
  int m = r.range(1, 3);
  Program prog(m);
  Part s = part(r, m, 1);
  s.add(prog);
  box(r, m).add(prog);
  prog.AddLinearCost(r.mat(m, 1));
  auto* o = std::any_cast<SOCConstraint>(&prog.kkt_system_manager_.eqs.front().obj);
  if (!o) return;
  o->workspace()->W.setConstant(123);
  SolverConfiguration f;
  f.prepare_dual_variables = 1;
  std::vector<double> y(m);
  bool ret = conex::Solve(prog, f, y.data());
  if (!ret) return;
  VectorXd d(s.rows());
  ctx() = "";
  o->workspace_.W.data();
  prog.kkt_system_manager_.eqs.front().constraint.get_dual_variable(d.data());
  check(!((d.array() == 123).all()), "second-order cone: the dual variable is never written");
}

int main() {
  Rng r(seed());
  int k = 500 * scale();
  for (int i = 0; i < k; i++) {
    optimal(r);
    if (i % 3 == 0) rays(r);
    if (i % 6 == 0) {
      hermitian<Real>(r, "real");
      hermitian<Complex>(r, "complex");
      hermitian<Quaternions>(r, "quaternion");
    }
    if (i % 50 == 0) hermitian<Octonions>(r, "octonion");
    if (i % 50 == 0) unwritten(r);
  }
  return finish("random bounded programs (linear, LMI and Hermitian constraints, 1-4 variables, up to 5 constraints), costs over 4 orders of magnitude, with and without rescaling, line search, warm start and several cost pieces");
}
