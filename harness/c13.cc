// SOURCES: ALL
// FLAGS: -fno-access-control
// INTERFACE
#include "interfaces/conex.h"
#include "prog.h"
using namespace h;

std::string describe(const SolverConfiguration& f) {
  return fmt("mode %d, up to %d iterations, %s, %s, k <= %g, mu <= %g, final %d %g, kkt %d, infeasible above %g", f.initialization_mode, f.max_iterations,
             f.enable_line_search ? "line search" : "divergence", f.enable_rescaling ? "rescaling" : "no rescaling", f.inv_sqrt_mu_max, f.maximum_mu,
             f.final_centering_steps, f.final_centering_tolerance, f.kkt_solver, f.infeasibility_threshold);
}

// what must hold after every solve, whatever the program
void consistent(Program& p, const SolverConfiguration& f, bool ret) {
  auto s = p.Status();
  check(ret == (s.solved != 0), fmt("the value returned is the solved status: returned %d, status %d", ret, s.solved));
  check(s.solved == 0 || s.solved == 1, "the solved status is 0 or 1");
  check(!(s.solved && (s.primal_infeasible || s.dual_infeasible)), "solved excludes the infeasibility statuses");
  if (!p.stats) return;
  int n = p.stats->num_iter;
  check(n >= 0 && n <= f.max_iterations, fmt("the number of recorded iterations (%d) is at most the configured maximum (%d)", n, f.max_iterations));
  check(n <= p.stats->max_iter_, fmt("every recorded entry is inside the storage (%d of %d)", n, p.stats->max_iter_));
  if (s.solved) check(s.num_iterations == n && n >= 1, fmt("reported number of iterations: %d, recorded %d", s.num_iterations, n));
  double top = f.inv_sqrt_mu_max, bottom = std::sqrt(1 / (1e-15 + f.maximum_mu));
  if (f.enable_rescaling) top = 1 / std::sqrt(1 / (top * top) * p.stats->b_scaling() * p.stats->c_scaling());
  check(p.stats->b_scaling() > 0 && p.stats->c_scaling() > 0, fmt("the scalings are positive: %g %g", p.stats->b_scaling(), p.stats->c_scaling()));
  for (int i = 0; i < n; i++) {
    double k = p.stats->sqrt_inv_mu[i];
    // an aborted warm start has no entry for iteration 0
    if (i == 0 && f.initialization_mode && n > 1) continue;
    check(k >= bottom * (1 - 1e-9) && k <= std::max(top, bottom) * (1 + 1e-9), fmt("the recorded parameter %d (%g) is within the limits [%g, %g]", i, k, bottom, top));
  }
}

void history(Rng& r) {
  Mute mute;
  int m = r.range(1, 4), cons = r.range(0, 3);
  std::vector<Part> parts;
  parts.push_back(box(r, m));
  for (int k = 0; k < cons; k++) parts.push_back(part(r, m, r.range(0, 2)));
  bool infeasible = r.range(0, 4) == 0;
  if (infeasible) {   // x0 <= -1 and -x0 <= -1
    Part p;
    p.kind = 0;
    p.vars = {0};
    p.A = MatrixXd(2, 1);
    p.A << 1, -1;
    p.c = MatrixXd::Constant(2, 1, -r.real(.5, 2));
    parts.push_back(p);
  }
  bool quad = r.range(0, 4) == 0;
  Program prog(m);
  for (auto& p : parts) p.add(prog);
  if (quad) prog.AddQuadraticCost(r.psd(m) + MatrixXd::Identity(m, m));
  prog.AddLinearCost(r.dense(m, 1, std::pow(10, r.real(-1, 1))));
  std::vector<double> x(m);
  int solves = r.range(1, 4);
  for (int k = 0; k < solves; k++) {
    auto f = config(r);
    f.initialization_mode = r.coin();
    if (k == 0 && r.coin()) f.initialization_mode = 0;
    ctx() = fmt("solve %d of a program with %d variables, %d constraints%s%s: ", k, m, prog.NumberOfConstraints(), infeasible ? ", infeasible" : "", quad ? ", quadratic cost" : "") + describe(f);
    bool ret;
    if (r.coin()) {
      ret = conex::Solve(prog, f, x.data());
    } else {
      ret = conex::Solve(MatrixXd(r.dense(m, 1, 1)), prog, f, x.data());
    }
    nontrivial()++;
    bool refused = quad && !(f.enable_line_search && !f.enable_rescaling);
    if (refused) {
      check(!ret && !prog.Status().solved, "quadratic costs without line search or with rescaling are refused");
      auto s = prog.Status();
      check(!s.primal_infeasible && !s.dual_infeasible, "a refused program is not reported infeasible");
      continue;
    }
    consistent(prog, f, ret);
    if (f.max_iterations == 0) check(!ret, "without iterations nothing is solved");
    if (r.range(0, 4) == 0) parts.push_back(part(r, m, 0)), parts.back().add(prog);
  }
}

// the default options on ordinary programs, through the C interface as well
void ordinary(Rng& r) {
  Mute mute;
  int m = r.range(1, 4), cons = r.range(0, 3);
  std::vector<Part> parts;
  parts.push_back(box(r, m));
  for (int k = 0; k < cons; k++) parts.push_back(part(r, m, r.range(0, 2)));
  bool infeasible = r.range(0, 2) == 0;
  if (infeasible) {
    Part p;
    p.kind = 0;
    p.vars = {0};
    p.A = MatrixXd(2, 1);
    p.A << 1, -1;
    p.c = MatrixXd::Constant(2, 1, -r.real(.5, 2));
    parts.push_back(p);
  }
  CONEX_SolverConfiguration c;
  CONEX_SetDefaultOptions(&c);
  SolverConfiguration f;
  f.max_iterations = c.max_iterations = 60;
  f.enable_rescaling = c.enable_rescaling = r.coin();
  Program prog(m);
  for (auto& p : parts) p.add(prog);
  VectorXd b = r.mat(m, 1);
  std::vector<double> x(m);
  ctx() = fmt("default options, %d variables, %d constraints%s, rescaling %d", m, prog.NumberOfConstraints(), infeasible ? ", infeasible" : "", f.enable_rescaling);
  int ret = r.coin() ? CONEX_Maximize(&prog, b.data(), m, &c, x.data(), m) : (prog.ClearLinearCosts(), prog.AddLinearCost(-b), CONEX_Solve(&prog, &c, x.data(), m));
  consistent(prog, f, ret);
  nontrivial()++;
  if (infeasible) check(!ret, "an infeasible program is not reported solved");
  if (ret) {
    double s = 1e300;
    for (auto& p : parts) s = std::min(s, p.slack(Eigen::Map<VectorXd>(x.data(), m)));
    check(s > -1e-6, fmt("solved: the point satisfies the constraints (slack %g)", s));
  }
  if (!infeasible) check(ret == 1, "a bounded and strictly feasible program is solved");
}

long late_failures = 0;

void corners(Rng& r) {
  Mute mute;
  int m = r.range(1, 3);
  std::vector<double> x(m, 7);
  ctx() = "program without constraints";
  {
    Program prog(m);
    int cost = r.range(0, 2);
    if (cost) prog.AddLinearCost(cost == 1 ? MatrixXd(VectorXd::Ones(m)) : r.mat(m, 1));
    SolverConfiguration f;
    bool ret = conex::Solve(prog, f, x.data());
    check(!ret && !prog.Status().solved, "a program without constraints is not reported solved");
    auto s = prog.Status();
    check(!s.primal_infeasible && !s.dual_infeasible, "no constraints: no infeasibility status");
  }
  ctx() = "singular system";
  {
    // two equal columns: the system is singular, the factorisation fails
    Program prog(2);
    MatrixXd A(1, 2), c(1, 1);
    A << 1, 1;
    c << 1;
    prog.AddConstraint(LinearConstraint(A, c));
    SolverConfiguration f;
    f.initialization_mode = r.coin();
    f.enable_rescaling = r.coin();
    std::vector<double> y(2);
    // an earlier successful solve must not leak its status
    prog.status_.solved = 1;
    prog.status_.primal_infeasible = 1;
    bool ret = conex::Solve(prog, f, y.data());
    check(ret == (prog.Status().solved != 0), "the value returned is the solved status");
    check(!(prog.Status().solved && prog.Status().primal_infeasible), "no status of an earlier solve remains");
    check(prog.stats->num_iter >= 0 && prog.stats->num_iter <= f.max_iterations, "iterations recorded");
  }
  ctx() = "factorisations that fail in some iteration";
  {
    // no dual solution, or none of the primal: the scaling of some rows under- or overflows
    const int m = 2;
    std::vector<double> x(m);
    Program prog(m);
    int rows = r.range(m, m + 2);
    MatrixXd A = r.dense(rows, m, 1), c = r.dense(rows, 1, 1);
    A.col(1) = A.col(0) + std::pow(10, r.real(-9, -7)) * r.dense(rows, 1, 1);
    if (r.coin()) c.array() -= 3;
    prog.AddConstraint(LinearConstraint(A, c));
    prog.AddLinearCost(r.dense(m, 1, std::pow(10, r.range(-3, 6))));
    auto f = config(r);
    f.max_iterations = r.range(1, 200);
    f.inv_sqrt_mu_max = std::pow(10, r.range(0, 12));
    f.final_centering_steps = r.range(0, 3);
    f.kkt_error_tolerance = std::pow(10, r.range(-2, 20));
    f.infeasibility_threshold = std::pow(10, r.range(-2, 20));
    int before = mute.s.str().size();
    bool ret = conex::Solve(prog, f, x.data());
    ctx() = "ill-conditioned linear program: " + describe(f) + " A=" + show(A) + " c=" + show(c);
    bool failed = mute.s.str().find("Factorization failed", before) != std::string::npos;
    check(ret == (prog.Status().solved != 0), "the value returned is the solved status");
    if (failed) {
      nontrivial()++;
      if (prog.stats->num_iter > 0) late_failures++;
      check(!ret && !prog.Status().solved, fmt("a factorisation failed (after %d iterations): not solved", prog.stats->num_iter));
    }
  }
  ctx() = "warm start with changed limits";
  {
    Program prog(m);
    box(r, m).add(prog);
    prog.AddLinearCost(r.mat(m, 1));
    SolverConfiguration f;
    f.max_iterations = r.range(0, 4);
    f.initialization_mode = r.coin();
    for (int k = 0; k < 4; k++) {
      bool ret = conex::Solve(prog, f, x.data());
      consistent(prog, f, ret);
      nontrivial()++;
      f.initialization_mode = 1;
      f.max_iterations = r.range(0, 30);
    }
  }
  ctx() = "first solve is a warm start";
  {
    std::vector<std::vector<double>> ys;
    uint64_t at = r.range(0, 1 << 30);
    for (int mode = 0; mode < 2; mode++) {
      Rng q(at);
      // stale memory of earlier allocations
      { std::vector<VectorXd> junk; for (int k = 0; k < 40; k++) junk.push_back(VectorXd::Constant(8 * (k + 1), -3.5)); }
      Program prog(m);
      box(q, m).add(prog);
      prog.AddLinearCost(q.mat(m, 1));
      SolverConfiguration f;
      f.initialization_mode = mode;
      f.enable_rescaling = 0;
      f.warmstart_abort_threshold = 1e9;
      std::vector<double> y(m);
      bool ret = conex::Solve(prog, f, y.data());
      consistent(prog, f, ret);
      ys.push_back(y);
    }
    eq(Eigen::Map<VectorXd>(ys[1].data(), m), Eigen::Map<VectorXd>(ys[0].data(), m), "a warm start without an earlier solve starts from the identity", 1e-9);
  }
}

int main() {
  Rng r(seed());
  int k = 700 * scale();
  for (int i = 0; i < k; i++) {
    history(r);
    if (i < 2) sample(ctx());
    ordinary(r);
    if (i < 2) sample(ctx());
    if (i % 4 == 0) corners(r);
  }
  return finish(fmt("%d random histories of up to 4 solves with random options, %d ordinary programs, %ld factorisations failing after some iterations", k, k, late_failures));
}
