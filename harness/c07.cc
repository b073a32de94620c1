// SOURCES: ALL
// FLAGS: -fno-access-control
#include "h.h"
#include "conex/soc_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/cone_program.h"
#include "conex/divergence.h"
#include "conex/linear_constraint.h"
using namespace h;
using namespace conex;

constexpr double MAXD = std::numeric_limits<double>::max();

struct Set {   // closed interval
  double lo = -MAXD, up = MAXD;
  bool empty = false;
  // intersect with {k : |d0 + k delta| <= D}
  void row(double d0, double delta, double D) {
    if (delta == 0) { if (std::fabs(d0) > D) empty = true; return; }
    double a = (-D - d0) / delta, b = (D - d0) / delta;
    lo = std::max(lo, std::min(a, b));
    up = std::min(up, std::max(a, b));
  }
  bool none() const { return empty || lo > up; }
};

void linear_search(Rng& r) {
  int n = r.range(0, 4), m = r.range(1, 3);
  MatrixXd A = r.mat(n, m), c = r.mat(n, 1);
  LinearConstraint o(A, c);
  auto* ws = o.workspace();
  Memory mem(SizeOf(*ws));
  Initialize(ws, mem.base);
  VectorXd w(n);
  for (int i = 0; i < n; i++) w(i) = r.real(.1, 3);
  ws->W = w;
  LineSearchParameters p;
  p.c0_weight = r.coin() ? 0 : r.real();
  p.c1_weight = r.coin() ? 1 : r.real(-1, 3);
  p.dinf_upper_bound = r.coin() ? 1 : r.real(0, 4);
  Memory my0(m), my1(m);
  Ref y0(my0.base, m, 1), y1(my1.base, m, 1);
  bool same = r.range(0, 7) == 0;
  for (int i = 0; i < m; i++) { y0(i) = 2 * r.real(); y1(i) = same ? y0(i) : 2 * r.real(); }
  if (same) p.c1_weight = p.c0_weight;
  if (r.range(0, 3) == 0) y0.setZero();
  VectorXd d0 = VectorXd::Ones(n) + w.cwiseProduct(A * y0 - p.c0_weight * c), d1 = VectorXd::Ones(n) + w.cwiseProduct(A * y1 - p.c1_weight * c);
  Set s;
  bool edge = false;
  for (int i = 0; i < n; i++) {
    double de = d1(i) - d0(i);
    edge = edge || (de != 0 && std::fabs(de) < 1e-10) || (de == 0 && std::fabs(std::fabs(d0(i)) - p.dinf_upper_bound) < 1e-10);
    s.row(d0(i), de, p.dinf_upper_bound);
  }
  if (edge || (!s.none() && s.up - s.lo < 1e-8) || (s.none() && !s.empty && s.lo - s.up < 1e-8)) return;   // decided by rounding
  ctx() = fmt("d0=%s delta=%s bound=%g", show(d0).c_str(), show(VectorXd(d1 - d0)).c_str(), p.dinf_upper_bound);
  LineSearchOutput out;
  bool failure = PerformLineSearch(&o, p, y0, y1, &out);
  nontrivial()++;
  check(failure == s.none(), fmt("failure exactly when no k is within the bound (reported %d)", failure));
  check(mem.guards() && my0.guards() && my1.guards(), "no write outside the workspace");
  if (failure || s.none()) return;
  eq(out.lower_bound, s.lo, "lower end of the interval", 1e-6, 1e-9);
  eq(out.upper_bound, s.up, "upper end of the interval", 1e-6, 1e-9);
}

void divergence(Rng& r) {
  int n = r.range(1, 5);
  VectorXd e(n);
  double base = std::pow(10, r.real(-2, 2)), spread = r.coin() ? r.real(0, .3) : r.real(0, 3);
  for (int i = 0; i < n; i++) e(i) = base * (1 + spread * r.real());
  if (r.range(0, 5) == 0) e = -e;
  if (r.range(0, 9) == 0) e.setZero();
  WeightedSlackEigenvalues p;
  p.frobenius_norm_squared = e.squaredNorm();
  p.trace = e.sum();
  p.lambda_min = e.minCoeff();
  p.lambda_max = e.maxCoeff();
  p.rank = n;
  double D = r.coin() ? n * 1.0 : n * std::pow(10, r.real(-2, 1));
  ctx() = fmt("eigenvalues=%s bound=%g", show(e).c_str(), D);
  double k = DivergenceUpperBoundInverse(D, p);
  if (k > 0) {
    nontrivial()++;
    double ni = (k * e.array() - 1).abs().maxCoeff();
    check(ni < 1, fmt("the bound is finite at a valid k (k=%g, maximum norm %g)", k, ni));
    if (1 - ni > 1e-6) {
      double b = (k * e.array() - 1).square().sum() / (1 - ni);
      eq(b, D, fmt("the bound at a valid k is the requested one (k=%g)", k), 1e-6);
      eq(DivergenceUpperBound(k, p), b, fmt("divergence bound at k=%g", k), 1e-6);
    }
  }
  double q = r.real(.05, 1.95) / p.lambda_max;
  double ni = (q * e.array() - 1).abs().maxCoeff();
  if (p.lambda_max > 0 && ni < .999) eq(DivergenceUpperBound(q, p), (q * e.array() - 1).square().sum() / (1 - ni), fmt("divergence bound at k=%g", q), 1e-7);
}

// the parameter chosen in the first iteration of a solve
void program(Rng& r) {
  Mute mute;
  int m = r.range(1, 3), cons = r.range(1, 3);
  std::vector<MatrixXd> A, c;
  Program prog(m);
  // box, so that every variable occurs and the system is definite
  A.push_back(MatrixXd(2 * m, m));
  A[0] << MatrixXd::Identity(m, m), -MatrixXd::Identity(m, m);
  c.push_back(MatrixXd(2 * m, 1));
  for (int i = 0; i < 2 * m; i++) c[0](i) = r.real(.3, 2);
  for (int k = 1; k < cons; k++) {
    int n = r.range(1, 3);
    A.push_back(r.dense(n, m));
    c.push_back(MatrixXd(n, 1));
    for (int i = 0; i < n; i++) c[k](i) = r.real(-.2, 2);
  }
  std::vector<int> order = r.perm(cons);
  for (int k : order) prog.AddConstraint(LinearConstraint(A[k], c[k]));
  VectorXd cost = r.dense(m, 1, std::pow(10, r.real(-1, 1)));
  prog.AddLinearCost(cost);
  SolverConfiguration f;
  f.enable_line_search = r.coin();
  f.enable_rescaling = r.coin();
  f.dinf_upper_bound = r.coin() ? 1 : r.real(.2, 3);
  f.divergence_upper_bound = r.coin() ? 1 : r.real(.05, 3);
  f.inv_sqrt_mu_max = r.coin() ? 1000 : r.real(.05, 2);
  f.maximum_mu = r.coin() ? 1e4 : r.real(.5, 50);
  f.final_centering_tolerance = 1e-12;
  std::vector<double> x(m);
  bool warm = r.coin();
  if (!f.enable_rescaling && !f.enable_line_search && r.range(0, 3) == 0) {
    // eigenvalues of any magnitude
    double big = std::pow(10, r.real(3, 7));
    for (auto& v : c) v *= big;
    warm = false;
    f.maximum_mu = big * big * 1e4;
    prog = Program(m);
    for (int k : order) prog.AddConstraint(LinearConstraint(A[k], c[k]));
    prog.AddLinearCost(cost);
  }
  if (warm) {
    f.max_iterations = r.range(1, 6);
    Solve(prog, f, x.data());
    if (prog.stats->num_iter < 1) return;
    f.initialization_mode = 1;
    f.warmstart_abort_threshold = 1e9;
  }
  f.max_iterations = 1;
  std::vector<VectorXd> W(cons);
  int rows = 0;
  for (int q = 0; q < cons; q++) rows += A[q].rows();
  {
    int q = 0;
    for (auto& e : prog.kkt_system_manager_.eqs) {
      auto* l = std::any_cast<LinearConstraint>(&e.obj);
      W[order[q]] = warm ? VectorXd(l->workspace_.W) : VectorXd::Ones(A[order[q]].rows());
      q++;
    }
  }
  Solve(prog, f, x.data());
  double bs = prog.stats->b_scaling(), cs = prog.stats->c_scaling();
  MatrixXd G = MatrixXd::Zero(m, m);
  VectorXd AW = VectorXd::Zero(m), AQc = VectorXd::Zero(m), b = -cost * bs;
  for (int q = 0; q < cons; q++) {
    MatrixXd WA = W[q].asDiagonal() * A[q];
    G += WA.transpose() * WA;
    AW += A[q].transpose() * W[q];
    AQc += WA.transpose() * W[q].cwiseProduct(c[q]);
  }
  double top = f.inv_sqrt_mu_max;
  if (f.enable_rescaling) top = 1 / std::sqrt(1 / (top * top) * bs * cs);
  double bottom = std::sqrt(1 / (1e-15 + f.maximum_mu));
  ctx() = fmt("program with %d linear constraints, %d variables, %s, %s, bounds %g %g, limits %g %g", cons, m, f.enable_line_search ? "line search" : "divergence bound",
              warm ? "warm" : "cold", f.dinf_upper_bound, f.divergence_upper_bound, bottom, top);
  if (prog.stats->num_iter != 1) return;
  double got = prog.stats->sqrt_inv_mu[0];
  if (bottom <= top) check(got >= bottom * (1 - 1e-9) && got <= top * (1 + 1e-9), fmt("the parameter used (%g) is within the configured limits [%g, %g]", got, bottom, top));
  auto clamp = [&](double k) { return std::max(bottom, std::min(top, k)); };
  Eigen::LDLT<MatrixXd> F(G);
  if (f.enable_line_search) {
    VectorXd y0 = F.solve(-2 * AW), y1 = F.solve(AQc * cs + b - 2 * AW);
    Set s;
    for (int q = 0; q < cons; q++) {
      VectorXd d0 = W[q].cwiseProduct(A[q] * y0), d1 = W[q].cwiseProduct(A[q] * y1 - cs * c[q]);
      for (int i = 0; i < d0.size(); i++) s.row(1 + d0(i), d1(i) - d0(i), f.dinf_upper_bound);
    }
    if (std::fabs(s.up - s.lo) < 1e-6) return;
    if (s.none()) {   // reported as failure: the (initial) parameter 0 is kept
      if (s.lo > s.up + 1e-3 * (1 + std::fabs(s.lo))) eq(got, clamp(0), "line search without any k within the bound keeps the previous parameter");
      return;
    }
    nontrivial()++;
    eq(got, clamp(s.up), "line search: the largest k in the intersection of all intervals", 1e-5);
  } else {
    VectorXd y = F.solve(AQc * cs - b);
    WeightedSlackEigenvalues p;
    p.lambda_min = 1e300;
    p.lambda_max = -1e300;
    p.rank = rows;
    for (int q = 0; q < cons; q++) {
      VectorXd s = W[q].cwiseProduct(cs * c[q] - A[q] * y);
      p.frobenius_norm_squared += s.squaredNorm();
      p.trace += s.sum();
      p.lambda_min = std::min(p.lambda_min, s.minCoeff());
      p.lambda_max = std::max(p.lambda_max, s.maxCoeff());
    }
    if (!(p.lambda_min > 1e-6)) return;
    // does some k attain the requested bound?  F k^2 - 2 T k + n = D (1 - norm): both branches
    double D = f.divergence_upper_bound * rows, best = -1;
    auto value = [&](double k) {
      double ni = std::max(std::fabs(k * p.lambda_max - 1), std::fabs(k * p.lambda_min - 1));
      return ni >= 1 ? 1e300 : (k * k * p.frobenius_norm_squared - 2 * k * p.trace + rows) / (1 - ni);
    };
    // some k with value(k) = D: the last crossing on a fine grid, refined
    double hi = 2 / p.lambda_max, prev = hi;
    for (int t = 1; t <= 4000; t++) {
      double k = hi * (1 - t / 4001.0);
      if (value(k) <= D) {
        double a = k, z = prev;
        for (int u = 0; u < 80; u++) { double h = .5 * (a + z); (value(h) <= D ? a : z) = h; }
        best = a;
        break;
      }
      prev = k;
    }
    if (best < 0) return;
    nontrivial()++;
    if (got > bottom * 1.0001 && got < top * .9999 && value(got) < 1e200)
      eq(value(got), D, fmt("divergence: the bound at the parameter used (%g) is the requested one", got), 1e-3);
  }
}

// spectrum of Q(w^1/2)(c_weight c - A y)
template <typename O>
WeightedSlackEigenvalues spectrum(O* o, const MatrixXd& y, double cw) {
  VectorXd buf(y.size() + 16);
  double* b = buf.data();
  while (reinterpret_cast<uintptr_t>(b) % 64) b++;
  Ref yr(b, y.rows(), 1);
  yr = y;
  WeightedSlackEigenvalues p;
  GetWeightedSlackEigenvalues(o, yr, cw, &p);
  nontrivial()++;
  return p;
}
void compare(const WeightedSlackEigenvalues& p, const VectorXd& ev, const std::string& t, bool extremes = true) {
  if (extremes) {
    eq(p.lambda_min, ev.minCoeff(), t + ": smallest eigenvalue of the weighted slack", 1e-6);
    eq(p.lambda_max, ev.maxCoeff(), t + ": largest eigenvalue of the weighted slack", 1e-6);
  }
  eq(p.trace, ev.sum(), t + ": trace of the weighted slack", 1e-6);
  eq(p.frobenius_norm_squared, ev.squaredNorm(), t + ": squared norm of the weighted slack", 1e-6);
}
void spin(const MatrixXd& g, const VectorXd& w, const VectorXd& f, VectorXd* ev) {
  auto nrm = [&](const VectorXd& x) { VectorXd t = x; t(0) = 0; return std::sqrt(std::max(0., t.dot(g * t))); };
  double a = std::sqrt(w(0) + nrm(w)), b = std::sqrt(w(0) - nrm(w)), n = nrm(w);
  VectorXd s = w;
  if (n > 0) s *= (a - b) / (2 * n); else s.setZero();
  s(0) = (a + b) / 2;
  double det = s(0) * s(0) - nrm(s) * nrm(s);
  VectorXd jf = -f;
  jf(0) = f(0);
  VectorXd u = 2 * s * s.dot(g * f) - det * jf;
  *ev = VectorXd(2);
  *ev << u(0) + nrm(u), u(0) - nrm(u);
}
void spectra(Rng& r) {
  int n = r.range(1, 5), m = r.range(1, 4), kind = r.range(0, 3);
  MatrixXd y = r.mat(m, 1);
  double cw = r.real(.1, 3);
  VectorXd ev;
  ctx() = fmt("cone of kind %d, n=%d, %d variables", kind, n, m);
  if (kind == 0) {
    MatrixXd A = r.mat(n, m), c = r.mat(n, 1);
    LinearConstraint o(A, c);
    Memory mem(SizeOf(*o.workspace()));
    Initialize(o.workspace(), mem.base);
    VectorXd w(n);
    for (int i = 0; i < n; i++) w(i) = r.real(.1, 2);
    o.workspace()->W = w;
    compare(spectrum(&o, y, cw), w.cwiseProduct(cw * c - A * y), "linear cone");
  } else if (kind < 3) {
    MatrixXd A = r.mat(n + 1, m), c = r.mat(n + 1, 1), Q = MatrixXd::Identity(n, n), g = MatrixXd::Identity(n + 1, n + 1);
    if (kind == 2 && r.coin()) Q = r.psd(n) + .1 * Q;
    g.bottomRightCorner(n, n) = Q;
    VectorXd w(n + 1), t = r.mat(n, 1);
    w.tail(n) = t;
    w(0) = std::sqrt(t.dot(Q * t)) + r.real(.2, 1);
    spin(g, w, cw * c - A * y, &ev);
    auto run = [&](auto* o, const char* name) {
      Memory mem(SizeOf(*o->workspace()));
      Initialize(o->workspace(), mem.base);
      *o->workspace()->W0 = w(0);
      o->workspace()->W1 = w.tail(n);
      compare(spectrum(o, y, cw), ev, name);
    };
    if (kind == 1) { SOCConstraint o(A, c); run(&o, "second-order cone"); }
    else { QuadraticConstraint o(Q, A, c); run(&o, "quadratic cone"); }
  } else {
    std::vector<MatrixXd> A;
    MatrixXd c = r.sym(n), W = r.psd(n) + .1 * MatrixXd::Identity(n, n), S = cw * c;
    for (int i = 0; i < m; i++) { A.push_back(r.sym(n)); S -= y(i) * A[i]; }
    DenseLMIConstraint o(A, c);
    Memory mem(SizeOf(*o.workspace()));
    Initialize(o.workspace(), mem.base);
    o.workspace()->W = W;
    compare(spectrum(&o, y, cw), (W * S).eigenvalues().real(), "matrix cone", false);
  }
}

// every parameter of a longer solve lies within the limits
void whole_solve(Rng& r) {
  Mute mute;
  int m = r.range(1, 3);
  MatrixXd A(2 * m, m), c(2 * m, 1);
  A << MatrixXd::Identity(m, m), -MatrixXd::Identity(m, m);
  for (int i = 0; i < 2 * m; i++) c(i) = r.real(.3, 2);
  Program prog(m);
  prog.AddConstraint(LinearConstraint(A, c));
  prog.AddLinearCost(r.dense(m, 1, std::pow(10, r.real(-1, 1))));
  SolverConfiguration f;
  f.enable_line_search = r.coin();
  f.enable_rescaling = r.coin();
  f.inv_sqrt_mu_max = r.coin() ? 1000 : r.real(1, 50);
  f.maximum_mu = r.coin() ? 1e4 : r.real(1, 50);
  f.max_iterations = r.range(1, 25);
  f.final_centering_tolerance = r.coin() ? .01 : 1e-9;
  std::vector<double> x(m);
  for (int rep = 0; rep < 2; rep++) {
    Solve(prog, f, x.data());
    double top = f.inv_sqrt_mu_max, bottom = std::sqrt(1 / (1e-15 + f.maximum_mu));
    if (f.enable_rescaling) top = 1 / std::sqrt(1 / (top * top) * prog.stats->b_scaling() * prog.stats->c_scaling());
    ctx() = fmt("solve with up to %d iterations, %s, limits %g %g", f.max_iterations, f.enable_line_search ? "line search" : "divergence bound", bottom, top);
    if (bottom > top) return;
    nontrivial()++;
    for (int i = 0; i < prog.stats->num_iter; i++) {
      double k = prog.stats->sqrt_inv_mu[i];
      check(k >= bottom * (1 - 1e-9) && k <= top * (1 + 1e-9), fmt("the parameter of every iteration is within the limits (iteration %d: %g not in [%g, %g])", i, k, bottom, top));
    }
    f.initialization_mode = r.coin();
  }
}

int main() {
  Rng r(seed());
  int k = 4000 * scale();
  for (int i = 0; i < k; i++) {
    linear_search(r);
    if (i < 2) sample(ctx());
    divergence(r);
    spectra(r);
    if (i % 4 == 0) program(r);
    if (i % 8 == 0) whole_solve(r);
    if (i < 8 && i % 4 == 0) sample(ctx());
  }
  return finish(fmt("%d random line searches, divergence bounds and spectra of constraints, %d first iterations of programs with up to 3 linear constraints", k, k / 4));
}
