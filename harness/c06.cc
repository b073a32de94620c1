// SOURCES: ALL
// FLAGS: -fno-access-control
#include "hyper.h"
#include "conex/linear_constraint.h"
#include "conex/soc_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/equality_constraint.h"
#include "conex/cone_program.h"
using namespace h;
using namespace conex;

StepOptions opts(Rng& r, double ew) {
  StepOptions o;
  o.affine = false;
  o.e_weight = ew;
  o.c_weight = r.coin() ? r.real(.1, 3) : r.real();
  o.step_size = r.coin() ? 1 : r.real(.05, 1.5);
  return o;
}
template <typename O>
StepInfo prepare(O* o, const StepOptions& p, const MatrixXd& y) {
  VectorXd buf(y.size() + 16);
  double* b = buf.data();
  while (reinterpret_cast<uintptr_t>(b) % 64) b++;
  Ref yr(b, y.rows(), 1);
  yr = y;
  StepInfo i;
  i.normsqrd = 1e3;
  i.norminfd = 1e3;
  PrepareStep(o, p, yr, &i);
  nontrivial()++;
  return i;
}

void linear(Rng& r) {
  int n = r.range(1, 6), m = r.range(1, 5);
  ctx() = fmt("linear n=%d m=%d", n, m);
  MatrixXd A = r.mat(n, m), c = r.mat(n, 1), y = r.mat(m, 1);
  LinearConstraint o(A, c);
  Memory mem(SizeOf(*o.workspace()));
  Initialize(o.workspace(), mem.base);
  VectorXd w(n);
  for (int i = 0; i < n; i++) w(i) = r.real(.1, 2);
  o.workspace()->W = w;
  StepOptions p = opts(r, r.coin() ? 1 : r.real(0, 1));
  StepInfo i = prepare(&o, p, y);
  VectorXd d = p.e_weight + w.array() * (A * y - p.c_weight * c).col(0).array();
  eq(i.normsqrd, d.squaredNorm(), "linear: normsqrd");
  eq(i.norminfd, d.cwiseAbs().maxCoeff(), "linear: norminfd");
  TakeStep(&o, p);
  VectorXd z = w.array() * (p.step_size * d.array()).exp();
  eq(o.workspace()->W, z, "linear: w exp(step d)");
  SetIdentity(&o);
  eq(o.workspace()->W, VectorXd(VectorXd::Ones(n)), "linear: the initial scaling point is the identity");
  o.workspace()->W = w;
  p.affine = true;
  prepare(&o, p, y);
  eq(o.workspace()->W, VectorXd(w.array() + w.array() * w.array() * (A * y).col(0).array()), "linear: affine update");
  check(mem.guards(), "linear: writes outside of the workspace");
}

// spin factor with metric Q
struct Spin {
  MatrixXd g;
  explicit Spin(const MatrixXd& Q) : g(MatrixXd::Zero(Q.rows() + 1, Q.rows() + 1)) {
    g(0, 0) = 1;
    g.bottomRightCorner(Q.rows(), Q.rows()) = Q;
  }
  double nrm(const VectorXd& x) const {
    VectorXd t = x;
    t(0) = 0;
    return std::sqrt(std::max(0., t.dot(g * t)));
  }
  VectorXd fun(const VectorXd& x, double (*f)(double)) const {
    double s = nrm(x), a = f(x(0) + s), b = f(x(0) - s);
    VectorXd z = x;
    if (s > 0) z *= (a - b) / (2 * s); else z.setZero();
    z(0) = (a + b) / 2;
    return z;
  }
  VectorXd P(const VectorXd& w, const VectorXd& x) const {
    double det = w(0) * w(0) - nrm(w) * nrm(w);
    VectorXd jx = -x;
    jx(0) = x(0);
    return 2 * w * w.dot(g * x) - det * jx;
  }
};

VectorXd interior(Rng& r, int n, const MatrixXd& Q) {
  VectorXd w(n + 1);
  VectorXd t = r.range(0, 5) == 0 ? VectorXd::Zero(n).eval() : VectorXd(r.mat(n, 1));
  w.tail(n) = t;
  w(0) = std::sqrt(t.dot(Q * t)) + r.real(.2, 1);
  return w;
}

template <typename O>
void spin(Rng& r, O* o, const MatrixXd& A, const MatrixXd& c, const MatrixXd& Q, int m, const std::string& t) {
  int n = Q.rows();
  Memory mem(SizeOf(*o->workspace()));
  Initialize(o->workspace(), mem.base);
  Spin s(Q);
  VectorXd w = interior(r, n, Q), y = r.mat(m, 1);
  *o->workspace()->W0 = w(0);
  o->workspace()->W1 = w.tail(n);
  StepOptions p = opts(r, 1);
  if (r.range(0, 7) == 0) { y.setZero(); p.c_weight = 0; }
  VectorXd sq = s.fun(w, [](double x) { return std::sqrt(x); });
  VectorXd d = s.P(sq, (A * y - p.c_weight * c).col(0));
  d(0) += 1;
  double big = 1;
  if (d.cwiseAbs().maxCoeff() > 5) big = 5 / d.cwiseAbs().maxCoeff();
  p.step_size *= big;
  StepInfo i = prepare(o, p, y);
  eq(i.normsqrd, 2 * d.dot(s.g * d), t + ": normsqrd", 1e-7);
  eq(i.norminfd, std::max(std::fabs(d(0) + s.nrm(d)), std::fabs(d(0) - s.nrm(d))), t + ": norminfd", 1e-7);
  TakeStep(o, p);
  VectorXd e = s.fun(p.step_size * d, [](double x) { return std::exp(x); });
  VectorXd want = s.P(sq, e), got(n + 1);
  got << *o->workspace()->W0, o->workspace()->W1;
  eq(got, want, t + ": Q(w^1/2) exp(step d)", 1e-6);
  SetIdentity(o);
  VectorXd one = VectorXd::Zero(n + 1), id(n + 1);
  one(0) = 1;
  id << *o->workspace()->W0, o->workspace()->W1;
  eq(id, one, t + ": the initial scaling point is the identity");
  check(got(0) > 0 && got(0) > s.nrm(got) - 1e-7 * got(0), t + ": leaves the interior");
  check(mem.guards(), t + ": writes outside of the workspace");
}

void soc(Rng& r) {
  int n = r.range(1, 5), m = r.range(1, 5);
  ctx() = fmt("soc n=%d m=%d", n, m);
  MatrixXd A = r.mat(n + 1, m), c = r.mat(n + 1, 1);
  SOCConstraint o(A, c);
  spin(r, &o, A, c, MatrixXd::Identity(n, n), m, "second-order cone");
}
void quadratic(Rng& r) {
  int n = r.range(1, 5), m = r.range(1, 5);
  bool useQ = r.coin();
  ctx() = fmt("quadratic n=%d m=%d Q=%d", n, m, useQ);
  MatrixXd A = r.mat(n + 1, m), c = r.mat(n + 1, 1);
  MatrixXd Q = useQ ? r.psd(n) : MatrixXd(MatrixXd::Identity(n, n));
  QuadraticConstraint o(useQ ? Q : MatrixXd(), A, c);
  spin(r, &o, A, c, Q, m, "quadratic cone");
}
void epigraph(Rng& r) {
  int n = r.range(1, 4);
  ctx() = fmt("epigraph n=%d", n);
  MatrixXd Qi = r.psd(n), Q = MatrixXd::Zero(n + 1, n + 1);
  Q(0, 0) = 1;
  Q.bottomRightCorner(n, n) = Qi;
  QuadraticEpigraph o(Qi);
  MatrixXd A = MatrixXd::Zero(n + 2, n + 1), c = MatrixXd::Zero(n + 2, 1);
  A(0, n) = A(1, n) = -.5;
  A.bottomLeftCorner(n, n).setIdentity();
  c(0) = 1;
  c(1) = -1;
  spin(r, &o, A, c, Q, n + 1, "quadratic epigraph");
}

void lmi(Rng& r) {
  int n = r.range(1, 4), m = r.range(1, 5);
  ctx() = fmt("lmi n=%d m=%d", n, m);
  std::vector<MatrixXd> A;
  for (int i = 0; i < m; i++) A.push_back(r.sym(n));
  MatrixXd c = r.sym(n), W = r.psd(n) + .1 * MatrixXd::Identity(n, n), y = r.mat(m, 1);
  DenseLMIConstraint o(A, c);
  Memory mem(SizeOf(*o.workspace()));
  Initialize(o.workspace(), mem.base);
  o.workspace()->W = W;
  StepOptions p = opts(r, 1);
  MatrixXd S = -p.c_weight * c, I = MatrixXd::Identity(n, n);
  for (int i = 0; i < m; i++) S += y(i) * A[i];
  MatrixXd R = Eigen::SelfAdjointEigenSolver<MatrixXd>(W).operatorSqrt();
  MatrixXd d = I + R * S * R;
  StepInfo i = prepare(static_cast<PsdConstraint*>(&o), p, y);
  eq(i.normsqrd, d.squaredNorm(), "matrix cone: normsqrd", 1e-7);
  double big = Eigen::SelfAdjointEigenSolver<MatrixXd>(d).eigenvalues().cwiseAbs().maxCoeff();
  p.step_size = std::min(p.step_size, 3.5 / (big + 1e-9));
  TakeStep(static_cast<PsdConstraint*>(&o), p);
  MatrixXd x = p.step_size * d, x2 = x * x, x3 = x2 * x;
  MatrixXd E = (120 * I - 60 * x + 12 * x2 - x3).fullPivLu().solve(120 * I + 60 * x + 12 * x2 + x3);
  MatrixXd got = o.workspace()->W;
  eq(got, R * E * R, "matrix cone: Q(w^1/2) exp(step d) with the (3,3) rational approximation", 1e-6);
  check(Eigen::SelfAdjointEigenSolver<MatrixXd>(got).eigenvalues().minCoeff() > 0, "matrix cone: leaves the interior");
  SetIdentity(static_cast<PsdConstraint*>(&o));
  eq(MatrixXd(o.workspace()->W), I, "matrix cone: the initial scaling point is the identity");
  o.workspace()->W = W;
  p.affine = true;
  prepare(static_cast<PsdConstraint*>(&o), p, y);
  eq(MatrixXd(o.workspace()->W), MatrixXd((1 + p.e_weight) * W + W * S * W), "matrix cone: affine update", 1e-6);
  check(mem.guards(), "matrix cone: writes outside of the workspace");
}

template <int N>
void hermitian(Rng& r) {
  int n = r.range(1, 3), m = r.range(1, 4);
  ctx() = fmt("hermitian N=%d n=%d m=%d", N, n, m);
  std::vector<HM> A;
  std::vector<HyperComplexMatrix> Ac;
  for (int i = 0; i < m; i++) {
    A.push_back(herm<N>(r, n));
    Ac.push_back(to(A[i]));
  }
  HM x0 = herm<N>(r, n), c = herm<N>(r, n), e = ident<N>(n);
  HM W = add(scl(jordan<N>(x0, x0), .3), e, .2);
  MatrixXd y = r.mat(m, 1);
  HermitianPsdConstraint<MatrixAlgebra<N>> o(n, Ac, to(c));
  Memory mem(SizeOf(*o.workspace()));
  Initialize(o.workspace(), mem.base);
  SetIdentity(&o);
  eq(from(o.W), e, fmt("Hermitian cone of dimension %d: the initial scaling point is the identity", N));
  o.W = to(W);
  StepOptions p = opts(r, 1);
  HM S = scl(c, -p.c_weight);
  for (int i = 0; i < m; i++) S = add(S, A[i], y(i));
  StepInfo i = prepare(&o, p, y);
  std::string t = fmt("Hermitian cone of dimension %d", N);
  HM q = quad<N>(W, S);
  eq(i.normsqrd, ip(q, S) + 2 * ip(W, S) + n, t + ": normsqrd", 1e-7);
  p.step_size *= std::min(1., 3 / (1e-9 + std::sqrt(std::fabs(ip(q, S) + 2 * ip(W, S) + n))));
  TakeStep(&o, p);
  double k = p.step_size;
  if (N == 8) {
    S = scl(S, k);
    HM a = quad<N>(W, S), b = quad<N>(W, quad<N>(S, W));
    eq(from(o.W), add(add(scl(W, 9. / 4), a, 3. / 2), b, 1. / 4), t + ": w^1/2 (3/2 + s/2)^2 w^1/2", 1e-6);
  } else {
    HM x = scl(add(mul<N>(W, S), e), k);
    HM f = add(add(e, x, .25), mul<N>(x, x), 1. / 32);
    f = mul<N>(f, f);
    HM z = mul<N>(mul<N>(f, f), W);
    eq(from(o.W), scl(add(z, ct(z)), .5), t + ": (1 + d/4 + d^2/32)^4 w", 1e-6);
    o.W = to(W);
    p.affine = true;
    prepare(&o, p, y);
    eq(from(o.W), add(scl(W, 1 + p.e_weight), q), t + ": affine update", 1e-6);
  }
}

// a program: sums and maxima over constraints, variables of each constraint
void program(Rng& r) {
  Mute mute;
  int m = r.range(2, 6), k = r.range(1, 4);
  Program prog(m);
  std::string s;
  std::vector<MatrixXd> A, c;
  std::vector<std::vector<int>> v;
  std::vector<int> kind;
  for (int i = 0; i < k; i++) {
    int len = r.range(1, m), n = r.range(2, 4);
    std::vector<int> vars = r.subset(m, len);
    A.push_back(r.mat(n, len));
    c.push_back(r.mat(n, 1));
    v.push_back(vars);
    kind.push_back(r.range(0, 2));
    if (kind.back() == 2 && i) prog.AddConstraint(EqualityConstraints(A[i], c[i]), vars);
    else if (kind.back() == 1) prog.AddConstraint(SOCConstraint(A[i], c[i]), vars);
    else prog.AddConstraint(LinearConstraint(A[i], c[i]), vars);
    if (kind.back() == 2 && !i) kind.back() = 0;
    s += fmt(" %d%s", kind.back(), h::show(vars).c_str());
  }
  ctx() = fmt("program m=%d:%s", m, s.c_str());
  for (auto& ci : prog.constraints_) (void)ci;
  SolverConfiguration cfg;
  prog.stats = std::make_unique<WorkspaceStats>(cfg.max_iterations);
  prog.sys.m_ = prog.kkt_system_manager_.SizeOfKKTSystem();
  prog.sys.residual_only_ = true;
  prog.InitializeWorkspace();
  for (auto& ci : prog.constraints_) SetIdentity(ci);
  StepOptions p = opts(r, 1);
  MatrixXd y = r.mat(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
  StepInfo i = prepare(&prog.kkt_system_manager_, p, y);
  double sum = 0, mx = 0;
  for (int j = 0; j < k; j++) {
    if (kind[j] == 2) continue;
    VectorXd yi(v[j].size());
    for (size_t t = 0; t < v[j].size(); t++) yi(t) = y(v[j][t]);
    VectorXd d = A[j] * yi - p.c_weight * c[j];
    if (kind[j] == 0) {
      d.array() += 1;
      sum += d.squaredNorm();
      mx = std::max(mx, d.cwiseAbs().maxCoeff());
    } else {
      d(0) += 1;
      sum += 2 * d.squaredNorm();
      mx = std::max(mx, std::fabs(d(0)) + d.tail(d.size() - 1).norm());
    }
  }
  eq(i.normsqrd, sum, "program: normsqrd is the sum over all constraints", 1e-7);
  eq(i.norminfd, mx, "program: norminfd is the maximum over all constraints", 1e-7);
}

int main() {
  Rng r(seed());
  int k = 2000 * scale();
  for (int i = 0; i < k; i++) {
    linear(r);
    if (i < 2) sample(ctx());
    soc(r);
    quadratic(r);
    epigraph(r);
    lmi(r);
    if (i < 2) sample(ctx());
    hermitian<1>(r);
    hermitian<2>(r);
    hermitian<4>(r);
    hermitian<8>(r);
    program(r);
  }
  return finish(fmt("%d random instances per constraint type; orders up to 6, up to 5 variables; interior points with condition up to about 1e3", k));
}
