// SOURCES: conex/linear_constraint.cc conex/soc_constraint.cc conex/quadratic_cone_constraint.cc conex/quadratic_epigraph.cc conex/psd_constraint.cc conex/dense_lmi_constraint.cc conex/hermitian_psd.cc conex/jordan_matrix_algebra.cc conex/approximate_eigenvalues.cc conex/exponential_map.cc conex/exponential_map_pade.cc conex/equality_constraint.cc
// FLAGS: -fno-access-control
#include "hyper.h"
#include "conex/linear_constraint.h"
#include "conex/soc_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/equality_constraint.h"
#include "conex/quadratic_cost.cc"
using namespace h;
using namespace conex;

struct Want {
  MatrixXd G;
  VectorXd AW, AQc;
  double wc = 0, cqc = 0;
};

// system of size M >= m, arbitrary previous contents
template <typename O>
void system(Rng& r, O* o, const Want& w, int m, int M, const std::string& t, bool all = false) {
  for (int init = 0; init < 2; init++) {
    WorkspaceSchurComplement s(M);
    Memory mem(SizeOf(s));
    Initialize(&s, mem.base);
    s.G = r.mat(M, M);
    s.AW = r.mat(M, 1);
    s.AQc = r.mat(M, 1);
    s.inner_product_of_w_and_c = r.real();
    s.inner_product_of_c_and_Qc = r.real();
    MatrixXd G0 = s.G, A0 = s.AW, Q0 = s.AQc;
    double w0 = s.inner_product_of_w_and_c, c0 = s.inner_product_of_c_and_Qc;
    if (init) { G0.setZero(); A0.setZero(); Q0.setZero(); w0 = c0 = 0; }
    std::string mode = init ? " (overwrite)" : " (accumulate)";
    ConstructSchurComplementSystem(o, init, &s);
    MatrixXd G = G0, A = A0, Q = Q0;
    G.topLeftCorner(m, m) += w.G;
    A.topRows(m) += w.AW;
    Q.topRows(m) += w.AQc;
    // entries outside of the leading block are not compared in overwrite mode unless M == m
    int k = init && !all ? m : M;
    eq(low(s.G.topLeftCorner(k, k)), low(G.topLeftCorner(k, k)), t + ": G" + mode);
    eq(s.AW.topRows(k), A.topRows(k), t + ": AW" + mode);
    eq(s.AQc.topRows(k), Q.topRows(k), t + ": AQc" + mode);
    eq(s.inner_product_of_w_and_c, w0 + w.wc, t + ": <w,c>" + mode);
    eq(s.inner_product_of_c_and_Qc, c0 + w.cqc, t + ": <c,Qc>" + mode);
    check(mem.guards(), t + ": writes outside of the system");
    nontrivial()++;
  }
}

void linear(Rng& r) {
  int n = r.range(1, 6), m = r.range(1, 5);
  ctx() = fmt("linear n=%d m=%d", n, m);
  MatrixXd A = r.mat(n, m), c = r.mat(n, 1);
  LinearConstraint o(A, c);
  Memory mem(SizeOf(*o.workspace()));
  Initialize(o.workspace(), mem.base);
  VectorXd w(n);
  for (int i = 0; i < n; i++) w(i) = r.real(.1, 2);
  o.workspace()->W = w;
  Want z;
  MatrixXd W2 = w.cwiseProduct(w).asDiagonal();
  z.G = A.transpose() * W2 * A;
  z.AW = A.transpose() * w;
  z.AQc = A.transpose() * W2 * c;
  z.wc = w.dot(c.col(0));
  z.cqc = c.col(0).dot(W2 * c.col(0));
  system(r, &o, z, m, m + (r.coin() ? r.range(1, 2) : 0), "linear", true);
  check(mem.guards(), "linear: writes outside of the workspace");
}

// spin factor with metric Q: P(w) = 2 w <w,.> - det(w) J
Want spin(const MatrixXd& A, const MatrixXd& c, const VectorXd& w, const MatrixXd& Q) {
  int n = A.rows();
  MatrixXd g = MatrixXd::Zero(n, n), J = -MatrixXd::Identity(n, n);
  g(0, 0) = 1;
  g.bottomRightCorner(n - 1, n - 1) = Q;
  J(0, 0) = 1;
  double det = w(0) * w(0) - w.tail(n - 1).dot(Q * w.tail(n - 1));
  MatrixXd P = 2 * w * (w.transpose() * g) - det * J;
  Want z;
  z.G = 2 * A.transpose() * g * P * A;
  z.AW = 2 * A.transpose() * g * w;
  z.AQc = 2 * A.transpose() * g * P * c;
  z.wc = 2 * w.dot(g * c.col(0));
  z.cqc = 2 * c.col(0).dot(g * P * c.col(0));
  return z;
}

VectorXd interior(Rng& r, int n, const MatrixXd& Q) {
  VectorXd w(n + 1);
  VectorXd t = r.mat(n, 1);
  w.tail(n) = t;
  w(0) = std::sqrt(t.dot(Q * t)) + r.real(.2, 1);
  return w;
}

void soc(Rng& r) {
  int n = r.range(1, 5), m = r.range(1, 5);
  ctx() = fmt("soc n=%d m=%d", n, m);
  MatrixXd A = r.mat(n + 1, m), c = r.mat(n + 1, 1);
  SOCConstraint o(A, c);
  Memory mem(SizeOf(*o.workspace()));
  Initialize(o.workspace(), mem.base);
  MatrixXd I = MatrixXd::Identity(n, n);
  VectorXd w = interior(r, n, I);
  *o.workspace()->W0 = w(0);
  o.workspace()->W1 = w.tail(n);
  system(r, &o, spin(A, c, w, I), m, m, "second-order cone");
  check(mem.guards(), "second-order cone: writes outside of the workspace");
}

void quadratic(Rng& r) {
  int n = r.range(1, 5), m = r.range(1, 5);
  bool useQ = r.coin();
  ctx() = fmt("quadratic n=%d m=%d Q=%d", n, m, useQ);
  MatrixXd A = r.mat(n + 1, m), c = r.mat(n + 1, 1);
  MatrixXd Q = useQ ? r.psd(n) : MatrixXd(MatrixXd::Identity(n, n));
  QuadraticConstraint o(useQ ? Q : MatrixXd(), A, c);
  Memory mem(SizeOf(*o.workspace()));
  Initialize(o.workspace(), mem.base);
  VectorXd w = interior(r, n, Q);
  *o.workspace()->W0 = w(0);
  o.workspace()->W1 = w.tail(n);
  system(r, &o, spin(A, c, w, Q), m, m, "quadratic cone");
  check(mem.guards(), "quadratic cone: writes outside of the workspace");
}

void epigraph(Rng& r) {
  int n = r.range(1, 4);
  ctx() = fmt("epigraph n=%d", n);
  MatrixXd Qi = r.psd(n);
  QuadraticEpigraph o(Qi);
  Memory mem(SizeOf(*o.workspace()));
  Initialize(o.workspace(), mem.base);
  MatrixXd Q = MatrixXd::Zero(n + 1, n + 1);
  Q(0, 0) = 1;
  Q.bottomRightCorner(n, n) = Qi;
  VectorXd w = interior(r, n + 1, Q);
  *o.workspace()->W0 = w(0);
  o.workspace()->W1 = w.tail(n + 1);
  MatrixXd A = MatrixXd::Zero(n + 2, n + 1), c = MatrixXd::Zero(n + 2, 1);
  A(0, n) = A(1, n) = -.5;
  A.bottomLeftCorner(n, n).setIdentity();
  c(0) = 1;
  c(1) = -1;
  system(r, &o, spin(A, c, w, Q), n + 1, n + 1, "quadratic epigraph");
}

void lmi(Rng& r) {
  int n = r.range(1, 4), m = r.range(1, 5);
  ctx() = fmt("lmi n=%d m=%d", n, m);
  std::vector<MatrixXd> A;
  for (int i = 0; i < m; i++) A.push_back(r.sym(n));
  MatrixXd c = r.sym(n), W = r.psd(n);
  DenseLMIConstraint o(A, c);
  Memory mem(SizeOf(*o.workspace()));
  Initialize(o.workspace(), mem.base);
  o.workspace()->W = W;
  Want z;
  z.G.resize(m, m);
  z.AW.resize(m);
  z.AQc.resize(m);
  for (int i = 0; i < m; i++) {
    for (int j = 0; j < m; j++) z.G(i, j) = (A[i] * W * A[j] * W).trace();
    z.AW(i) = (A[i] * W).trace();
    z.AQc(i) = (A[i] * W * c * W).trace();
  }
  z.wc = (W * c).trace();
  z.cqc = (c * W * c * W).trace();
  system(r, &o, z, m, m, "linear matrix inequality");
  check(mem.guards(), "linear matrix inequality: writes outside of the workspace");
}

template <int N>
void hermitian(Rng& r) {
  int n = r.range(1, 3), m = r.range(1, 4);
  ctx() = fmt("hermitian N=%d n=%d m=%d", N, n, m);
  std::vector<HM> A;
  std::vector<HyperComplexMatrix> Ac;
  for (int i = 0; i < m; i++) {
    A.push_back(herm<N>(r, n));
    Ac.push_back(to(A[i]));
  }
  HM c = herm<N>(r, n), W = herm<N>(r, n);
  HermitianPsdConstraint<MatrixAlgebra<N>> o(n, Ac, to(c));
  Memory mem(SizeOf(*o.workspace()));
  Initialize(o.workspace(), mem.base);
  SetIdentity(&o);
  o.W = to(W);
  Want z;
  z.G.resize(m, m);
  z.AW.resize(m);
  z.AQc.resize(m);
  for (int i = 0; i < m; i++) {
    HM q = quad<N>(W, A[i]);
    for (int j = 0; j < m; j++) z.G(j, i) = ip(A[j], q);
    z.AW(i) = ip(A[i], W);
    z.AQc(i) = ip(c, q);
  }
  z.wc = ip(W, c);
  z.cqc = ip(c, quad<N>(W, c));
  system(r, &o, z, m, m, fmt("Hermitian cone of dimension %d", N));
}

void equality(Rng& r) {
  int n = r.range(0, 3), m = r.range(1, 4), M = n + m;
  ctx() = fmt("equality rows=%d vars=%d", n, m);
  MatrixXd A = r.mat(n, m), b = r.mat(n, 1);
  EqualityConstraints o(A, b);
  Want z;
  z.G = MatrixXd::Zero(M, M);
  z.G.bottomLeftCorner(n, m) = A;
  z.G.topRightCorner(m, n) = A.transpose();
  z.AW = VectorXd::Zero(M);
  z.AQc = VectorXd::Zero(M);
  z.AQc.tail(n) = b;
  system(r, &o, z, M, M, "equality");
}

void cost(Rng& r) {
  int n = r.range(1, 4);
  ctx() = fmt("quadratic cost n=%d", n);
  MatrixXd Q = r.psd(n);
  QuadraticFunction o{Q};
  Want z;
  z.G = Q;
  z.AW = VectorXd::Zero(n);
  z.AQc = VectorXd::Zero(n);
  system(r, &o, z, n, n, "quadratic cost");
}

int main() {
  Rng r(seed());
  int k = 600 * scale();
  for (int i = 0; i < k; i++) {
    linear(r);
    if (i < 2) sample(ctx());
    soc(r);
    quadratic(r);
    epigraph(r);
    lmi(r);
    if (i < 2) sample(ctx());
    hermitian<1>(r);
    hermitian<2>(r);
    hermitian<4>(r);
    hermitian<8>(r);
    equality(r);
    cost(r);
  }
  return finish(fmt("%d random instances per constraint type; orders up to 6, up to 5 variables", k));
}
