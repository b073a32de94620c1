// SOURCES: ALL
// INTERFACE
// FLAGS: -fno-access-control
#include "interfaces/conex.h"
#include "h.h"
#include "conex/linear_constraint.h"
#include "conex/cone_program.h"
using namespace h;

struct Out {
  MatrixXd Ai, bi, Ae, be;
};
bool one_sided(const Out& o, const VectorXd& x, int p0, int q0) {
  for (int r = p0; r < o.Ai.rows(); r++)
    if (!(o.Ai.row(r).dot(x) <= o.bi(r, 0) + 1e-9 + 1e-13 * x.norm())) return false;
  for (int r = q0; r < o.Ae.rows(); r++)
    if (!(std::fabs(o.Ae.row(r).dot(x) - o.be(r, 0)) <= 1e-9 + 1e-13 * x.norm())) return false;
  return true;
}

void run(Rng& r) {
  int rows = r.range(0, 4), n = r.range(1, 4);
  MatrixXd A(rows, n), lb(rows, 1), ub(rows, 1);
  int wantI = 0, wantE = 0;
  for (int i = 0; i < rows; i++) {
    for (int j = 0; j < n; j++) A(i, j) = r.range(-2, 2);
    if (r.range(0, 5) == 0) A.row(i).setZero();
    double a = r.range(-3, 3), b = a + r.range(1, 4);
    int kind = r.range(0, 6);
    lb(i) = a;
    ub(i) = b;
    if (kind == 0) ub(i) = a;
    if (kind == 1 || kind == 3) ub(i) = r.coin() ? 1e8 : r.coin() ? 1e9 : std::numeric_limits<double>::infinity();
    if (kind == 2 || kind == 3) lb(i) = r.coin() ? -1e8 : r.coin() ? -1e9 : -std::numeric_limits<double>::infinity();
    if (kind == 4) ub(i) = 9.9e7;
    if (kind == 5) lb(i) = -9.9e7;
    if (kind == 6) { lb(i) = -b; ub(i) = b; if (b == 0) b = 1; ub(i) = std::fabs(b); lb(i) = -std::fabs(b); }
    if (r.range(0, 7) == 0) { ub(i) = r.coin() ? -1e8 : -1.5e9; lb(i) = r.coin() ? -2e9 : -std::numeric_limits<double>::infinity(); }
    if (r.range(0, 7) == 0) { lb(i) = r.coin() ? 1e8 : 1.5e9; ub(i) = r.coin() ? 2e9 : std::numeric_limits<double>::infinity(); }
    // bounds that are almost equal
    if (r.range(0, 7) == 0) { lb(i) = a; ub(i) = r.coin() ? std::nextafter(a, a + 1) : a + 1e-13; }
    if (lb(i) == ub(i)) wantE++;
    else wantI += (ub(i) < 1e8) + (lb(i) > -1e8);
  }
  ctx() = "A=" + show(A) + " lb=" + show(lb) + " ub=" + show(ub);
  Out o;
  int p0 = r.coin() ? r.range(0, 2) : 0, q0 = r.coin() ? r.range(0, 2) : 0;
  if (p0) { o.Ai = r.mat(p0, n); o.bi = r.mat(p0, 1); }
  if (q0) { o.Ae = r.mat(q0, n); o.be = r.mat(q0, 1); }
  Out old = o;
  conex::PreprocessLinearInequality(A, lb, ub, &o.Ai, &o.bi, &o.Ae, &o.be);
  nontrivial()++;
  if (!check(o.Ai.rows() == p0 + wantI && o.bi.rows() == p0 + wantI, "one inequality per finite bound") ||
      !check(o.Ae.rows() == q0 + wantE && o.be.rows() == q0 + wantE, "one equation per row with equal bounds"))
    return;
  if (p0) check(o.Ai.topRows(p0) == old.Ai && o.bi.topRows(p0) == old.bi, "inequalities already present are kept");
  if (q0) check(o.Ae.topRows(q0) == old.Ae && o.be.topRows(q0) == old.be, "equations already present are kept");
  for (int t = 0; t < 12; t++) {
    VectorXd x(n);
    for (int j = 0; j < n; j++) x(j) = r.range(-3, 3);
    // sometimes far away, so that bounds near 1e8 matter
    if (t > 8) x *= r.coin() ? 1e8 : 6e7;
    VectorXd v = A * x;
    bool in = true;
    for (int i = 0; i < rows; i++) in = in && (lb(i) <= -1e8 || lb(i) <= v(i)) && (ub(i) >= 1e8 || v(i) <= ub(i));
    check(in == one_sided(o, x, p0, q0), fmt("same feasible set: x=%s is %s", show(x).c_str(), in ? "feasible" : "infeasible"));
  }
}

// through the C interface
void capi(Rng& r) {
  Mute mute;
  int rows = r.range(1, 3), n = r.range(1, 3);
  MatrixXd A = r.mat(rows, n), lb(rows, 1), ub(rows, 1);
  for (int i = 0; i < rows; i++) {
    lb(i) = r.real(-1, 0);
    ub(i) = r.real(.1, 1);
    int k = r.range(0, 3);
    if (k == 0) ub(i) = lb(i);
    if (k == 1) ub(i) = 1e9;
    if (k == 2) lb(i) = -1e9;
  }
  ctx() = "interface: A=" + show(A) + " lb=" + show(lb) + " ub=" + show(ub);
  Out o;
  conex::PreprocessLinearInequality(A, lb, ub, &o.Ai, &o.bi, &o.Ae, &o.be);
  void* p = CONEX_CreateConeProgram();
  CONEX_SetNumberOfVariables(p, n);
  CONEX_AddLinearInequalities(p, A.data(), rows, n, lb.data(), rows, ub.data(), rows);
  auto& prog = *reinterpret_cast<conex::Program*>(p);
  Out g;
  int k = 0;
  for (auto& e : prog.kkt_system_manager_.eqs) {
    k++;
    if (auto* l = std::any_cast<conex::LinearConstraint>(&e.obj)) { g.Ai = l->constraint_matrix_; g.bi = l->constraint_affine_; }
    if (auto* l = std::any_cast<conex::EqualityConstraints>(&e.obj)) { g.Ae = l->A_; g.be = l->b_; }
  }
  check(k == (o.Ai.rows() > 0) + (o.Ae.rows() > 0), "interface: one constraint per kind of row");
  check(g.Ai == o.Ai && g.bi == o.bi, "interface: the inequalities reach the program");
  check(g.Ae == o.Ae && g.be == o.be, "interface: the equations reach the program");
  CONEX_DeleteConeProgram(p);
}

int main() {
  Rng r(seed());
  int k = 4000 * scale();
  for (int i = 0; i < k; i++) {
    run(r);
    if (i < 3) sample(ctx());
    if (i % 4 == 0) capi(r);
  }
  return finish(fmt("%d random systems with up to 4 rows and 4 variables, 12 points each", k));
}
