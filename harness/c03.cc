// SOURCES: ALL
// FLAGS: -fno-access-control
#include <list>
#include "h.h"
#include "conex/kkt_solver.h"
#include "conex/RLDLT.h"
#include "conex/supernodal_assembler.h"
using namespace h;
using Cliques = std::vector<std::vector<int>>;
using Map = Eigen::Map<MatrixXd, Eigen::Aligned>;

const double kReg = 1e-9;

// ---- the pivoted LDLT on its own
template <typename F>
void ldlt(const MatrixXd& A, const F& f, const std::string& how) {
  int n = A.rows();
  nontrivial()++;
  Eigen::PermutationMatrix<-1> P(f.transpositionsP());
  MatrixXd L = f.matrixL(), PAP = P * A * P.transpose();
  VectorXd D = f.vectorD();
  if (!check(L.rows() == n && D.size() == n && P.size() == n, "dimensions of the factors" + how)) return;
  double big = 1 + (n ? PAP.cwiseAbs().maxCoeff() : 0);
  for (int i = 0; i < n; i++) {
    check(L(i, i) == 1, "L has a unit diagonal" + how);
    for (int j = i + 1; j < n; j++) check(L(i, j) == 0, "L is lower triangular" + how);
  }
  for (int i = 0; i < n; i++)
    for (int j = 0; j < n; j++) {
      double a = 0, s = big;
      for (int k = 0; k < n; k++) a += L(i, k) * D(k) * L(j, k), s += std::fabs(L(i, k) * D(k) * L(j, k));
      double d = std::fabs(PAP(i, j) - a);
      bool replaced = i == j && std::fabs(D(i)) <= kReg;
      check(d <= 1e-13 * n * s + (replaced ? 2 * kReg : 0),
            fmt("entry (%d, %d) of P A P' - L D L' is %g, pivot %g", i, j, PAP(i, j) - a, D(i)) + how);
    }
  bool any = false;
  for (int i = 0; i < n; i++) {
    check(std::fabs(D(i)) >= kReg, fmt("pivot %g of magnitude at least 1e-9", D(i)) + how);
    any = any || std::fabs(D(i)) <= kReg;
  }
  check(f.regularization_used() == any, fmt("%sregularisation is reported exactly when a pivot was replaced", any ? "" : "no ") + how);
}

void factorizations(Rng& r) {
  int n = r.range(0, 6), kind = r.range(0, 7);
  MatrixXd A = r.sym(n);
  if (kind == 1) for (int i = 0; i < n; i++) for (int j = 0; j <= i; j++) A(i, j) = A(j, i) = r.range(-2, 2);
  if (kind == 2 && n) { int k = r.range(1, n); MatrixXd B(n, k); for (int i = 0; i < B.size(); i++) B.data()[i] = r.range(-1, 1); A = B * B.transpose(); }
  if (kind == 3) { A.setZero(); for (int i = 0; i < n; i++) A(i, i) = r.range(-1, 1) * (r.coin() ? 1 : 1e-10); }
  if (kind == 4) A *= 1e-10;
  if (kind == 5 && n) { int k = r.range(0, n - 1); A.row(k).setZero(), A.col(k).setZero(); if (r.coin()) A(k, k) = r.real(-3e-9, 3e-9); }
  if (kind == 6) { A = r.dense(n, n); A = (A * A.transpose()).eval() + MatrixXd::Identity(n, n); }
  if (kind == 7 && n >= 2) { A.setZero(); for (int i = 0; i < n; i++) A(i, n - 1 - i) = 1; for (int i = 0; i < n; i++) A(i, i) += r.range(0, 1); }
  ctx() = "matrix " + show(A);
  // only the lower triangle is meant to be read
  MatrixXd M = A;
  if (r.coin()) for (int i = 0; i < n; i++) for (int j = i + 1; j < n; j++) M(i, j) = std::nan("");
  ldlt(A, Eigen::RLDLT<MatrixXd>(M), "");
  // in place, in a larger array whose other entries are left alone
  VectorXd mem = VectorXd::Constant(n * n + 16, 0.0);
  double* p = mem.data() + 1;
  while ((size_t)p % 64) p++;
  Map in(p, n, n);
  in = M;
  Eigen::RLDLT<Eigen::Ref<MatrixXd>> f(in);
  ldlt(A, f, " (in place)");
  bool kept = true;
  for (double* q = mem.data(); q < mem.data() + mem.size(); q++) if (q < p || q >= p + n * n) kept = kept && *q == 0;
  check(kept, "storage next to the matrix is left alone");
  if (n) {
    Eigen::RLDLT<MatrixXd> g(M);
    Eigen::FullPivLU<MatrixXd> lu(A);
    VectorXd sv = Eigen::JacobiSVD<MatrixXd>(A).singularValues();
    if (!g.regularization_used() && sv(n - 1) > 1e-5 * sv(0)) {
      double growth = MatrixXd(g.matrixL()).cwiseAbs().maxCoeff();
      growth = growth * growth * VectorXd(g.vectorD()).cwiseAbs().maxCoeff() / A.cwiseAbs().maxCoeff();
      MatrixXd b = r.dense(n, r.range(1, 3));
      if (growth < 1e4) eq(g.solve(b), lu.solve(b), "solution of the pivoted LDLT", 1e-6);
    }
  }
}

// ---- assembled systems
struct Part {
  VectorXd memory;
  conex::SupernodalAssemblerStatic a;
  explicit Part(int n) {
    a.SetNumberOfVariables(n);
    memory = VectorXd::Zero(SizeOf(*a.GetWorkspace()) + 16);
    double* m = memory.data();
    while ((size_t)m % 64) m++;
    Initialize(a.GetWorkspace(), m);
  }
};

struct Case {
  int n = 0;
  Cliques cliques, duals;
  std::vector<MatrixXd> G;
};

MatrixXd want(const Case& c) {
  MatrixXd M = MatrixXd::Zero(c.n, c.n);
  for (size_t e = 0; e < c.cliques.size(); e++)
    for (size_t i = 0; i < c.cliques[e].size(); i++)
      for (size_t j = 0; j < c.cliques[e].size(); j++)
        M(c.cliques[e][i], c.cliques[e][j]) += i >= j ? c.G[e](i, j) : c.G[e](j, i);
  return M;
}

enum { kDefinite, kQuasi, kEquality, kAny };
void values(Case& c, Rng& r, int kind) {
  c.G.clear();
  for (size_t e = 0; e < c.cliques.size(); e++) {
    int m = c.cliques[e].size(), d = c.duals[e].size(), k = m - d;
    MatrixXd g = MatrixXd::Zero(m, m), B = r.dense(k, k);
    if (kind == kAny) g = r.sym(m);
    else {
      g.topLeftCorner(k, k) = B * B.transpose() + (r.coin() ? 1 : 3) * MatrixXd::Identity(k, k);
      g.bottomLeftCorner(d, k) = r.dense(d, k);
      g.topRightCorner(k, d) = g.bottomLeftCorner(d, k).transpose();
      if (kind == kQuasi) { MatrixXd C = r.dense(d, d); g.bottomRightCorner(d, d) = -C * C.transpose() - MatrixXd::Identity(d, d); }
    }
    c.G.push_back(g);
  }
}

bool diagonal_at_limit(const conex::SupernodalKKTSolver& s) {
  for (auto& f : s.factorization) {
    VectorXd d = f.vectorD();
    for (int i = 0; i < d.size(); i++) if (std::fabs(d(i)) <= kReg) return true;
  }
  return false;
}

void solve(Case& c, Rng& r, conex::SupernodalKKTSolver& s, int kind, const char* what) {
  int m = c.cliques.size();
  std::list<Part> parts;
  std::vector<conex::SupernodalAssemblerBase*> ptr;
  for (int e = 0; e < m; e++) parts.emplace_back(c.cliques[e].size()), ptr.push_back(&parts.back().a);
  s.Bind(ptr);
  bool duals = false;
  for (auto& d : c.duals) duals = duals || d.size();
  for (int round = 0; round < 3; round++) {
    values(c, r, kind);
    int e = 0;
    for (auto& p : parts) p.a.A_ = c.G[e++];
    int mode = r.range(0, 2), passes = r.range(0, 3);
    s.SetSolverMode(mode);
    s.SetIterativeRefinementIterations(passes);
    ctx() = what + (" cliques " + show(c.cliques)) + " duals " + show(c.duals) +
            fmt(" mode %d, %d refinement passes, round %d, kind %d, seed %d", mode, passes, round, kind, (int)seed());
    s.Assemble();
    MatrixXd K = want(c);
    Eigen::FullPivLU<MatrixXd> lu(K);
    bool ok = s.Factor();
    if (kind == kDefinite) check(ok, "a positive definite system is factored");
    bool positive = Eigen::SelfAdjointEigenSolver<MatrixXd>(K).eigenvalues().minCoeff() > -1e-9;
    if (mode != 2 && !duals && !positive) check(!ok, "an indefinite system is not factored by Cholesky");
    if (mode != 2 && duals) {
      check(ok, "LDLT returns success");
      check(s.factorization_regularized_ == diagonal_at_limit(s), "regularisation is recorded exactly when a pivot was replaced");
      if (kind == kQuasi || kind == kDefinite) check(!s.factorization_regularized_, "a quasi-definite system needs no regularisation");
      if (s.factorization_regularized_) continue;
    }
    if (!ok) continue;
    VectorXd sv = Eigen::JacobiSVD<MatrixXd>(K).singularValues();
    double rcond = sv(sv.size() - 1) / sv(0);
    if (!(rcond > 1e-5)) continue;
    double tol = 1e-9;
    if (mode != 2 && duals && kind != kQuasi) {
      double grow = 1;
      for (auto& f : s.factorization) {
        VectorXd d = f.vectorD();
        if (d.size()) grow = std::max(grow, std::max(d.cwiseAbs().maxCoeff(), d.cwiseAbs().cwiseInverse().maxCoeff()));
      }
      if (grow > 1e4) continue;
    }
    if (rcond < 1e-3) tol = 1e-7;
    nontrivial()++;
    for (int t = 0; t < 2; t++) {
      VectorXd b = r.mat(c.n, 1), x = lu.solve(b);
      check((K * x - b).norm() <= 1e-6 * (1 + b.norm()), "oracle");
      eq(s.Solve(b), x, "Solve", tol);
      VectorXd mem = VectorXd::Constant(c.n + 16, 5);
      double* p = mem.data();
      while ((size_t)p % 64) p++;
      Map y(p, c.n, 1);
      y = b;
      s.SolveInPlace(&y);
      eq(y, x, "SolveInPlace", tol);
    }
    if (mode == 2 || passes > 0) eq(s.kkt_matrix_, K, "the stored copy of the system", 1e-12);
  }
  double buf[64] __attribute__((aligned(64)));
  Map bad(buf, c.n + 1, 1);
  bool thrown = false;
  try { s.SolveInPlace(&bad); } catch (const std::exception&) { thrown = true; }
  check(thrown, "a right-hand side of the wrong size is rejected");
}

Case random_case(Rng& r, bool with_duals) {
  Case c;
  int n = r.range(1, 9), m = r.range(1, 6), kind = r.range(0, 5);
  std::vector<int> label = r.perm(n);
  std::vector<bool> used(n, false);
  for (int e = 0; e < m; e++) {
    std::vector<int> x;
    if (kind == 1) { x = {e % n}; if (n > 1) x.push_back((e + 1) % n); }
    else if (kind == 2) { int b = r.range(0, n - 1); for (int v = b; v < std::min(n, b + 3); v++) x.push_back(v); }
    else if (kind == 3 && e && r.coin()) { x = c.cliques[r.range(0, e - 1)]; if (x.size() > 1 && r.coin()) x.pop_back(); }
    else x = r.subset(n, r.range(1, std::min(n, 5)));
    if (kind != 3) for (auto& v : x) v = label[v];
    auto p = r.perm(x.size());
    std::vector<int> y;
    for (int k : p) y.push_back(x[k]);
    c.cliques.push_back(y);
    for (int v : y) used[v] = true;
  }
  for (int v = 0; v < n; v++)
    if (!used[v]) {
      if (r.coin()) c.cliques.push_back({v});
      else c.cliques[r.range(0, c.cliques.size() - 1)].push_back(v);
    }
  c.n = n;
  c.duals.assign(c.cliques.size(), {});
  if (with_duals)
    for (size_t e = 0; e < c.cliques.size(); e++)
      if (r.coin()) {
        int k = r.range(1, 3);
        for (int i = 0; i < k; i++) c.cliques[e].push_back(c.n), c.duals[e].push_back(c.n), c.n++;
      }
  return c;
}

// an elimination structure given by hand: clique e is its supernode and separator
void by_hand(Rng& r) {
  int n = r.range(1, 8), m = r.range(1, 6);
  // assign variables to cliques in order; separators are chosen so that the structure is closed under elimination
  std::vector<int> label = r.perm(n), order = r.perm(m);
  Cliques sn(m), sep(m);
  for (int v = 0; v < n; v++) sn[order[r.range(0, m - 1)]].push_back(label[v]);
  std::vector<int> place(n);
  for (int e = 0; e < m; e++) for (int v : sn[order[e]]) place[v] = e;
  for (int e = 0; e < m; e++) {
    // separators: random later variables
    std::set<int> s;
    for (int v = 0; v < n; v++) if (place[v] > e && sn[order[e]].size() && r.range(0, 2) == 0) s.insert(v);
    sep[order[e]].assign(s.begin(), s.end());
  }
  for (int e = 0; e < m; e++) {
    // the separator of e must be a clique of the filled pattern: add the rest of it where its first variable is eliminated
    auto& s = sep[order[e]];
    for (int v : s)
      for (int w : s)
        if (place[w] > place[v]) {
          auto& t = sep[order[place[v]]];
          if (std::find(t.begin(), t.end(), w) == t.end()) t.push_back(w), std::sort(t.begin(), t.end());
        }
  }
  Case c;
  c.n = n;
  for (int e = 0; e < m; e++) {
    std::vector<int> x = sn[e];
    x.insert(x.end(), sep[e].begin(), sep[e].end());
    c.cliques.push_back(x);
  }
  c.duals.assign(m, {});
  // without an entry a constraint has no variables; leave such a constraint out of the values
  conex::SupernodalKKTSolver s(c.cliques, n, order, sn, sep);
  solve(c, r, s, r.coin() ? kDefinite : kAny, "given structure,");
}

int main() {
  Rng r(seed());
  for (int t = 0; t < 20000 * scale(); t++) factorizations(r);
  for (int t = 0; t < 4000 * scale(); t++) {
    bool duals = r.range(0, 2) > 0;
    Case c = random_case(r, duals);
    conex::SupernodalKKTSolver s(c.cliques, c.duals);
    int kind = duals ? (int)(r.range(0, 2) == 0 ? kEquality : r.range(0, 3) == 0 ? kAny : kQuasi) : (r.range(0, 3) == 0 ? kAny : kDefinite);
    solve(c, r, s, kind, "");
    if (t % 3 == 0) by_hand(r);
  }
  return finish("pivoted LDLT of random, integer, singular and tiny matrices up to 6 x 6, separately stored and in place; systems assembled over random clique lists with up to nine primal and further dual variables and over hand-given elimination structures with empty supernodes: positive definite, quasi-definite, with equality constraints and indefinite, three solver modes, up to three refinement passes, three factorizations each");
}
