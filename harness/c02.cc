// SOURCES: ALL
// FLAGS: -fno-access-control
#include <list>
#include <memory>
#include "h.h"
#include "conex/cone_program.h"
#include "conex/constraint_manager.h"
#include "conex/kkt_solver.h"
#include "conex/supernodal_assembler.h"
#include "conex/equality_constraint.h"
using namespace h;
using Cliques = std::vector<std::vector<int>>;

struct Part {
  VectorXd memory;
  conex::SupernodalAssemblerStatic a;
  conex::EqualityConstraints eq;
  std::unique_ptr<conex::Constraint> c;
  conex::SupernodalAssembler ea;
  conex::SupernodalAssemblerBase* p = nullptr;
  void init(int n) {
    p->SetNumberOfVariables(n);
    int size = SizeOf(*p->GetWorkspace());
    memory = VectorXd::Constant(size + 16, -7.5);
    double* m = memory.data();
    while ((size_t)m % 64) m++;
    Initialize(p->GetWorkspace(), m);
  }
};

struct Case {
  int n = 0;  // variables, 0..n-1
  Cliques cliques, duals;
  std::vector<MatrixXd> G;
  std::vector<VectorXd> AW, AQc;
  std::vector<double> ip;
};

// scattered sum of the submatrices
MatrixXd want(const Case& c) {
  MatrixXd M = MatrixXd::Zero(c.n, c.n);
  for (size_t e = 0; e < c.cliques.size(); e++)
    for (size_t i = 0; i < c.cliques[e].size(); i++)
      for (size_t j = 0; j < c.cliques[e].size(); j++)
        M(c.cliques[e][i], c.cliques[e][j]) += i >= j ? c.G[e](i, j) : c.G[e](j, i);
  return M;
}

// storage of the sparse matrix that stands for an entry
std::set<const double*> cells(const conex::SparseTriangularMatrix& m) {
  std::set<const double*> s;
  for (auto& d : m.workspace_.diagonal)
    for (int j = 0; j < d.cols(); j++)
      for (int i = 0; i < d.rows(); i++) s.insert(&d(i, j));
  for (auto& d : m.workspace_.off_diagonal)
    for (int k = 0; k < d.size(); k++) s.insert(d.data() + k);
  return s;
}

void values(Case& c, Rng& r, bool upper_differs) {
  c.G.clear(); c.AW.clear(); c.AQc.clear(); c.ip.clear();
  for (auto& x : c.cliques) {
    int k = x.size();
    MatrixXd g = r.coin() ? r.sym(k) : r.dense(k, k);
    if (!upper_differs) g = MatrixXd(g.selfadjointView<Eigen::Lower>());
    c.G.push_back(g);
    c.AW.push_back(r.dense(k, 1));
    c.AQc.push_back(r.dense(k, 1));
    c.ip.push_back(r.real());
  }
}

std::string text(const Case& c) { return "cliques " + show(c.cliques) + " duals " + show(c.duals); }

void run(Case& c, Rng& r) {
  int m = c.cliques.size();
  nontrivial()++;
  // the upper triangle of a submatrix is not read
  values(c, r, true);
  ctx() = text(c);
  std::list<Part> parts;
  std::vector<conex::SupernodalAssemblerBase*> ptr;
  for (int e = 0; e < m; e++) {
    parts.emplace_back();
    parts.back().p = &parts.back().a;
    parts.back().init(c.cliques[e].size());
    ptr.push_back(parts.back().p);
  }
  auto load = [&] {
    int e = 0;
    for (auto& p : parts) {
      p.a.A_ = c.G[e];
      auto* w = p.p->GetWorkspace();
      w->AW = c.AW[e];
      w->AQc = c.AQc[e];
      w->inner_product_of_w_and_c = c.ip[e];
      e++;
    }
  };
  conex::SupernodalKKTSolver s(c.cliques, c.duals);
  double nan = std::nan("");
  for (int k = 0; k < s.mat.memory_.size(); k++) s.mat.memory_(k) = nan;
  const double sentinel = 12345.75;
  auto used = cells(s.mat);
  for (int k = 0; k < s.mat.memory_.size(); k++)
    if (!used.count(&s.mat.memory_(k))) s.mat.memory_(k) = sentinel;
  s.Bind(ptr);
  load();
  auto right = [&](const std::string& when) {
    eq(s.KKTMatrix(), want(c), "assembled matrix " + when, 1e-12);
    bool pad = true;
    for (int k = 0; k < s.mat.memory_.size(); k++)
      if (!used.count(&s.mat.memory_(k))) pad = pad && s.mat.memory_(k) == sentinel;
    check(pad, "storage outside the blocks is left alone " + when);
    // entries that no constraint covers hold exact zeros
    MatrixXd cover = MatrixXd::Zero(c.n, c.n), K = s.KKTMatrix();
    for (auto& x : c.cliques) for (int i : x) for (int j : x) cover(i, j) = 1;
    bool zero = true;
    for (int i = 0; i < c.n; i++) for (int j = 0; j < c.n; j++) if (!cover(i, j)) zero = zero && K(i, j) == 0;
    check(zero, "fill-in is exactly zero " + when);
  };
  s.Assemble();
  right("after the first assembly");
  s.Assemble();
  right("after a second assembly");
  if (r.coin()) {
    s.SetIterativeRefinementIterations(r.range(0, 1));
    s.Factor();
  } else {
    for (int k = 0; k < s.mat.memory_.size(); k++)
      if (used.count(&s.mat.memory_(k))) s.mat.memory_(k) = r.coin() ? nan : r.real();
  }
  values(c, r, true);
  load();
  VectorXd AW = VectorXd::Constant(c.n, nan), AQc = VectorXd::Constant(c.n, nan), aw = VectorXd::Zero(c.n), aqc = aw;
  double ip = nan, sum = 0;
  s.Assemble(&AW, &AQc, &ip);
  for (int e = 0; e < m; e++) {
    sum += c.ip[e];
    for (size_t i = 0; i < c.cliques[e].size(); i++) aw(c.cliques[e][i]) += c.AW[e](i), aqc(c.cliques[e][i]) += c.AQc[e](i);
  }
  right("after an assembly over stale data");
  eq(AW, aw, "assembled AW", 1e-12);
  eq(AQc, aqc, "assembled AQc", 1e-12);
  eq(ip, sum, "assembled inner product", 1e-12);
  bool same = true;
  int e = 0;
  for (auto& p : parts) {
    auto* w = p.p->GetWorkspace();
    same = same && VectorXd(w->AW) == c.AW[e] && VectorXd(w->AQc) == c.AQc[e] && w->inner_product_of_w_and_c == c.ip[e];
    e++;
  }
  check(same, "the constraints' vectors are left alone");
  // an output of the wrong size is rejected
  VectorXd bad(c.n + 1);
  bool thrown = false;
  try { s.Assemble(&bad, &AQc, &ip); } catch (const std::exception&) { thrown = true; }
  check(thrown, "an output of the wrong size is rejected");
}

// residuals of a constraint manager
struct Holder {
  struct { conex::WorkspaceSchurComplement submatrix_data_; } supernodal_assembler;
  VectorXd memory;
  int num;
  template <typename T> Holder(T&&, int n) : num(n) {
    supernodal_assembler.submatrix_data_.m_ = n;
    memory.resize(SizeOf(supernodal_assembler.submatrix_data_) + 16);
    double* m = memory.data();
    while ((size_t)m % 64) m++;
    Initialize(&supernodal_assembler.submatrix_data_, m);
  }
};
void residuals(Rng& r) {
  int n = r.range(1, 8), m = r.range(1, 6);
  conex::ConstraintManager<Holder> kkt(n);
  std::vector<int> mine;
  for (int e = 0; e < m; e++) {
    if (r.range(0, 3) == 0) {
      auto v = r.subset(n, r.range(1, n));
      int k = r.range(1, 3);
      kkt.AddEqualityConstraint(conex::EqualityConstraints(r.dense(k, v.size()), r.dense(k, 1)), v);
    } else kkt.AddConstraint(0, r.subset(n, r.range(1, n)));
  }
  int N = kkt.SizeOfKKTSystem();
  ctx() = "constraint manager with cliques " + show(kkt.cliques);
  nontrivial()++;
  VectorXd aw = VectorXd::Zero(N), aqc = aw;
  double ip = 0, cq = 0;
  int e = 0;
  for (auto& h : kkt.eqs) {
    auto& w = h.supernodal_assembler.submatrix_data_;
    w.AW = r.dense(h.num, 1);
    w.AQc = r.dense(h.num, 1);
    w.inner_product_of_w_and_c = r.real();
    w.inner_product_of_c_and_Qc = r.real();
    ip += w.inner_product_of_w_and_c;
    cq += w.inner_product_of_c_and_Qc;
    for (int i = 0; i < h.num; i++) aw(kkt.cliques[e][i]) += w.AW(i), aqc(kkt.cliques[e][i]) += w.AQc(i);
    e++;
  }
  conex::WorkspaceSchurComplement s(N);
  VectorXd mem = VectorXd::Constant(SizeOf(s) + 16, std::nan(""));
  double* p = mem.data();
  while ((size_t)p % 64) p++;
  Initialize(&s, p);
  s.AW.setConstant(3), s.AQc.setConstant(2), s.inner_product_of_w_and_c = 9, s.inner_product_of_c_and_Qc = 8;
  for (int k = 0; k < 2; k++) {
    conex::AssembleSchurComplementResiduals(&kkt, &s);
    eq(MatrixXd(s.AW), aw, "AW of all constraints", 1e-12);
    eq(MatrixXd(s.AQc), aqc, "AQc of all constraints", 1e-12);
    eq(s.inner_product_of_w_and_c, ip, "<w, c> of all constraints", 1e-12);
    eq(s.inner_product_of_c_and_Qc, cq, "<c, Qc> of all constraints", 1e-12);
  }
}

// equality constraints through the real assembler
void equalities(Rng& r) {
  int n = r.range(2, 6), m = r.range(1, 4), next = n;
  Case c;
  std::list<Part> parts;
  std::vector<conex::SupernodalAssemblerBase*> ptr;
  std::vector<bool> used(n, false);
  for (int e = 0; e < m; e++) {
    auto v = r.subset(n, r.range(1, n));
    if (e == m - 1) {
      v.clear();
      for (int i : r.perm(n)) if (!used[i] || r.coin()) v.push_back(i);
      if (v.empty()) v.push_back(r.range(0, n - 1));
    }
    for (int i : v) used[i] = true;
    int k = v.size(), d = 0;
    parts.emplace_back();
    Part& p = parts.back();
    MatrixXd g;
    std::vector<int> dual;
    if (r.coin()) {
      d = r.range(1, 3);
      MatrixXd A = r.dense(d, k);
      VectorXd b = r.dense(d, 1);
      p.eq = conex::EqualityConstraints(A, b);
      p.c = std::make_unique<conex::Constraint>(&p.eq);
      p.ea = conex::SupernodalAssembler(k + d, p.c.get());
      p.p = &p.ea;
      g = MatrixXd::Zero(k + d, k + d);
      g.block(k, 0, d, k) = A;
      g.block(0, k, k, d) = A.transpose();
      for (int i = 0; i < d; i++) dual.push_back(next++);
    } else {
      g = r.sym(k);
      p.a.A_ = g;
      p.p = &p.a;
    }
    p.init(k + d);
    for (int x : dual) v.push_back(x);
    c.cliques.push_back(v);
    c.duals.push_back(dual);
    c.G.push_back(g);
    ptr.push_back(p.p);
  }
  c.n = next;
  nontrivial()++;
  ctx() = text(c);
  conex::SupernodalKKTSolver s(c.cliques, c.duals);
  s.mat.memory_.setConstant(std::nan(""));
  s.Bind(ptr);
  for (int k = 0; k < 2; k++) {
    s.Assemble();
    eq(s.KKTMatrix(), want(c), "matrix with equality constraints", 1e-12);
    if (k == 0) s.Factor();
  }
}

Case random_case(Rng& r) {
  Case c;
  int n = r.range(1, 9), m = r.range(1, 6), kind = r.range(0, 4);
  std::vector<int> label = r.perm(n);
  std::vector<bool> used(n, false);
  for (int e = 0; e < m; e++) {
    std::vector<int> x;
    if (kind == 1) { x = {e % n}; if (n > 1) x.push_back((e + 1) % n); }
    else if (kind == 2) { int b = r.range(0, n - 1); for (int v = b; v < std::min(n, b + 3); v++) x.push_back(v); }
    else if (kind == 3 && e && r.coin()) x = c.cliques[r.range(0, e - 1)];
    else x = r.subset(n, r.range(1, std::min(n, 5)));
    if (kind != 3) for (auto& v : x) v = label[v];
    auto p = r.perm(x.size());
    std::vector<int> y;
    for (int k : p) y.push_back(x[k]);
    if (r.range(0, 3) == 0) std::sort(y.begin(), y.end());
    c.cliques.push_back(y);
    for (int v : y) used[v] = true;
  }
  for (int v = 0; v < n; v++)
    if (!used[v]) {
      if (r.coin() || c.cliques.empty()) c.cliques.push_back({v});
      else c.cliques[r.range(0, c.cliques.size() - 1)].push_back(v);
    }
  c.n = n;
  // trailing variables that occur in one clique only and have the highest labels serve as dual variables
  c.duals.assign(c.cliques.size(), {});
  if (r.coin())
    for (size_t e = 0; e < c.cliques.size(); e++)
      if (r.coin()) {
        int k = r.range(1, 3);
        for (int i = 0; i < k; i++) c.cliques[e].push_back(c.n), c.duals[e].push_back(c.n), c.n++;
      }
  return c;
}

int main() {
  Rng r(seed());
  Case one;
  one.n = 4; one.cliques = {{2, 0, 1, 3}}; one.duals = {{}}; run(one, r);
  one.cliques = {{0, 1, 2, 3}}; run(one, r);
  one.cliques = {{3, 2}, {1, 0}, {0, 3}, {2, 1}}; one.duals.assign(4, {}); run(one, r);
  for (int t = 0; t < 12000 * scale(); t++) {
    Case c = random_case(r);
    run(c, r);
    if (t % 4 == 0) residuals(r), equalities(r);
  }
  return finish("random clique lists over up to nine variables (cycles, bands, nested, duplicated, unsorted, with dual variables), random submatrices whose upper triangles differ, three assemblies over NaN, previous, factored and random storage; equality constraints; constraint managers");
}
