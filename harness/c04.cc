// SOURCES: ALL
// FLAGS: -fno-access-control
#include "h.h"
#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/kkt_solver.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/quadratic_cost.h"
#include "conex/soc_constraint.h"
using namespace h;
using namespace conex;

struct Region {
  std::string name;
  const double* p;
  long n;
  const double* owner;  // start of the region of the constraint
  bool aligned;
};

template <typename M>
void view(std::vector<Region>& v, const std::string& n, M& m, long rows, long cols, const double* owner) {
  check(m.rows() == rows && m.cols() == cols, fmt("%s: dimensions: got %ld x %ld expected %ld x %ld", n.c_str(), (long)m.rows(), (long)m.cols(), rows, cols));
  v.push_back({n, m.data(), (long)m.size(), owner, true});
}

void disjoint(std::vector<Region>& v, const double* base, long size) {
  std::vector<int> used(size, -1);
  for (size_t i = 0; i < v.size(); i++) {
    auto& x = v[i];
    if (x.n == 0) continue;
    if (!check(x.p >= base && x.p + x.n <= base + size, x.name + fmt(": inside the block: offset %ld size %ld of %ld", (long)(x.p - base), x.n, size))) continue;
    if (x.aligned) check((x.p - x.owner) % 4 == 0, x.name + fmt(": aligned: offset %ld", (long)(x.p - x.owner)));
    for (long k = x.p - base; k < x.p - base + x.n; k++) {
      if (used[k] >= 0) {
        check(false, x.name + " and " + v[used[k]].name + " overlap");
        break;
      }
      used[k] = i;
    }
  }
  check(true, "regions");
}

void views(std::vector<Region>& v, WorkspaceLinear& w, int n, int m, const double* b) {
  view(v, "Linear.W", w.W, n, 1, b);
  view(v, "Linear.temp_1", w.temp_1, n, 1, b);
  view(v, "Linear.temp_2", w.temp_2, n, 1, b);
  view(v, "Linear.weighted_constraints", w.weighted_constraints, n, m, b);
}
void views(std::vector<Region>& v, WorkspaceSOC& w, int n, const double* b) {
  v.push_back({"SOC.W0", w.W0, 1, b, true});
  view(v, "SOC.W1", w.W1, n, 1, b);
  view(v, "SOC.temp1_1", w.temp1_1, n, 1, b);
  view(v, "SOC.temp2_1", w.temp2_1, n, 1, b);
  view(v, "SOC.temp3_1", w.temp3_1, n, 1, b);
}
template <typename W>
void views(std::vector<Region>& v, W& w, const char* t, int n, const double* b) {
  view(v, std::string(t) + ".W", w.W, n, n, b);
  view(v, std::string(t) + ".temp_1", w.temp_1, n, n, b);
  view(v, std::string(t) + ".temp_2", w.temp_2, n, n, b);
}
void views(std::vector<Region>& v, WorkspaceSchurComplement& w, int m, const double* b) {
  view(v, "Schur.AW", w.AW, m, 1, b);
  view(v, "Schur.AQc", w.AQc, m, 1, b);
  if (!w.residual_only_) view(v, "Schur.G", w.G, m, m, b);
}
void views(std::vector<Region>& v, WorkspaceStats& w, const double* b) {
  v.push_back({"Stats.sqrt_inv_mu", w.sqrt_inv_mu, w.max_iter_, b, false});
  v.push_back({"Stats.norm_inf_d", w.norm_inf_d, w.max_iter_, b, false});
  v.push_back({"Stats.c_scaling", &w.c_scaling(), 1, b, false});
  v.push_back({"Stats.b_scaling", &w.b_scaling(), 1, b, false});
}

void single(int kind, int n, int m) {
  std::vector<Region> v;
  ctx() = fmt("workspace type %d n=%d m=%d", kind, n, m);
  auto go = [&](auto w, auto f) {
    int s = SizeOf(w);
    if (!check(s >= 0, "size is not negative")) return;
    Memory mem(s);
    Initialize(&w, mem.base);
    f(w, mem.base);
    disjoint(v, mem.base, s);
    check(mem.guards(), "nothing outside the block is written");
  };
  if (kind == 0) go(WorkspaceLinear(n, m), [&](auto& w, double* b) { views(v, w, n, m, b); });
  if (kind == 1) go(WorkspaceSOC(n), [&](auto& w, double* b) { views(v, w, n, b); });
  if (kind == 2) go(WorkspaceDensePSD(n), [&](auto& w, double* b) { views(v, w, "PSD", n, b); });
  if (kind == 3) go(WorkspaceDenseHermitian(n), [&](auto& w, double* b) { views(v, w, "Hermitian", n, b); });
  if (kind == 4 || kind == 5) {
    WorkspaceSchurComplement w0;
    w0.m_ = n;
    w0.residual_only_ = kind == 5;
    go(w0, [&](auto& w, double* b) { views(v, w, n, b); });
  }
  if (kind == 6) go(WorkspaceStats(n), [&](auto& w, double* b) { views(v, w, b); });
}

template <typename H>
H hmat(Rng& r, int n) {
  H x;
  for (auto& m : x) m = r.sym(n) * (&m == &x.at(0) ? 1. : 0.);
  return x;
}

void collect(Program& p, std::vector<Region>& v, std::vector<std::array<int, 3>>& info) {
  const double* b = p.workspace_data_->data();
  int i = 0;
  for (auto& c : p.kkt_system_manager_.eqs) {
    auto [kind, n, m] = info[i];
    size_t first = v.size();
    // the start of a constraint's region: the lowest of its views
    auto own = [&]() {
      const double* lo = nullptr;
      for (size_t k = first; k < v.size(); k++)
        if (v[k].n && (!lo || v[k].p < lo)) lo = v[k].p;
      for (size_t k = first; k < v.size(); k++) v[k].owner = lo;
      first = v.size();
    };
    if (kind == 0) views(v, std::any_cast<LinearConstraint>(&c.obj)->workspace_, n, m, b);
    if (kind == 1) views(v, std::any_cast<SOCConstraint>(&c.obj)->workspace_, n - 1, b);
    if (kind == 2) views(v, std::any_cast<DenseLMIConstraint>(&c.obj)->workspace_, "PSD", n, b);
    if (kind == 3) views(v, std::any_cast<HermitianPsdConstraint<Complex>>(&c.obj)->workspace_, "Hermitian", n, b);
    if (kind == 4) views(v, std::any_cast<HermitianPsdConstraint<Octonions>>(&c.obj)->workspace_, "Hermitian", n, b);
    if (kind == 6) views(v, std::any_cast<QuadraticConstraint>(&c.obj)->workspace_, n - 1, b);
    own();
    views(v, c.supernodal_assembler.submatrix_data_, (int)p.kkt_system_manager_.cliques[i].size(), b);
    own();
    i++;
  }
  views(v, *p.stats, b);
  views(v, p.sys, p.kkt_system_manager_.SizeOfKKTSystem(), b);
  for (size_t k = v.size() - 2; k < v.size(); k++) v[k].owner = v[v.size() - 2].p;
}

void program(Rng& r) {
  Mute mute;
  int nv = r.range(1, 6);
  Program p(nv);
  std::vector<std::array<int, 3>> info;
  std::string s;
  SolverConfiguration cfg;
  int rounds = r.range(1, 2);
  for (int q = 0; q < rounds; q++) {
    int k = r.range(1, 5);
    for (int i = 0; i < k; i++) {
      int kind = i == 0 ? (r.coin() ? 0 : 2) : r.range(0, 6), n = r.range(kind == 1 || kind == 6 ? 2 : 1, kind == 4 ? 3 : 7), m = i == 0 ? nv : r.range(1, nv);
      auto vars = r.subset(nv, m);
      MatrixXd A = r.mat(n, m), c = r.mat(n, 1);
      if (kind == 0) p.AddConstraint(LinearConstraint(A, c), vars);
      if (kind == 1) p.AddConstraint(SOCConstraint(A, c), vars);
      if (kind == 2) {
        std::vector<MatrixXd> a;
        for (int j = 0; j < m; j++) a.push_back(r.sym(n));
        p.AddConstraint(DenseLMIConstraint(n, a, r.sym(n)), vars);
      }
      if (kind == 3 || kind == 4) {
        auto add = [&](auto t) {
          using T = decltype(t);
          std::vector<typename T::Matrix> a;
          for (int j = 0; j < m; j++) {
            auto x = T::Random(n, n);
            a.push_back(T::Add(x, T::ConjugateTranspose(x)));
          }
          p.AddConstraint(HermitianPsdConstraint<T>(n, a, T::Identity(n)), vars);
        };
        if (kind == 3) add(Complex());
        else add(Octonions());
      }
      if (kind == 5) {
        p.AddConstraint(EqualityConstraints(A, c), vars);
      }
      if (kind == 6) p.AddConstraint(QuadraticConstraint(r.psd(n - 1), A, c), vars);
      info.push_back({kind, n, m});
      s += fmt(" %d(%d x %d)", kind, n, m);
    }
    if (info.empty()) return;
    ctx() = fmt("program with %d variables:%s", nv, s.c_str());
    cfg.max_iterations = r.range(1, 9);
    bool solved = r.coin();
    if (!solved) {
      p.stats = std::make_unique<WorkspaceStats>(cfg.max_iterations);
      p.sys.m_ = p.kkt_system_manager_.SizeOfKKTSystem();
      p.sys.residual_only_ = true;
      p.InitializeWorkspace();
    } else {
      // the first iterations of a solve, of whatever result
      cfg.max_iterations = r.range(1, 3);
      VectorXd y(nv), b = VectorXd::Zero(nv);
      conex::Solve(b, p, cfg, y.data());
    }
    std::vector<Region> v;
    collect(p, v, info);
    if (solved)  // a factorisation redirects submatrices to the sparse matrix, and a step the Hermitian scaling point to its own storage
      for (size_t k = 0; k < v.size();) {
        if (v[k].name == "Schur.G" || v[k].name == "Hermitian.W") v.erase(v.begin() + k);
        else k++;
      }
    check(SizeOf(p.workspaces) <= (int)p.workspace_data_->size(), "the block is as large as computed");
    disjoint(v, p.workspace_data_->data(), p.workspace_data_->size());
    long sum = 0;
    for (auto& w : p.workspaces) sum += SizeOf(w);
    check(sum == SizeOf(p.workspaces), "the computed size is the sum of the parts");
    nontrivial() += info.size() > 2;
  }
}

void sparse(Rng& r) {
  Mute mute;
  int nv = r.range(1, 9), k = r.range(1, 6);
  std::vector<std::vector<int>> cliques;
  for (int i = 0; i < k; i++) cliques.push_back(r.subset(nv, r.range(1, nv)));
  std::set<int> all;
  for (auto& c : cliques) all.insert(c.begin(), c.end());
  std::map<int, int> id;
  for (int x : all) id.insert({x, (int)id.size()});
  for (auto& c : cliques)
    for (int& x : c) x = id[x];
  ctx() = fmt("sparse matrix, cliques %s", h::show(cliques).c_str());
  MatrixData d = GetData(cliques);
  SparseTriangularMatrix mat0(d);
  SparseTriangularMatrix mat1(mat0);
  for (auto* m : {&mat0, &mat1}) {
    std::vector<Region> v;
    const double* b = m->memory_.data();
    auto& w = m->workspace_;
    size_t n = w.snodes.size();
    if (!check(w.diagonal.size() == n && w.off_diagonal.size() == n && n == cliques.size(), "one block of each kind per supernode")) continue;
    long sum = 0;
    for (size_t j = 0; j < n; j++) {
      long sj = w.snodes[j].size(), qj = w.separators[j].size();
      view(v, fmt("diagonal %d", (int)j), w.diagonal[j], sj, sj, b);
      view(v, fmt("off-diagonal %d", (int)j), w.off_diagonal[j], sj, qj, b);
      sum += (sj * sj + 3) / 4 * 4 + (sj * qj + 3) / 4 * 4;
      check(w.temporaries[j].size() == qj, "temporaries");
    }
    check(SizeOf(w) == sum, "size of the sparse matrix: the sum of the parts");
    check(m->memory_.size() >= SizeOf(w), "its block is large enough");
    disjoint(v, b, m->memory_.size());
    for (size_t j = 0; j < n; j++)
      for (double* p : w.seperator_diagonal[j]) check(p >= b && p < b + m->memory_.size(), "fill-in pointers point into the matrix");
  }
}

int main() {
  Rng r(seed());
  for (int kind = 0; kind < 7; kind++)
    for (int n = 0; n <= 17; n++)
      for (int m = 0; m <= (kind == 0 ? 9 : 0); m++) single(kind, n, m);
  int k = 1500 * scale();
  for (int i = 0; i < k; i++) {
    program(r);
    if (i < 3) sample(ctx());
    sparse(r);
  }
  return finish(fmt("every workspace type with orders 0 to 17 (and 0 to 9 variables); %d random programs of up to 10 constraints of all types and %d random sparsity patterns of up to 6 cliques over 9 variables", k, k));
}
