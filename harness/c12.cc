// SOURCES: ALL
// INTERFACE
// FLAGS: -fno-access-control
#include "interfaces/conex.h"
#include "h.h"
#include "conex/cone_program.h"
#include "conex/dense_lmi_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/soc_constraint.h"
using namespace h;
using namespace conex;

// ---- options: every option by name
#define OPTIONS(X) \
  X(prepare_dual_variables) X(initialization_mode) X(inv_sqrt_mu_max) X(minimum_mu) X(maximum_mu) X(divergence_upper_bound) \
  X(enable_line_search) X(dinf_upper_bound) X(final_centering_steps) X(final_centering_tolerance) X(initial_centering_steps_warmstart) \
  X(initial_centering_steps_coldstart) X(warmstart_abort_threshold) X(max_iterations) X(iterative_refinement_iterations) \
  X(infeasibility_threshold) X(kkt_error_tolerance) X(enable_rescaling) X(kkt_solver)

void defaults() {
  ctx() = "CONEX_SetDefaultOptions";
  for (int fill : {0, 0xff, 0x5a}) {
    CONEX_SolverConfiguration c;
    memset(&c, fill, sizeof c);
    CONEX_SetDefaultOptions(&c);
    SolverConfiguration d;
#define X(f) check(c.f == d.f, "option " #f " has the library's default");
    OPTIONS(X)
#undef X
  }
}

bool same(const SOCConstraint* o, int n) { return o && o->n_ == n; }

struct Shadow {
  int kind;                 // 0 linear 1 soc 2 lmi(d) 3 cost 4 dense lmi
  int n, d;
  std::vector<int> vars;
  MatrixXd A, c;
  std::vector<MatrixXd> As;
};

MatrixXd cost(Program& p, int i, int n) {
  auto it = p.kkt_system_manager_.eqs.begin();
  std::advance(it, i);
  WorkspaceSchurComplement sys(n);
  VectorXd mem(SizeOf(sys));
  Initialize(&sys, mem.data());
  ConstructSchurComplementSystem(&it->constraint, true, &sys);
  return MatrixXd(sys.G);
}

template <typename T>
bool hermitian(std::any& a, int n) {
  auto* o = std::any_cast<HermitianPsdConstraint<T>>(&a);
  return o && o->workspace_.n_ == n;
}

void compare(Program& p, const std::vector<Shadow>& want) {
  auto& m = p.kkt_system_manager_;
  if (!check(m.eqs.size() == want.size() && m.cliques.size() == want.size(), fmt("%d constraints, expected %d", (int)m.eqs.size(), (int)want.size()))) return;
  int k = 0;
  for (auto& e : m.eqs) {
    const Shadow& w = want[k];
    check(m.cliques[k] == w.vars, fmt("constraint %d is on its variables: got %s expected %s", k, show(m.cliques[k]).c_str(), show(w.vars).c_str()));
    bool ok = false;
    if (w.kind == 0) {
      auto* o = std::any_cast<LinearConstraint>(&e.obj);
      ok = o && o->constraint_matrix_ == w.A && o->constraint_affine_ == w.c && o->workspace_.n_ == w.n;
    } else if (w.kind == 1) {
      auto* o = std::any_cast<SOCConstraint>(&e.obj);
      ok = o && o->n_ == w.n && o->workspace_.n_ == w.n;
    } else if (w.kind == 2) {
      ok = w.d == 1 ? hermitian<Real>(e.obj, w.n) : w.d == 2 ? hermitian<Complex>(e.obj, w.n) : w.d == 4 ? hermitian<Quaternions>(e.obj, w.n) : hermitian<Octonions>(e.obj, w.n);
    } else if (w.kind == 3) {
      ok = close(cost(p, k, w.vars.size()), w.A, 1e-14);
    } else {
      auto* o = std::any_cast<DenseLMIConstraint>(&e.obj);
      ok = o && o->constraint_affine_ == w.c && o->constraint_matrices_.size() == w.As.size() && o->workspace()->n_ == w.n;
      if (ok)
        for (size_t i = 0; i < w.As.size(); i++) ok = ok && o->constraint_matrices_[i] == w.As[i];
    }
    check(ok, fmt("constraint %d (kind %d) has its type, order and data", k, w.kind));
    k++;
  }
}

void run(Rng& r) {
  Mute mute;
  void* p = CONEX_CreateConeProgram();
  auto& prog = *reinterpret_cast<Program*>(p);
  int nv = 0;
  std::vector<Shadow> want;
  std::string log = "new program";
  auto note = [&](std::string s) { log += "; " + s; if (log.size() > 700) log = "..." + log.substr(log.size() - 600); ctx() = log; };
  auto all = [&] { std::vector<int> v; for (int i = 0; i < nv; i++) v.push_back(i); return v; };
  for (int t = 0; t < 14; t++) {
    int op = t == 0 ? 0 : r.range(0, 11);
    int id = -77, st;
    bool nul = r.range(0, 11) == 0, noid = r.range(0, 11) == 0;
    void* q = nul ? nullptr : p;
    int* idp = noid ? nullptr : &id;
    int K = want.size();
    bool made = false;
    if (op == 0) {
      int n = r.range(0, 3) == 0 ? r.range(-1, 1) : r.range(1, 4);
      note(fmt("SetNumberOfVariables(%d)%s", n, nul ? " null" : ""));
      st = CONEX_SetNumberOfVariables(q, n);
      bool ok = !nul && n >= 1 && nv == 0 && true;
      check((st == 0) == ok, fmt("status %d", st));
      if (ok) nv = n;
      check(prog.GetNumberOfVariables() == nv, "number of variables");
      if (nv == 0) { CONEX_SetNumberOfVariables(p, 2); nv = 2; }
    } else if (op == 1) {
      int n = r.range(-1, 3);
      note(fmt("NewLinearInequality(%d)%s%s", n, nul ? " null" : "", noid ? " no id" : ""));
      st = CONEX_NewLinearInequality(q, n, idp);
      if ((made = !nul && !noid && n >= 1)) want.push_back({0, n, 0, all(), MatrixXd::Zero(n, nv), MatrixXd::Zero(n, 1), {}});
      check((st == 0) == made, fmt("status %d", st));
      if (made) check(id == K, fmt("identifier %d, expected %d", id, K));
    } else if (op == 2) {
      int n = r.range(-1, 3);
      note(fmt("NewLorentzCone(%d)%s%s", n, nul ? " null" : "", noid ? " no id" : ""));
      st = CONEX_NewLorentzConeConstraint(q, n, idp);
      if ((made = !nul && !noid && n >= 1)) want.push_back({1, n, 0, all(), {}, {}, {}});
      check((st == 0) == made, fmt("status %d", st));
      if (made) check(id == K, fmt("identifier %d, expected %d", id, K));
    } else if (op == 3 || op == 4) {
      int n = r.range(0, 5), d = r.coin() ? 1 << r.range(0, 3) : r.range(-1, 9);
      note(fmt("NewLMI(%d,%d)%s%s", n, d, nul ? " null" : "", noid ? " no id" : ""));
      st = CONEX_NewLinearMatrixInequality(q, n, d, idp);
      if ((made = !nul && !noid && n >= 1 && (d == 1 || d == 2 || d == 4 || (d == 8 && n <= 3)))) want.push_back({2, n, d, all(), {}, {}, {}});
      check((st == 0) == made, fmt("status %d", st));
      if (made) check(id == K, fmt("identifier %d, expected %d", id, K));
    } else if (op == 5) {
      note(fmt("NewQuadraticCost%s%s", nul ? " null" : "", noid ? " no id" : ""));
      st = CONEX_NewQuadraticCost(q, idp);
      if ((made = !nul && !noid)) want.push_back({3, nv, 0, all(), MatrixXd::Zero(nv, nv), {}, {}});
      check((st == 0) == made, fmt("status %d", st));
      if (made) check(id == K, fmt("identifier %d, expected %d", id, K));
    } else if (op == 6) {
      int n = r.range(0, 4) == 0 ? nv + 1 : nv;
      MatrixXd Q = r.psd(n);
      for (int i = 0; i < n; i++)
        if (r.range(0, 2) == 0) { Q.row(i).setZero(); Q.col(i).setZero(); }
      if (r.coin() && n > 1) Q(0, 1) += .25;      // only the symmetric part counts
      if (n > 1 && Q(0, 0) == 0) { Q(0, 1) = Q(1, 0) = 0; }
      std::vector<int> v;
      for (int i = 0; i < n; i++) if (Q(i, i) > 0) v.push_back(i);
      MatrixXd S(v.size(), v.size());
      for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < v.size(); j++) S(i, j) = (Q(v[i], v[j]) + Q(v[j], v[i])) / 2;
      note("AddQuadraticCost" + show(Q) + (nul ? " null" : ""));
      st = CONEX_AddQuadraticCost(q, Q.data(), n, n);
      if ((made = !nul && (v.empty() || v.back() < nv))) want.push_back({3, (int)v.size(), 0, v, S, {}, {}});
      check((st == 0) == made, fmt("status %d", st));
    } else if (op == 7) {
      int n = r.range(1, 3);
      MatrixXd A = r.dense(n, nv), c = r.dense(n, 1);
      note(fmt("AddDenseLinear(%d rows)", n));
      st = CONEX_AddDenseLinearConstraint(p, A.data(), n, nv, c.data(), n);
      made = true;
      want.push_back({0, n, 0, all(), A, c, {}});
      check(st == K, fmt("identifier %d, expected %d", st, K));
    } else if (op == 8 || op == 9) {
      int n = r.range(1, 3), m = op == 8 ? nv : r.range(0, nv + 1);
      MatrixXd A = r.dense(n * n, std::max(m, 1)), c = r.sym(n);
      std::vector<MatrixXd> As;
      for (int k = 0; k < m; k++) {
        MatrixXd X = r.sym(n);
        As.push_back(X);
        A.col(k) = Eigen::Map<VectorXd>(X.data(), n * n);
      }
      if (op == 8) {
        note(fmt("AddDenseLMI(%d)", n));
        st = CONEX_AddDenseLMIConstraint(p, A.data(), n, n, m, c.data(), n, n);
        want.push_back({4, n, 0, all(), {}, c, As});
        check(st == K, fmt("identifier %d, expected %d", st, K));
      } else {
        std::vector<long> v;
        auto s = r.perm(nv + 1);
        for (int k = 0; k < m; k++) v.push_back(s[k]);
        if (m > 1 && r.range(0, 3) == 0) v[0] = v[m - 1];
        if (m > 0 && r.range(0, 5) == 0) v[r.range(0, m - 1)] = r.coin() ? -1 : (1L << 32) + r.range(0, nv);
        std::vector<int> vi(v.begin(), v.end());
        std::string sv;
        bool ok = true;
        for (int k = 0; k < m; k++) {
          sv += fmt(" %ld", v[k]);
          ok = ok && v[k] >= 0 && v[k] < nv;
          for (int l = 0; l < k; l++) ok = ok && v[l] != v[k];
        }
        note(fmt("AddSparseLMI(order %d, variables%s)", n, sv.c_str()));
        st = CONEX_AddSparseLMIConstraint(p, A.data(), n, n, m, c.data(), n, n, v.data(), m);
        if (ok) want.push_back({4, n, 0, vi, {}, c, As});
        check(ok ? st == K : st < 0, fmt("identifier %d, expected %d", st, ok ? K : -1));
      }
    } else {
      // a solve: creation calls stay valid afterwards
      if (K == 0) continue;
      bool easy = true;
      for (auto& w : want) easy = easy && (w.kind == 0 || w.kind == 4) && w.A.size() > 0;
      CONEX_SolverConfiguration c;
      CONEX_SetDefaultOptions(&c);
      c.max_iterations = r.range(0, 4);
      note("solve");
      if (easy) {
        VectorXd b = r.dense(nv, 1), y(nv);
        CONEX_Maximize(p, b.data(), nv, &c, y.data(), nv);
      } else {
        prog.stats = std::make_unique<WorkspaceStats>(c.max_iterations);
        prog.InitializeWorkspace();
      }
    }
    if (made) nontrivial()++;
    compare(prog, want);
  }
  CONEX_DeleteConeProgram(p);
}

// iteration statistics and options through a solve
void solves(Rng& r) {
  Mute mute;
  int n = r.range(1, 3), k = n + r.range(1, 3);
  void* p = CONEX_CreateConeProgram();
  CONEX_SetNumberOfVariables(p, n);
  // box: feasible and bounded
  MatrixXd A(2 * n, n), c = MatrixXd::Constant(2 * n, 1, 1.0);
  A << MatrixXd::Identity(n, n), -MatrixXd::Identity(n, n);
  CONEX_AddDenseLinearConstraint(p, A.data(), 2 * n, n, c.data(), 2 * n);
  VectorXd b = r.dense(n, 1), y(n), z(n);
  CONEX_IterationStats s{-5, -5};
  ctx() = "statistics before a solve";
  CONEX_GetIterationStats(p, &s, 0);
  check(s.mu == -5 && s.iteration_number == -5, "nothing is written");
  CONEX_SolverConfiguration cf;
  CONEX_SetDefaultOptions(&cf);
  cf.max_iterations = r.range(1, 30);
  cf.inv_sqrt_mu_max = r.coin() ? 1000 : r.real(2, 50);
  cf.enable_rescaling = r.coin();
  cf.enable_line_search = r.coin();
  cf.final_centering_steps = r.range(0, 5);
  cf.kkt_solver = r.range(0, 2);
  cf.iterative_refinement_iterations = r.range(0, 2);
  ctx() = fmt("box with %d variables, max_iterations %d, inv_sqrt_mu_max %g, rescaling %d, line search %d, final centering %d, kkt solver %d", n, cf.max_iterations,
              cf.inv_sqrt_mu_max, cf.enable_rescaling, cf.enable_line_search, cf.final_centering_steps, cf.kkt_solver);
  int st = CONEX_Maximize(p, b.data(), n, &cf, y.data(), n);
  // the same problem through the library
  Program q(n);
  q.AddConstraint(LinearConstraint(A, c));
  SolverConfiguration d;
#define X(f) d.f = cf.f;
  OPTIONS(X)
#undef X
  bool st2 = conex::Solve(b, q, d, z.data());
  check(st == (int)st2, "the status of the library");
  check(y == z, "options reach the solver: the result is that of the library");
  auto& prog = *reinterpret_cast<Program*>(p);
  int it = prog.stats->num_iter;
  for (int i = -it - 2; i <= it + 1; i++) {
    CONEX_IterationStats s{-5, -5};
    CONEX_GetIterationStats(p, &s, i);
    int w = i < 0 ? it + i : i;
    if (w >= 0 && w < it) {
      check(s.iteration_number == w, fmt("iteration %d: number %d, expected %d", i, s.iteration_number, w));
      double x = prog.stats->sqrt_inv_mu[w];
      eq(s.mu, 1 / (x * x), "barrier parameter of the iteration");
    } else
      check(s.mu == -5 && s.iteration_number == -5, fmt("iteration %d of %d: nothing is written", i, it));
  }
  nontrivial()++;
  CONEX_DeleteConeProgram(p);
}

int main() {
  Rng r(seed());
  defaults();
  int k = 6000 * scale();
  for (int i = 0; i < k; i++) {
    run(r);
    if (i < 3) sample(ctx());
    if (i % 3 == 0) solves(r);
  }
  return finish(fmt("%d random histories of 14 calls (creation, invalid arguments, solves) with up to 4 variables; %d solves compared with the library", k, k / 3));
}
