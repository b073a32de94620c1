// SOURCES: ALL
// INTERFACE
// FLAGS: -fno-access-control
#include "interfaces/conex.h"
#include "hyper.h"
#include "conex/cone_program.h"
#include "conex/hermitian_psd.h"
#include "conex/linear_constraint.h"
#include "conex/soc_constraint.h"
using namespace h;
using namespace conex;

// every matrix of the constraint data: key -> matrix
using State = std::map<std::string, MatrixXd>;

template <int N>
bool herm(std::any& a, State* s) {
  auto* o = std::any_cast<HermitianPsdConstraint<MatrixAlgebra<N>>>(&a);
  if (!o) return false;
  for (size_t i = 0; i < o->constraint_matrices_.size(); i++)
    for (size_t k = 0; k < o->constraint_matrices_[i].size(); k++) (*s)[fmt("A%d.%d", (int)i, (int)k)] = o->constraint_matrices_[i].at(k);
  for (size_t k = 0; k < o->constraint_affine_.size(); k++) (*s)[fmt("c.%d", (int)k)] = o->constraint_affine_.at(k);
  return true;
}

State state(std::any& a) {
  State s;
  if (auto* o = std::any_cast<LinearConstraint>(&a)) { s["A"] = o->constraint_matrix_; s["c"] = o->constraint_affine_; }
  else if (auto* o = std::any_cast<SOCConstraint>(&a)) { s["A"] = o->constraint_matrix_; s["c"] = o->constraint_affine_; }
  else if (auto* o = std::any_cast<EqualityConstraints>(&a)) { s["A"] = o->A_; s["b"] = o->b_; }
  else herm<1>(a, &s) || herm<2>(a, &s) || herm<4>(a, &s) || herm<8>(a, &s);
  return s;
}

// entries that differ; entries beyond the old dimensions count when nonzero
std::string diff(const State& a, const State& b) {
  std::string d;
  for (auto& [k, m] : b) {
    auto it = a.find(k);
    MatrixXd o = it == a.end() ? MatrixXd(0, 0) : it->second;
    for (int i = 0; i < m.rows(); i++)
      for (int j = 0; j < m.cols(); j++) {
        double x = i < o.rows() && j < o.cols() ? o(i, j) : 0;
        if (!(m(i, j) == x)) d += fmt("%s(%d,%d)=%g;", k.c_str(), i, j, m(i, j));
      }
    if (o.rows() > m.rows() || o.cols() > m.cols()) d += k + " shrank;";
  }
  for (auto& [k, m] : a)
    if (!b.count(k)) d += k + " removed;";
  return d;
}
bool same(const State& a, const State& b) {
  if (a.size() != b.size()) return false;
  for (auto& [k, m] : a) {
    auto it = b.find(k);
    if (it == b.end() || it->second.rows() != m.rows() || it->second.cols() != m.cols() || it->second != m) return false;
  }
  return true;
}

struct Con {
  int kind;   // 0 linear 1 soc 2 hermitian 3 equality 4 quadratic cost
  int n, m, N;
};

void run(Rng& r) {
  Mute mute;
  int nv = r.range(1, 4);
  void* p = CONEX_CreateConeProgram();
  CONEX_SetNumberOfVariables(p, nv);
  auto& prog = *reinterpret_cast<Program*>(p);
  std::vector<Con> cons;
  int K = r.range(1, 4);
  for (int k = 0; k < K; k++) {
    Con c{r.range(0, 4), r.range(1, 3), nv, 1};
    int id = -7;
    if (c.kind == 0) {
      if (r.coin()) CONEX_NewLinearInequality(p, c.n, &id);
      else { MatrixXd A = r.mat(c.n, nv), b = r.mat(c.n, 1); prog.AddConstraint(LinearConstraint(A, b)); }
    } else if (c.kind == 1) {
      if (r.coin()) { CONEX_NewLorentzConeConstraint(p, c.n, &id); c.m = 0; }
      else { MatrixXd A = r.mat(c.n + 1, nv), b = r.mat(c.n + 1, 1); prog.AddConstraint(SOCConstraint(A, b)); }
    } else if (c.kind == 2) {
      c.N = 1 << r.range(0, 3);
      CONEX_NewLinearMatrixInequality(p, c.n, c.N, &id);
      c.m = 0;
    } else if (c.kind == 3) {
      MatrixXd A = r.mat(c.n, nv), b = r.mat(c.n, 1);
      prog.AddConstraint(EqualityConstraints(A, b));
    } else {
      c.n = nv;
      prog.AddQuadraticCost(r.psd(nv));
    }
    cons.push_back(c);
  }
  std::vector<State> now;
  auto snap = [&] {
    std::vector<State> s;
    for (auto& e : prog.kkt_system_manager_.eqs) s.push_back(state(e.obj));
    return s;
  };
  // quadratic costs: read back through their contribution to the Newton system
  auto cost = [&](int i) {
    auto it = prog.kkt_system_manager_.eqs.begin();
    std::advance(it, i);
    WorkspaceSchurComplement sys(nv);
    VectorXd mem(SizeOf(sys));
    Initialize(&sys, mem.data());
    ConstructSchurComplementSystem(&it->constraint, true, &sys);
    return MatrixXd(sys.G);
  };
  for (int t = 0; t < 12; t++) {
    int i = r.range(0, K - 1);
    Con& c = cons[i];
    bool op = r.coin();
    int var = r.range(0, c.kind == 0 || c.kind == 3 ? nv - 1 : nv), row = r.range(0, c.kind == 1 ? c.n : c.n - 1);
    int col = c.kind == 2 || c.kind == 4 ? r.range(0, c.n - 1) : 0, dim = c.kind == 2 ? r.range(0, c.N - 1) : 0;
    double val = r.range(0, 5) ? r.real(-1, 1) : 0;
    int id = i;
    switch (r.range(0, 13)) {   // out-of-range values
      case 0: row = r.coin() ? -1 : r.range(-9, 9); break;
      case 1: col = r.coin() ? -1 : r.range(-9, 9); break;
      case 2: var = r.coin() ? -1 : r.range(-3, 8); break;
      case 3: dim = r.coin() ? -1 : r.range(-2, 9); break;
      case 4: id = r.coin() ? K : r.range(-2, K + 1); break;
      case 5: row = c.kind == 1 ? c.n + 1 : c.n; break;
      case 6: col = c.n; break;
      default: break;
    }
    bool quadapi = !op && r.range(0, 3) == 0;
    if (quadapi) dim = 0;
    ctx() = fmt("constraint %d (of %d, kind %d, order %d, %d variables, dimension %d): %s val=%g var=%d row=%d col=%d dim=%d", id, K,
                cons[std::min(std::max(id, 0), K - 1)].kind, c.n, nv, c.N, op ? "linear operator" : "affine term", val, var, row, col, dim);
    auto before = snap();
    std::vector<MatrixXd> qb;
    for (int k = 0; k < K; k++) qb.push_back(cons[k].kind == 4 ? cost(k) : MatrixXd());
    int st = op ? CONEX_UpdateLinearOperator(p, id, val, var, row, col, dim)
                : quadapi ? CONEX_UpdateQuadraticCostMatrix(p, id, val, row, col) : CONEX_UpdateAffineTerm(p, id, val, row, col, dim);
    auto after = snap();
    nontrivial()++;
    bool inside = id >= 0 && id < K;
    Con& d = cons[inside ? id : 0];
    bool valid = inside;
    std::string want;
    State& b = before[inside ? id : 0];
    auto put = [&](std::string key, int i, int j, double v) {
      MatrixXd& m = b[key];
      int R = std::max<int>(m.rows(), i + 1), C = std::max<int>(m.cols(), j + 1);
      MatrixXd z = MatrixXd::Zero(R, C);
      z.topLeftCorner(m.rows(), m.cols()) = m;
      z(i, j) = v;
      m = z;
    };
    if (valid) {
      if (d.kind == 0 || d.kind == 1) {
        int rows = d.kind == 0 ? d.n : d.n + 1;
        valid = dim == 0 && col == 0 && row >= 0 && row < rows && (!op || (var >= 0 && (d.kind == 1 || var < nv)));
        if (valid) {
          if (d.kind == 1) put(op ? "A" : "c", rows - 1, op ? var : 0, op && var < b["A"].cols() ? b["A"](rows - 1, var) : !op && b["c"].size() ? b["c"](rows - 1, 0) : 0);
          put(op ? "A" : "c", row, op ? var : 0, val);
        }
      } else if (d.kind == 2) {
        valid = dim >= 0 && dim < d.N && row >= 0 && row < d.n && col >= 0 && col < d.n && (!op || var >= 0) && !(val != 0 && row == col && dim > 0);
        if (valid) {
          for (int v = 0; v <= (op ? var : 0); v++)
            for (int k = 0; k < d.N; k++) {
              std::string key = op ? fmt("A%d.%d", v, k) : fmt("c.%d", k);
              if (!b.count(key)) b[key] = MatrixXd::Zero(d.n, d.n);
            }
          std::string key = op ? fmt("A%d.%d", var, dim) : fmt("c.%d", dim);
          b[key](col, row) = dim ? -val : val;
          b[key](row, col) = val;
        }
      } else if (d.kind == 4) {
        valid = !op && dim == 0 && row >= 0 && col >= 0 && row < nv && col < nv;
        if (valid) qb[id](row, col) = val;
      } else {
        valid = false;
      }
    }
    check((st == 0) == valid, fmt("status %d for %s arguments", st, valid ? "valid" : "invalid"));
    for (int k = 0; k < K; k++) {
      check(same(before[k], after[k]), fmt("constraint %d: %s", k, valid && k == id ? ("exactly the addressed entry is set; differs: " + diff(before[k], after[k])).c_str() : "unchanged"));
      if (cons[k].kind == 4) check(cost(k) == qb[k], fmt("cost %d: exactly the addressed entry is set", k));
    }
  }
  CONEX_DeleteConeProgram(p);
}

int main() {
  Rng r(seed());
  int k = 20000 * scale();
  for (int i = 0; i < k; i++) {
    run(r);
    if (i < 3) sample(ctx());
  }
  return finish(fmt("%d random programs with up to 4 constraints of order up to 3, 12 updates each", k));
}
