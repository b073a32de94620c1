// SOURCES: conex/elimination_ordering.cc
#include "h.h"
#include "conex/elimination_ordering.h"
using namespace h;

bool adjacent(const MatrixXd& G, int i, int j) { return G(i, j) != 0; }

bool perfect(const MatrixXd& G) {
  int n = G.rows();
  for (int v = 0; v < n; v++)
    for (int i = v + 1; i < n; i++)
      for (int j = i + 1; j < n; j++)
        if (adjacent(G, v, i) && adjacent(G, v, j) && !adjacent(G, i, j)) return false;
  return true;
}

// removes simplicial vertices as long as there are any
bool chordal(const MatrixXd& G) {
  int n = G.rows();
  std::vector<bool> in(n, true);
  for (int left = n; left > 0; left--) {
    int found = -1;
    for (int v = 0; v < n && found < 0; v++) {
      if (!in[v]) continue;
      bool ok = true;
      for (int i = 0; i < n && ok; i++)
        for (int j = i + 1; j < n && ok; j++)
          if (in[i] && in[j] && i != v && j != v && adjacent(G, v, i) && adjacent(G, v, j) && !adjacent(G, i, j)) ok = false;
      if (ok) found = v;
    }
    if (found < 0) return false;
    in[found] = false;
  }
  return true;
}

void one(const MatrixXd& G) {
  int n = G.rows();
  ctx() = "pattern " + show(G);
  nontrivial()++;
  bool c = chordal(G);
  check(conex::IsPerfectlyOrdered(G) == perfect(G), perfect(G) ? "a perfect ordering is recognised" : "an ordering that is not perfect is rejected");
  check(conex::IsChordal(G) == c, c ? "a chordal graph is recognised" : "a graph that is not chordal is rejected");
  std::vector<int> path;
  bool got = conex::IsChordal(G, &path);
  check(got == c, c ? "a chordal graph is recognised (with a path)" : "a graph that is not chordal is rejected (with a path)");
  auto P = conex::EliminationOrdering(G);
  if (!check(P.indices().size() == n, "the ordering has one entry per vertex")) return;
  std::vector<int> seen(n, 0);
  for (int i = 0; i < n; i++) {
    int v = P.indices()[i];
    if (!check(v >= 0 && v < n && !seen[v], "the elimination ordering is a permutation")) return;
    seen[v] = 1;
  }
  std::vector<bool> visited(n, false);
  for (int k = n - 1; k >= 0; k--) {
    int v = P.indices()[k], best = 0, mine = 0;
    for (int u = 0; u < n; u++) {
      if (visited[u]) continue;
      int w = 0;
      for (int x = 0; x < n; x++) w += x != u && visited[x] && adjacent(G, u, x);
      best = std::max(best, w);
      if (u == v) mine = w;
    }
    check(mine == best, fmt("maximum cardinality search: vertex %d has %d visited neighbours, another has %d", v, mine, best));
    visited[v] = true;
  }
  VectorXd s = G.rowwise().sum(), d = conex::MaximumDegreeVertices(G);
  std::vector<int> want, have;
  for (int i = 0; i < n; i++) if (s(i) == s.maxCoeff()) want.push_back(i);
  for (int i = 0; i < d.size(); i++) have.push_back((int)d(i));
  check(want == have, "vertices of maximal degree: " + show(have) + ", want " + show(want));
  // a perfect ordering of the permuted graph, exactly for chordal graphs
  MatrixXd Gp = P.transpose() * G * P;
  check(conex::IsPerfectlyOrdered(Gp) == c, "the elimination ordering is perfect exactly for chordal graphs");
}

MatrixXd graph(int n, long bits, int diag, Rng& r) {
  MatrixXd G = MatrixXd::Zero(n, n);
  int b = 0;
  for (int i = 0; i < n; i++) {
    G(i, i) = diag == 2 ? r.coin() : diag;
    for (int j = 0; j < i; j++) {
      G(i, j) = G(j, i) = (bits >> b) & 1;
      b++;
    }
  }
  return G;
}

int main() {
  Rng r(seed());
  for (int n = 1; n <= 5; n++)
    for (long b = 0; b < (1l << (n * (n - 1) / 2)); b++) one(graph(n, b, 1, r)), one(graph(n, b, 0, r));
  for (int t = 0; t < 3000 * scale(); t++) {
    int n = r.range(3, 9);
    // random density, random diagonal
    double p = r.real(.2, .9);
    long bits = 0;
    for (int k = 0; k < n * (n - 1) / 2; k++) bits |= (long)(r.real(0, 1) < p) << k;
    MatrixXd G = graph(n, bits, r.range(0, 2), r);
    // other values than 1 in the pattern
    if (r.range(0, 3) == 0)
      for (int i = 0; i < n; i++)
        for (int j = 0; j <= i; j++)
          if (G(i, j) != 0) G(i, j) = G(j, i) = r.coin() ? r.range(1, 4) : r.range(1, 8) / 4.;
    one(G);
  }
  return finish("all graphs with up to 5 vertices (zero and unit diagonals), random graphs with up to 9 vertices and positive weights");
}
