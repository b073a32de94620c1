// SOURCES: conex/tree_utils.cc conex/clique_ordering.cc conex/supernodal_solver.cc
#include "h.h"
#include "conex/clique_ordering.h"
#include "conex/supernodal_solver.h"
#include "conex/tree_utils.h"
using namespace h;
using Cliques = std::vector<std::vector<int>>;

void one(const Cliques& c, const conex::MatrixData& d) {
  int n = c.size();
  nontrivial()++;
  if (!check((int)d.clique_order.size() == n, fmt("%d cliques ordered, %d given", (int)d.clique_order.size(), n))) return;
  std::vector<int> seen(n, 0);
  for (int e : d.clique_order) {
    if (!check(e >= 0 && e < n && !seen[e], "the order of the cliques is a permutation: " + show(d.clique_order))) return;
    seen[e] = 1;
  }
  const auto& sn = d.supernodes_original_labels;
  const auto& sep = d.separators_original_labels;
  if (!check((int)sn.size() == n && (int)sep.size() == n && (int)d.cliques.size() == n && (int)d.supernode_size.size() == n,
             "one supernode, separator and relabelled clique per clique")) return;
  std::map<int, int> at;  // variable -> place in the order that eliminates it
  std::set<int> vars;
  for (auto& x : c) vars.insert(x.begin(), x.end());
  for (int e = 0; e < n; e++)
    for (int v : sn[e]) {
      check(!at.count(v), fmt("variable %d is eliminated once", v));
      check(vars.count(v) > 0, fmt("the eliminated variable %d occurs in a clique", v));
      at[v] = e;
    }
  for (int v : vars) if (!check(at.count(v) > 0, fmt("variable %d is eliminated by a clique", v))) return;
  check(d.N == (int)vars.size(), fmt("N is %d, %d variables occur", d.N, (int)vars.size()));
  for (int e = 0; e < n; e++) {
    std::set<int> cover(sn[e].begin(), sn[e].end());
    for (int v : sep[e]) {
      check(!cover.count(v), fmt("variable %d occurs once in supernode and separator", v));
      cover.insert(v);
      if (check(at.count(v) > 0, fmt("separator variable %d is eliminated", v)))
        check(at[v] > e, fmt("separator variable %d of clique %d is eliminated strictly later", v, d.clique_order[e]));
    }
    for (int v : c[d.clique_order[e]]) check(cover.count(v) > 0, fmt("variable %d of clique %d is in its supernode or separator", v, d.clique_order[e]));
  }
  // the permutation and its inverse
  int N = d.N;
  if (!check((int)d.permutation_inverse.size() >= N, "the inverse permutation has an entry per variable")) return;
  std::set<int> img;
  for (int i = 0; i < N; i++) {
    int v = d.permutation_inverse[i];
    if (!check(v >= 0 && v < (int)d.permutation.size(), "the inverse permutation is in range")) return;
    check(vars.count(v) > 0, fmt("position %d holds a variable that occurs", i));
    check(d.permutation[v] == i, fmt("permutation and inverse at position %d", i));
  }
  for (int v : vars) {
    if (!check(v < (int)d.permutation.size() && d.permutation[v] >= 0 && d.permutation[v] < N, fmt("position of variable %d in range", v))) return;
    check(d.permutation_inverse[d.permutation[v]] == v, fmt("inverse and permutation at variable %d", v));
    img.insert(d.permutation[v]);
  }
  check(img.size() == vars.size(), "the permutation is injective");
  int pos = 0;
  for (int e = 0; e < n; e++) {
    check(d.supernode_size[e] == (int)sn[e].size(), fmt("size of supernode %d", e));
    std::vector<int> want;
    for (int v : sn[e]) want.push_back(d.permutation[v]);
    for (int v : want) check(v == pos++, "supernodes occupy consecutive positions");
    for (int v : sep[e]) want.push_back(d.permutation[v]);
    check(d.cliques[e] == want, fmt("relabelled clique %d: ", e) + show(d.cliques[e]) + " want " + show(want));
    for (size_t k = sn[e].size() + 1; k < want.size(); k++) check(want[k - 1] < want[k], "separators are ordered by eliminated position");
  }
}

void all(const Cliques& c, Rng& r, bool every) {
  int n = c.size();
  for (int root = -1; root < n; root++) {
    if (!every && n > 3 && root >= 0 && r.range(0, n) > 3) continue;
    ctx() = "cliques " + show(c) + fmt(" root %d", root);
    one(c, conex::GetData(c, root));
    for (int k = 0; k < 2; k++) {
      std::vector<int> leaf(n);
      for (int i = 0; i < n; i++) leaf[i] = r.range(0, 3) > k;
      ctx() = "cliques " + show(c) + fmt(" root %d leaves ", root) + show(leaf);
      one(c, conex::GetData(c, leaf, root));
    }
  }
}

void path(Rng& r) {
  int n = r.range(1, 14);
  std::vector<int> label = r.perm(n), parent(n), depth(n);
  int shape = r.range(0, 3);
  for (int i = 0; i < n; i++) {
    int p = i == 0 ? 0 : shape == 0 ? i - 1 : shape == 1 ? 0 : shape == 2 ? r.range(std::max(0, i - 2), i - 1) : r.range(0, i - 1);
    parent[label[i]] = label[p];
    depth[label[i]] = i == 0 ? 0 : depth[label[p]] + 1;
  }
  for (int x = 0; x < n; x++)
    for (int y = 0; y < n; y++) {
      ctx() = "tree " + show(parent) + fmt(" from %d to %d", x, y);
      nontrivial()++;
      std::vector<int> up;
      for (int v = x;; v = parent[v]) { up.push_back(v); if (parent[v] == v) break; }
      std::set<int> anc(up.begin(), up.end()), want;
      int a = y;
      while (!anc.count(a)) { want.insert(a); a = parent[a]; }
      for (int v = x; v != a; v = parent[v]) want.insert(v);
      want.insert(a);
      auto got = conex::PathInTree(x, y, parent, depth);
      std::set<int> set(got.begin(), got.end());
      check(set.size() == got.size(), "a path repeats no node");
      check(set == want, "the path is the unique simple path: " + show(got));
      check(got.size() && got.back() == a, "the path ends with the common ancestor");
    }
}

int main() {
  Rng r(seed());
  // all lists of up to three cliques over up to three variables
  std::vector<std::vector<int>> sets = {{0}, {1}, {2}, {0, 1}, {1, 0}, {2, 0}, {1, 2}, {0, 1, 2}, {2, 0, 1}};
  for (auto& a : sets) {
    all({a}, r, true);
    for (auto& b : sets) {
      all({a, b}, r, true);
      for (auto& x : sets) all({a, b, x}, r, true);
    }
  }
  for (int t = 0; t < 5000 * scale(); t++) {
    int n = r.range(1, 9), m = r.range(1, 12), kind = r.range(0, 5);
    std::vector<int> label = r.perm(m + r.range(0, 5));
    Cliques c;
    for (int i = 0; i < n; i++) {
      std::vector<int> x;
      if (kind == 1) x = {i % m, (i + 1) % m};                                 // cycles
      else if (kind == 2) { x = {0}; if (m > 1) x.push_back(1 + i % (m - 1)); }  // stars
      else if (kind == 3 && i && r.coin()) { x = c[r.range(0, i - 1)]; for (auto& v : x) v = std::find(label.begin(), label.end(), v) - label.begin(); }
      else if (kind == 4) { int b = r.range(0, m - 1); for (int v = b; v < std::min(m, b + 3); v++) x.push_back(v); }  // bands
      else x = r.subset(m, r.range(1, std::min(m, kind == 5 ? 2 : 5)));
      std::set<int> s(x.begin(), x.end());
      x.assign(s.begin(), s.end());
      auto p = r.perm(x.size());
      std::vector<int> y;
      for (int k : p) y.push_back(label[x[k]]);
      c.push_back(y);
    }
    all(c, r, false);
  }
  for (int t = 0; t < 400 * scale(); t++) path(r);
  return finish("all lists of up to three cliques over three variables, random lists of up to nine cliques over up to 17 labels (cycles, stars, bands, nested, duplicated, disconnected), every root and random leaf preferences; all node pairs of random trees with up to 14 nodes");
}
