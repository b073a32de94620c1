// Independent hypercomplex arithmetic: structure constants read off products of 1x1 matrices, checked by the laws in C09.
#pragma once
#include "h.h"
#include "conex/jordan_matrix_algebra.h"
namespace h {
template <int N>
struct Table {
  double c[N][N][N];
  Table() {
    using T = conex::MatrixAlgebra<N>;
    for (int i = 0; i < N; i++)
      for (int j = 0; j < N; j++) {
        auto x = T::Zero(1, 1), y = T::Zero(1, 1);
        x.at(i)(0, 0) = 1;
        y.at(j)(0, 0) = 1;
        auto z = T::Multiply(x, y);
        for (int k = 0; k < N; k++) c[i][j][k] = z.at(k)(0, 0);
      }
  }
};
using HM = std::vector<MatrixXd>;
template <int N>
HM mul(const HM& x, const HM& y) {
  static Table<N> t;
  HM z(N, MatrixXd::Zero(x[0].rows(), y[0].cols()));
  for (int i = 0; i < N; i++)
    for (int j = 0; j < N; j++) {
      bool any = false;
      for (int k = 0; k < N; k++) any = any || t.c[i][j][k] != 0;
      if (!any) continue;
      MatrixXd p = x[i] * y[j];
      for (int k = 0; k < N; k++)
        if (t.c[i][j][k] != 0) z[k] += t.c[i][j][k] * p;
    }
  return z;
}
inline HM add(const HM& x, const HM& y, double s = 1) {
  HM z = x;
  for (size_t i = 0; i < x.size(); i++) z[i] += s * y[i];
  return z;
}
inline HM scl(const HM& x, double s) {
  HM z = x;
  for (auto& m : z) m *= s;
  return z;
}
inline HM ct(const HM& x) {
  HM z;
  for (size_t i = 0; i < x.size(); i++) z.push_back(i ? MatrixXd(-x[i].transpose()) : MatrixXd(x[i].transpose()));
  return z;
}
inline double ip(const HM& x, const HM& y) {
  double s = 0;
  for (size_t i = 0; i < x.size(); i++) s += x[i].cwiseProduct(y[i]).sum();
  return s;
}
template <int N>
HM jordan(const HM& x, const HM& y) { return scl(add(mul<N>(x, y), mul<N>(y, x)), .5); }
template <int N>
HM quad(const HM& x, const HM& y) {
  return add(scl(jordan<N>(x, jordan<N>(x, y)), 2), jordan<N>(jordan<N>(x, x), y), -1);
}
template <int N>
HM rnd(Rng& r, int p, int q) {
  HM z;
  for (int i = 0; i < N; i++) z.push_back(r.mat(p, q));
  return z;
}
template <int N>
HM herm(Rng& r, int n) {
  HM x = rnd<N>(r, n, n);
  return add(x, ct(x));
}
template <int N>
HM ident(int n) {
  HM z(N, MatrixXd::Zero(n, n));
  z[0].setIdentity();
  return z;
}
inline conex::HyperComplexMatrix to(const HM& x) {
  conex::HyperComplexMatrix z(x.size());
  for (size_t i = 0; i < x.size(); i++) z.at(i) = x[i];
  return z;
}
inline HM from(const conex::HyperComplexMatrix& x) { return HM(x.begin(), x.end()); }
inline std::string show(const HM& x) {
  std::string s;
  for (auto& m : x) s += show(m);
  return s;
}
inline bool eq(const HM& a, const HM& b, const std::string& what, double tol = 1e-8) {
  bool ok = a.size() == b.size();
  for (size_t i = 0; ok && i < a.size(); i++) ok = close(a[i], b[i], tol);
  return check(ok, ok ? what : what + ": got " + show(a) + " expected " + show(b));
}
}  // namespace h
