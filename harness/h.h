// Shared by the bounded replay harnesses.
#pragma once
#include <csignal>
#include <cmath>
#include <unistd.h>
#include <cstring>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <Eigen/Dense>

namespace h {
using Eigen::MatrixXd;
using Eigen::VectorXd;

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(0) { s = seed * 0xD1342543DE82EF95ull + 12345; s = next() ^ (seed << 32); next(); }
  uint64_t next() {
    s += 0x9E3779B97F4A7C15ull;
    uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int range(int lo, int hi) { return lo + (int)(next() % (uint64_t)(hi - lo + 1)); }  // inclusive
  double real(double lo = -1, double hi = 1) { return lo + (hi - lo) * ((next() >> 11) * (1.0 / 9007199254740992.0)); }
  bool coin() { return next() & 1; }
  // dense, sparse, small integers, a zero row or column, or zero
  MatrixXd mat(int r, int c, double s = 1) {
    MatrixXd m(r, c);
    int kind = range(0, 9);
    for (int j = 0; j < c; j++)
      for (int i = 0; i < r; i++)
        m(i, j) = kind == 6 || kind == 7 ? (range(0, 2) == 0 ? s * real() : 0)
                  : kind == 8            ? s * range(-2, 2)
                                         : s * real();
    if (kind == 5 && r) m.row(range(0, r - 1)).setZero();
    if (kind == 4 && c) m.col(range(0, c - 1)).setZero();
    if (kind == 9 && range(0, 2) == 0) m.setZero();
    return m;
  }
  MatrixXd dense(int r, int c, double s = 1) {
    MatrixXd m(r, c);
    for (int j = 0; j < c; j++)
      for (int i = 0; i < r; i++) m(i, j) = s * real();
    return m;
  }
  MatrixXd sym(int n) {
    MatrixXd m = mat(n, n);
    return m + m.transpose().eval();
  }
  MatrixXd psd(int n) {
    MatrixXd m = mat(n, n);
    return m * m.transpose() + 0.3 * MatrixXd::Identity(n, n);
  }
  std::vector<int> perm(int n) {
    std::vector<int> p(n);
    for (int i = 0; i < n; i++) p[i] = i;
    for (int i = n - 1; i > 0; i--) std::swap(p[i], p[range(0, i)]);
    return p;
  }
  std::vector<int> subset(int n, int k) {  // k distinct elements in random order
    auto p = perm(n);
    p.resize(k);
    return p;
  }
};

inline long& evals() { static long e = 0; return e; }
inline long& nontrivial() { static long e = 0; return e; }
inline int& failures() { static int f = 0; return f; }
inline std::string& ctx() { static std::string s; return s; }
// the case that was running is printed when the code crashes or does not terminate
inline void died(int sig) {
  std::fflush(stdout);
  (void)!write(1, "\nCASE ", 6);
  (void)!write(1, ctx().data(), ctx().size());
  (void)!write(1, "\n", 1);
  signal(sig, SIG_DFL);
  raise(sig);
}
struct Handlers {
  Handlers() { for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL, SIGXCPU}) signal(s, died); }
};
static Handlers handlers_;

inline std::string fmt(const char* f, ...) {
  char b[2048];
  va_list a;
  va_start(a, f);
  vsnprintf(b, sizeof b, f, a);
  va_end(a);
  return b;
}
inline std::string show(const MatrixXd& m) {
  std::ostringstream o;
  o.precision(6);
  o << "[";
  for (int i = 0; i < m.rows() && i < 8; i++) {
    if (i) o << "; ";
    for (int j = 0; j < m.cols() && j < 8; j++) o << (j ? " " : "") << m(i, j);
  }
  o << "]";
  return o.str();
}
inline std::string show(const std::vector<int>& v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + std::to_string(v[i]);
  return s + "}";
}
inline std::string show(const std::vector<std::vector<int>>& v) {
  std::string s = "{";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + show(v[i]);
  return s + "}";
}

// one evaluated statement about the code; `what` names the property part
inline bool check(bool ok, const std::string& what) {
  evals()++;
  if (!ok) {
    static std::map<std::string, int> seen;
    if (seen[what.substr(0, 60)]++ < 2 && failures() < 40) std::printf("FAIL %s | %s\n", what.c_str(), ctx().c_str());
    failures()++;
    std::fflush(stdout);
  }
  return ok;
}
inline bool close(double a, double b, double tol = 1e-8, double scale = 1) {
  return std::fabs(a - b) <= tol * (scale + std::fabs(a) + std::fabs(b));   // false for NaN
}
inline bool close(const MatrixXd& a, const MatrixXd& b, double tol = 1e-8) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  if (a.size() == 0) return true;
  double s = 1 + a.cwiseAbs().maxCoeff() + b.cwiseAbs().maxCoeff();
  double d = (a - b).cwiseAbs().maxCoeff();
  return d <= tol * s && std::isfinite(d);
}
inline bool eq(const MatrixXd& got, const MatrixXd& want, const std::string& what, double tol = 1e-8) {
  bool ok = close(got, want, tol);
  return check(ok, ok ? what : what + ": got " + show(got) + " expected " + show(want));
}
inline bool eq(double got, double want, const std::string& what, double tol = 1e-8, double scale = 1) {
  bool ok = close(got, want, tol, scale);
  return check(ok, ok ? what : what + fmt(": got %.12g expected %.12g", got, want));
}
inline MatrixXd low(const MatrixXd& m) { return m.triangularView<Eigen::Lower>(); }

inline uint64_t seed() { const char* s = getenv("VERIF_SEED"); return s ? strtoull(s, 0, 10) : 1; }
inline int scale() { const char* s = getenv("VERIF_SCALE"); int k = s ? atoi(s) : 1; return k < 1 ? 1 : k; }
inline void sample(const std::string& s) {
  static int n = 0;
  if (n++ < 5) std::printf("SAMPLE %s\n", s.c_str());
}
inline int finish(const std::string& scope) {
  std::printf("SCOPE %s\nEVALS %ld\nNONTRIVIAL %ld\n", scope.c_str(), evals(), nontrivial());
  std::fflush(stdout);
  return failures() ? 1 : 0;
}
// silence the code's own output
struct Mute {
  std::streambuf *o, *e;
  std::ostringstream s;
  Mute() { o = std::cout.rdbuf(s.rdbuf()); e = std::cerr.rdbuf(s.rdbuf()); }
  ~Mute() { std::cout.rdbuf(o); std::cerr.rdbuf(e); }
};
struct Memory {   // aligned workspace with guard values around it
  VectorXd v;
  double* base = nullptr;
  int n = 0;
  static constexpr double G = 12345.678;
  explicit Memory(int size, double fill = 0.37) : v(size + 64), n(size) {
    v.setConstant(G);
    base = v.data() + 16;
    while (reinterpret_cast<uintptr_t>(base) % 64) base++;
    for (int i = 0; i < n; i++) base[i] = fill;
  }
  bool guards() const {
    for (const double* p = v.data(); p < v.data() + v.size(); p++)
      if ((p < base || p >= base + n) && *p != G) return false;
    return true;
  }
};
}  // namespace h
