// SOURCES: conex/jordan_matrix_algebra.cc conex/approximate_eigenvalues.cc
#include "hyper.h"
using namespace h;

template <int N>
void run(Rng& r, int trials) {
  using T = conex::MatrixAlgebra<N>;
  std::string t = fmt("dimension %d: ", N);
  for (int it = 0; it < trials; it++) {
    int p = r.range(1, 4), q = r.range(1, 4), s = r.range(1, 4);
    ctx() = fmt("N=%d p=%d q=%d r=%d trial=%d", N, p, q, s, it);
    HM x = rnd<N>(r, p, q), y = rnd<N>(r, q, s), y2 = rnd<N>(r, q, s), x2 = rnd<N>(r, p, q);
    auto M = [](const HM& a, const HM& b) { return from(T::Multiply(to(a), to(b))); };
    HM xy = M(x, y);
    nontrivial()++;
    eq(xy, mul<N>(x, y), t + "Multiply is the matrix product of the scalar algebra");
    double k = r.real();
    eq(M(add(x, x2, k), y), add(xy, M(x2, y), k), t + "Multiply linear in the first argument");
    eq(M(x, add(y, y2, k)), add(xy, M(x, y2), k), t + "Multiply linear in the second argument");
    eq(from(T::ConjugateTranspose(to(x))), ct(x), t + "ConjugateTranspose");
    eq(from(T::ConjugateTranspose(to(xy))), M(ct(y), ct(x)), t + "conjugate transposition reverses products");
    eq(from(T::Add(to(x), to(x2))), add(x, x2), t + "Add");
    eq(from(T::ScalarMultiply(to(x), k)), scl(x, k), t + "ScalarMultiply");
    eq(from(T::Zero(p, q)), HM(N, MatrixXd::Zero(p, q)), t + "Zero");
    eq(from(T::Identity(p)), ident<N>(p), t + "Identity");
    HM xxt = M(ct(x), x2);
    eq(T::TraceInnerProduct(to(x), to(x2)), xxt[0].trace(), t + "TraceInnerProduct is Re tr(x^* y)");
    HM a = rnd<N>(r, 1, 1), b = rnd<N>(r, 1, 1), c = rnd<N>(r, 1, 1);
    HM ab = M(a, b);
    eq(ip(ab, ab), ip(a, a) * ip(b, b), t + "the norm of scalars is multiplicative");
    eq(M(M(a, a), b), M(a, M(a, b)), t + "left alternative");
    eq(M(M(a, b), b), M(a, M(b, b)), t + "right alternative");
    if (N <= 4) {
      HM z = rnd<N>(r, s, r.range(1, 3));
      eq(M(xy, z), M(x, M(y, z)), t + "Multiply associative");
    } else {
      eq(M(M(a, b), a), M(a, M(b, a)), t + "flexible");
    }
    int n = r.range(1, 4);
    HM u = rnd<N>(r, n, n), v = rnd<N>(r, n, n);
    eq(from(T::JordanMultiply(to(u), to(v))), jordan<N>(u, v), t + "JordanMultiply");
    eq(from(T::QuadraticRepresentation(to(u), to(v))), quad<N>(u, v), t + "QuadraticRepresentation");
    eq(from(T::MakeHermitian(to(u))), scl(add(u, ct(u)), .5), t + "MakeHermitian");
    check(T::IsHermitian(T::MakeHermitian(to(u))), t + "the Hermitian part is Hermitian");
    HM skew = add(u, ct(u), -1);
    if (ip(skew, skew) > 1e-6) check(!T::IsHermitian(to(u)), t + "IsHermitian rejects a matrix that is not Hermitian");
    check(T::IsEqual(to(u), to(u)), t + "IsEqual is reflexive");
    if (ip(v, v) > 1e-3) check(!T::IsEqual(to(u), to(add(u, v))), t + "IsEqual distinguishes");
    if (it == 0) sample(ctx());
  }
}

int main() {
  Rng r(seed());
  int k = 60 * scale();
  run<1>(r, k);
  run<2>(r, k);
  run<4>(r, k);
  run<8>(r, k);
  return finish(fmt("%d random matrices of size up to 4x4 per dimension 1,2,4,8", k));
}
