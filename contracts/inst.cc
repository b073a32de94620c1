// Instantiates templates of the headers in /repo that no source file there instantiates; contains no code under verification.
#include "conex/cone_program.h"
#include "conex/linear_constraint.h"
#include "conex/quadratic_cone_constraint.h"
#include "conex/soc_constraint.h"
#include "conex/hermitian_psd.h"
#include "conex/dense_lmi_constraint.h"
namespace conex_inst {
using namespace conex;
void add(Program& p, EqualityConstraints& e, const EqualityConstraints& ce, LinearConstraint& l, const LinearConstraint& cl,
         const std::vector<int>& v) {
  p.AddConstraint(e);
  p.AddConstraint(ce);
  p.AddConstraint(EqualityConstraints(e));
  p.AddConstraint(e, v);
  p.AddConstraint(ce, v);
  p.AddConstraint(EqualityConstraints(e), v);
  p.AddConstraint(l);
  p.AddConstraint(cl);
  p.AddConstraint(LinearConstraint(l));
  p.AddConstraint(l, v);
  p.AddConstraint(cl, v);
  p.AddConstraint(LinearConstraint(l), v);
}
void quadratic(Program& p, const Eigen::MatrixXd& Q, const Eigen::MatrixXd& A, const std::vector<int>& v) {
  p.AddConstraint(QuadraticConstraint(Q, A, A), v);
}
template <typename H>
void hermitian(const std::vector<typename H::Matrix>& A, const typename H::Matrix& c) {
  HermitianPsdConstraint<H> x(3, A, c);
}
void construct(const Eigen::MatrixXd& A, const Eigen::MatrixXd& c, const std::vector<Eigen::MatrixXd>& L, const std::vector<Real::Matrix>& R,
               const std::vector<Complex::Matrix>& C, const std::vector<Quaternions::Matrix>& Q, const std::vector<Octonions::Matrix>& O) {
  SOCConstraint soc(A, c);
  DenseLMIConstraint lmi(L, A);
  hermitian<Real>(R, R[0]);
  hermitian<Complex>(C, C[0]);
  hermitian<Quaternions>(Q, Q[0]);
  hermitian<Octonions>(O, O[0]);
}
void dual(Program& p, Eigen::VectorXd* x, Eigen::MatrixXd* X, Eigen::Map<Eigen::MatrixXd>* M) {
  p.GetDualVariable(0, x);
  p.GetDualVariable(0, X);
  p.GetDualVariable(0, M);
}
}  // namespace conex_inst
