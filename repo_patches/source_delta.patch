From ae09ca86bb619eb89cb5bcf088b20b192fc649df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 01/29] fix: initialize all options in CONEX_SetDefaultOptions

---
 interfaces/conex.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 6ce1495..0d679fd 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -251,9 +251,11 @@ void CONEX_SetDefaultOptions(CONEX_SolverConfiguration* c) {
       config.initial_centering_steps_coldstart;
   c->warmstart_abort_threshold = config.warmstart_abort_threshold;
   c->max_iterations = config.max_iterations;
+  c->iterative_refinement_iterations = config.iterative_refinement_iterations;
   c->infeasibility_threshold = config.infeasibility_threshold;
   c->kkt_error_tolerance = config.kkt_error_tolerance;
   c->enable_rescaling = config.enable_rescaling;
+  c->kkt_solver = config.kkt_solver;
 }
 
 void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
-- 
2.43.0


From cdacba5b063c8b130e9656a5698ad8e1b81dee6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 02/29] fix: accept valid initialized programs in the C
 interface

---
 interfaces/conex.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 0d679fd..1787249 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -21,7 +21,9 @@
   CONEX_DEMAND(x, "Program pointer is null.");                             \
   prog = static_cast<Program*>(x);                                         \
   if (prog->is_initialized) {                                              \
-    if (prog->NumberOfConstraints() + 2 !=                                 \
+    /* Two workspaces per constraint and two for the whole program. */     \
+    /* Constraints can be added after initialization. */                   \
+    if (2 * prog->NumberOfConstraints() + 2 <                              \
         static_cast<int>(prog->workspaces.size())) {                       \
       CONEX_DEMAND(false, "Program corrupted or invalid pointer.");        \
     }                                                                      \
-- 
2.43.0


From 03bb0b02509fb546df1d6554d8780fe9e2bc89c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 03/29] fix: do not dereference missing statistics in
 CONEX_GetIterationStats

---
 interfaces/conex.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 1787249..3a5d501 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -269,7 +269,7 @@ void CONEX_GetIterationStats(void* prog, CONEX_IterationStats* stats,
 
   auto& program = *reinterpret_cast<Program*>(prog);
 
-  if (!program.stats->IsInitialized()) {
+  if (!program.stats || !program.stats->IsInitialized()) {
     std::cerr << "No statistics available.";
     return;
   }
-- 
2.43.0


From 207ef15b170ac9071a302091d44b3a2e1c3e1c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 04/29] fix: report invalid arguments in
 CONEX_NewLinearInequality and CONEX_AddSparseLMIConstraint

---
 interfaces/conex.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index 3a5d501..d0476cd 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -185,7 +185,9 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
   conex::DenseLMIConstraint T3{Avect, Cmap};
   auto& program = *reinterpret_cast<Program*>(prog);
   int constraint_id = program.NumberOfConstraints();
-  program.AddConstraint(T3, variables);
+  if (program.AddConstraint(T3, variables) != CONEX_SUCCESS) {
+    return -1;
+  }
   return constraint_id;
 }
 
@@ -321,6 +323,7 @@ CONEX_STATUS CONEX_NewLinearMatrixInequality(void* p, int order,
 
 CONEX_STATUS CONEX_NewLinearInequality(void* program, int num_rows,
                                        int* constraint_id) {
+  CONEX_DEMAND(num_rows >= 1, "Invalid number of rows.");
   CONEX_DEMAND(constraint_id, "Received output null pointer.");
   Program* prg;
   SAFER_CAST_TO_Program(program, prg);
-- 
2.43.0


From c959329d5ac3279d3d60c21fb6cc125068bd9586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 05/29] fix: report failure of AddQuadraticCost

---
 conex/cone_program.cc   | 7 ++++---
 conex/quadratic_cost.cc | 4 ++--
 conex/quadratic_cost.h  | 2 +-
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 3f0626a..2ab613e 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -553,9 +553,10 @@ bool Solve(const DenseMatrix& b, Program& prog,
 
 bool Program::AddQuadraticCost(const DenseMatrix& Q,
                                const std::vector<int>& vars) {
-  contains_quadratic_costs_ = true;
-  conex::AddQuadraticCost(this, Q, vars);
-  bool failure = false;
+  bool failure = conex::AddQuadraticCost(this, Q, vars);
+  if (!failure) {
+    contains_quadratic_costs_ = true;
+  }
   return failure;
 }
 
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 278f37c..6149d85 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -70,9 +70,9 @@ class QuadraticFunction {
 };
 }  // namespace
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z) {
-  conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
+  return conex_prog->AddConstraint(QuadraticFunction{Qi}, z);
 }
 
 }  // namespace conex
diff --git a/conex/quadratic_cost.h b/conex/quadratic_cost.h
index 852aeda..a0a3016 100644
--- a/conex/quadratic_cost.h
+++ b/conex/quadratic_cost.h
@@ -3,7 +3,7 @@
 
 namespace conex {
 
-void AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
+bool AddQuadraticCost(conex::Program* conex_prog, const Eigen::MatrixXd& Qi,
                       const std::vector<int>& z);
 
 }  // namespace conex
-- 
2.43.0


From 05f45e03302cc616092580a98d8441b761ce9d5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 06/29] fix: reject negative variable indices

---
 conex/constraint_manager.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/constraint_manager.h b/conex/constraint_manager.h
index 851d694..81dcfab 100644
--- a/conex/constraint_manager.h
+++ b/conex/constraint_manager.h
@@ -12,7 +12,7 @@ inline int IsUnique(int N, const std::vector<int>& x) {
   Eigen::VectorXd y(N);
   y.setZero();
   for (auto& xi : x) {
-    if (xi >= N) {
+    if (xi < 0 || xi >= N) {
       return false;
     }
     y(xi)++;
-- 
2.43.0


From 324ba9908c1c3849e5b1a474280bdb1270b6bad4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 07/29] fix: reject out-of-bounds indices in incremental
 updates

---
 conex/hermitian_psd.cc     | 4 ++++
 conex/linear_constraint.cc | 2 ++
 conex/quadratic_cost.cc    | 1 +
 3 files changed, 7 insertions(+)

diff --git a/conex/hermitian_psd.cc b/conex/hermitian_psd.cc
index 8c09c88..e2fff9d 100644
--- a/conex/hermitian_psd.cc
+++ b/conex/hermitian_psd.cc
@@ -251,6 +251,8 @@ bool UpdateLinearOperator(HermitianPsdConstraint<H>* o, double val, int var,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND((var >= 0) && (r >= 0) && (c >= 0) && (dim >= 0),
+               "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
@@ -288,6 +290,8 @@ bool UpdateAffineTerm(HermitianPsdConstraint<H>* o, double val, int r, int c,
   CONEX_DEMAND(dim < H::HyperComplexDimension(),
                "Complex dimension out of bounds.");
   CONEX_DEMAND(r < o->rank_ && c < o->rank_, "Matrix dimension out of bounds.");
+  CONEX_DEMAND((r >= 0) && (c >= 0) && (dim >= 0),
+               "Indices cannot be negative.");
   CONEX_DEMAND(!(val != 0 && r == c && dim > 0),
                "Imaginary components must be skew-symmetric.");
 
diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index be56574..e753206 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -210,6 +210,8 @@ bool UpdateLinearOperator(LinearConstraint* o, double val, int var, int r,
   CONEX_DEMAND(c == 0, "Linear constraint is not matrix valued.");
   CONEX_DEMAND(r < o->constraint_matrix_.rows(), "Row index out of bounds.");
   CONEX_DEMAND((var >= 0) && (r >= 0), "Indices cannot be negative.");
+  CONEX_DEMAND(var < o->constraint_matrix_.cols(),
+               "Variable index out of bounds.");
 
   o->constraint_matrix_(r, var) = val;
   return CONEX_SUCCESS;
diff --git a/conex/quadratic_cost.cc b/conex/quadratic_cost.cc
index 6149d85..03f5e59 100644
--- a/conex/quadratic_cost.cc
+++ b/conex/quadratic_cost.cc
@@ -34,6 +34,7 @@ class QuadraticFunction {
                                int dim) {
     CONEX_DEMAND(dim == 0, "Quadratic cost must be real valued matrix.");
     CONEX_DEMAND(r < o->A_.rows() && c < o->A_.cols(), "Index out of bounds");
+    CONEX_DEMAND((r >= 0) && (c >= 0), "Indices cannot be negative.");
     o->A_(r, c) = val;
     return CONEX_SUCCESS;
   }
-- 
2.43.0


From 99b5629e4ea50f5fa7220b520a3f2529ad250567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 08/29] fix: initialize the order of SOCConstraint in all
 constructors

---
 conex/soc_constraint.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/soc_constraint.h b/conex/soc_constraint.h
index c212c4e..3a9a872 100644
--- a/conex/soc_constraint.h
+++ b/conex/soc_constraint.h
@@ -11,7 +11,8 @@ class SOCConstraint {
   SOCConstraint(const T& constraint_matrix, const T& constraint_affine)
       : workspace_(constraint_matrix.rows() - 1),
         constraint_matrix_(constraint_matrix),
-        constraint_affine_(constraint_affine) {
+        constraint_affine_(constraint_affine),
+        n_(constraint_matrix.rows() - 1) {
     assert(constraint_matrix_.rows() == constraint_affine_.rows());
   }
 
-- 
2.43.0


From 107e45f6a6a3cde48c1ea9934c42e5c63bf79b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 09/29] fix: reserve workspace memory for W0 of one-dimensional
 second-order cones

---
 conex/workspace_soc.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/workspace_soc.h b/conex/workspace_soc.h
index 71909a1..c87cc92 100644
--- a/conex/workspace_soc.h
+++ b/conex/workspace_soc.h
@@ -8,7 +8,7 @@ struct WorkspaceSOC {
   WorkspaceSOC(int n) : n_(n), W(n + 1, 1) {}
 
   static constexpr int size_of(int n) {
-    return get_size_aligned(n) + 4 * get_size_aligned(n);
+    return get_size_aligned(1) + 4 * get_size_aligned(n);
   }
 
   friend int SizeOf(const WorkspaceSOC& o) { return size_of(o.n_); }
-- 
2.43.0


From cb7545b6c3605a89b83cfd2014b117ec3baf17f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:09 +0000
Subject: [PATCH 10/29] fix: do not alias temporaries in workspaces constructed
 from memory

---
 conex/hermitian_psd.h  | 2 +-
 conex/psd_constraint.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/hermitian_psd.h b/conex/hermitian_psd.h
index 84f3485..63a49a0 100644
--- a/conex/hermitian_psd.h
+++ b/conex/hermitian_psd.h
@@ -12,7 +12,7 @@ struct WorkspaceDenseHermitian {
   WorkspaceDenseHermitian(int n, double* data)
       : W(data, n, n),
         temp_1(data + get_size_aligned(n * n), n, n),
-        temp_2(data + get_size_aligned(n * n), n, n) {}
+        temp_2(data + 2 * get_size_aligned(n * n), n, n) {}
   static constexpr int size_of(int n) { return 3 * (get_size_aligned(n * n)); }
 
   friend int SizeOf(const WorkspaceDenseHermitian& o) { return size_of(o.n_); }
diff --git a/conex/psd_constraint.h b/conex/psd_constraint.h
index 5d01ed2..81b80ae 100644
--- a/conex/psd_constraint.h
+++ b/conex/psd_constraint.h
@@ -11,7 +11,7 @@ struct WorkspaceDensePSD {
   WorkspaceDensePSD(int n, double* data)
       : W(data, n, n),
         temp_1(data + get_size_aligned(n * n), n, n),
-        temp_2(data + get_size_aligned(n * n), n, n) {}
+        temp_2(data + 2 * get_size_aligned(n * n), n, n) {}
   static constexpr int size_of(int n) { return 3 * (get_size_aligned(n * n)); }
 
   friend int SizeOf(const WorkspaceDensePSD& o) { return size_of(o.n_); }
-- 
2.43.0


From bd2c2475722f98aabc2faeac110353c3605f9bb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 11/29] fix: do not divide by zero when a row and its bound are
 zero

---
 conex/linear_constraint.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index e753206..c445090 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -19,25 +19,30 @@ void AppendRow(MatrixXd* A, const MatrixXd& new_rows) {
   A->bottomRows(new_rows.rows()) = new_rows;
 }
 
+// Returns a positive scale factor that normalizes the row [a, b].
+double RowScale(double squared_norm) {
+  return squared_norm > 0 ? 1.0 / std::sqrt(squared_norm) : 1.0;
+}
+
 void PreprocessLinearInequality(const MatrixXd& A, const MatrixXd& lb,
                                 const MatrixXd& ub, MatrixXd* Aineq,
                                 MatrixXd* bineq, MatrixXd* Aeq, MatrixXd* beq) {
   for (int i = 0; i < A.rows(); i++) {
     if (lb.row(i) == ub.row(i)) {
       double scale =
-          1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
+          RowScale(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
       AppendRow(Aeq, scale * A.row(i));
       AppendRow(beq, scale * ub.row(i));
     } else {
       if (ub(i, 0) < 1e8) {
         double scale =
-            1.0 / std::sqrt(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
+            RowScale(A.row(i).squaredNorm() + ub.row(i).squaredNorm());
         AppendRow(Aineq, scale * A.row(i));
         AppendRow(bineq, scale * ub.row(i));
       }
       if (lb(i, 0) > -1e8) {
         double scale =
-            1.0 / std::sqrt(A.row(i).squaredNorm() + lb.row(i).squaredNorm());
+            RowScale(A.row(i).squaredNorm() + lb.row(i).squaredNorm());
         AppendRow(Aineq, -scale * A.row(i));
         AppendRow(bineq, -scale * lb.row(i));
       }
-- 
2.43.0


From 5da5cef151d830cbd686662cf764102246e19012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:26 +0000
Subject: [PATCH 12/29] fix: do not write submatrix directly to diagonal blocks
 with fill-in

---
 conex/supernodal_assembler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conex/supernodal_assembler.cc b/conex/supernodal_assembler.cc
index 464a60c..27e1fc0 100644
--- a/conex/supernodal_assembler.cc
+++ b/conex/supernodal_assembler.cc
@@ -78,8 +78,9 @@ void T::BindDiagonalBlock(const DiagonalBlock* data) {
 
   if (m == data->num_vars) {
     direct_update = true;
-    for (int i = 1; i < data->num_vars; i++) {
-      if (*(data->var_data + i) <= *(data->var_data + i - 1)) {
+    for (int i = 0; i < data->num_vars; i++) {
+      // The labels must equal 0, 1, ..., m - 1. Negative labels are fill-in.
+      if (*(data->var_data + i) != i) {
         direct_update = false;
         break;
       }
-- 
2.43.0


From 9eefec444fdf0892face8f20a0aee93086880368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 13/29] fix: do not rescale previous contents in accumulate
 mode of quadratic cones

---
 conex/quadratic_cone_constraint.cc | 40 ++++++++++++++----------------
 1 file changed, 19 insertions(+), 21 deletions(-)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index 9260a56..e82043c 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -79,6 +79,8 @@ Eigen::Vector2d Eigenvalues(double norm_of_x1, double x0) {
   return eigenvalues;
 }
 
+// Evaluates (or adds) the Gram matrix for the Jordan inner-product
+// <x, y> := 2 x^T y.
 template <typename T>
 void SchurComplement(const Eigen::VectorXd& A0, const Eigen::MatrixXd& A_gram,
                      const double W0, double det_w,
@@ -86,12 +88,12 @@ void SchurComplement(const Eigen::VectorXd& A0, const Eigen::MatrixXd& A_gram,
   if (initialize) {
     G->noalias() = A0 * A0.transpose();
     G->noalias() -= A_gram;
-    G->array() *= -det_w;
+    G->array() *= -2 * det_w;
   } else {
-    G->noalias() += det_w * (A_gram - A0 * A0.transpose());
+    G->noalias() += 2 * det_w * (A_gram - A0 * A0.transpose());
   }
-  G->noalias() += (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
-  G->noalias() += (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
+  G->noalias() += 2 * (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
+  G->noalias() += 2 * (A_dot_w + A0 * W0) * (A_dot_w + A0 * W0).transpose();
 }
 
 }  // namespace
@@ -245,6 +247,7 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   auto& temp = o->workspace_.temp1_1;
   auto& A_dot_x = o->A_dot_x_;
 
+  // All quantities account for the Jordan inner-product <x, y> := 2 x^T y.
   double c_dot_x = o->EvalCQX(o->workspace_.W1, &temp);
   A_dot_x = o->EvalAtQX(o->workspace_.W1, &temp);
 
@@ -255,15 +258,17 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   if (initialize) {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, true,
                     &sys->G);
-    sys->AW.noalias() = A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() = det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
-    sys->inner_product_of_c_and_Qc = det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
+    sys->AW.noalias() = 2 * (A_dot_x + A0 * (*o->workspace_.W0));
+    sys->AQc.noalias() = 2 * det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+    sys->inner_product_of_c_and_Qc =
+        2 * det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
   } else {
     SchurComplement(A0, A_gram, *o->workspace_.W0, det_w, A_dot_x, false,
                     &sys->G);
-    sys->AW.noalias() += A_dot_x + A0 * (*o->workspace_.W0);
-    sys->AQc.noalias() += det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
-    sys->inner_product_of_c_and_Qc += det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
+    sys->AW.noalias() += 2 * (A_dot_x + A0 * (*o->workspace_.W0));
+    sys->AQc.noalias() += 2 * det_w * (o->EvalAtQX(C1, &temp) - A0 * C0);
+    sys->inner_product_of_c_and_Qc +=
+        2 * det_w * (o->EvalCQX(C1, &temp) - C0 * C0);
   }
 
   double scale;
@@ -272,21 +277,14 @@ void ConstructSchurComplementSystem(QuadraticConstraintBase* o, bool initialize,
   } else {
     scale = o->workspace_.W1.col(0).dot(C1.col(0)) + C0 * (*o->workspace_.W0);
   }
-  sys->AQc.noalias() += 2 * (A_dot_x + A0 * (*o->workspace_.W0)) * scale;
+  sys->AQc.noalias() += 4 * (A_dot_x + A0 * (*o->workspace_.W0)) * scale;
   sys->inner_product_of_c_and_Qc +=
-      2 * (c_dot_x + C0 * (*o->workspace_.W0)) * scale;
+      4 * (c_dot_x + C0 * (*o->workspace_.W0)) * scale;
   if (initialize) {
-    sys->inner_product_of_w_and_c = scale;
+    sys->inner_product_of_w_and_c = 2 * scale;
   } else {
-    sys->inner_product_of_w_and_c += scale;
+    sys->inner_product_of_w_and_c += 2 * scale;
   }
-
-  // Account for Jordan inner-product  <x, y> := 2 x^T y.
-  sys->AQc *= 2;
-  sys->AW *= 2;
-  sys->inner_product_of_c_and_Qc *= 2;
-  sys->inner_product_of_w_and_c *= 2;
-  sys->G *= 2;
 }
 
 void SetIdentity(QuadraticConstraintBase* o) {
-- 
2.43.0


From 74225d2865af1dd464ddeb91fc3ec67c3c317601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:57 +0000
Subject: [PATCH 14/29] fix: report not solved when Solve terminates with an
 error

---
 conex/cone_program.cc | 26 +++++++++++++++++---------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 2ab613e..d288596 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -234,18 +234,23 @@ void Program::ClearLinearCosts() { linear_cost_.setZero(); }
 
 bool Solve(Program& prog, const SolverConfiguration& config,
            double* primal_variable) {
-  CONEX_DEMAND(prog.contains_quadratic_costs_ == false ||
-                   (config.enable_line_search && !config.enable_rescaling),
-               "Must enable line search and disable rescaling for problems "
-               "with quadratic costs.");
+  prog.status_.solved = 0;
+  prog.status_.num_iterations = 0;
+  prog.status_.primal_infeasible = 0;
+  prog.status_.dual_infeasible = 0;
+
+  if (prog.contains_quadratic_costs_ &&
+      !(config.enable_line_search && !config.enable_rescaling)) {
+    std::cerr << "Must enable line search and disable rescaling for problems "
+                 "with quadratic costs."
+              << std::endl;
+    return prog.status_.solved;
+  }
 
   VectorXd bin = -prog.linear_cost_;
 
   auto& constraints = prog.constraints_;
   auto& solver = prog.solver;
-  prog.status_.solved = 0;
-  prog.status_.primal_infeasible = 0;
-  prog.status_.dual_infeasible = 0;
   bool max_iters_reached = true;
 
 #if CONEX_VERBOSE
@@ -384,8 +389,11 @@ bool Solve(Program& prog, const SolverConfiguration& config,
       }
 
       if (temp < 0) {
-        CONEX_DEMAND(!prog.contains_quadratic_costs_,
-                     "Solver terminating with error: line-search failed.");
+        if (prog.contains_quadratic_costs_) {
+          std::cerr << "Solver terminating with error: line-search failed."
+                    << std::endl;
+          return prog.status_.solved;
+        }
         temp = ComputeMuFromDivergence(prog.kkt_system_manager_, solver,
                                        prog.sys.AQc * c_scaling, c_scaling,
                                        b * b_scaling, config, rankK, &y);
-- 
2.43.0


From e107c234e688035597d58c10d6b453b68e7579cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 15/29] fix: reset the number of recorded iterations in Solve

---
 conex/cone_program.cc | 1 +
 conex/workspace.h     | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index d288596..8f5c48e 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -276,6 +276,7 @@ bool Solve(Program& prog, const SolverConfiguration& config,
   }
 
   Initialize(prog, config);
+  prog.stats->num_iter = 0;
   std::cout << "\n";
 
   Eigen::MatrixXd ydata(prog.kkt_system_manager_.SizeOfKKTSystem(), 1);
diff --git a/conex/workspace.h b/conex/workspace.h
index 3766a4c..4380c2d 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -111,7 +111,7 @@ struct WorkspaceStats {
     return *c_scaling_;
   }
 
-  int num_iter;
+  int num_iter = 0;
   int max_iter_;
   bool initialized = false;
 };
-- 
2.43.0


From 5e9d950754706baf62870c22566dfd19ad92778f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:14 +0000
Subject: [PATCH 16/29] fix: resize workspaces when a warmstart has more
 iterations or constraints

---
 conex/cone_program.cc | 25 ++++++++++++++++++++-----
 conex/cone_program.h  |  2 +-
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 8f5c48e..cd87464 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -76,8 +76,21 @@ void ConstructSchurComplementSystem(std::vector<T*>* c, bool initialize,
 }
 
 bool Initialize(Program& prog, const SolverConfiguration& config) {
-  if (!prog.is_initialized ||
-      config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
+  const bool coldstart =
+      config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART;
+  // A warmstart cannot use the workspaces of the previous solve if constraints
+  // have been added. Also, it needs more storage if the iteration limit has
+  // been increased.
+  const bool constraints_added =
+      prog.is_initialized &&
+      2 * prog.NumberOfConstraints() + 2 !=
+          static_cast<int>(prog.workspaces.size());
+  const bool grow_stats = prog.is_initialized && !coldstart &&
+                          !constraints_added &&
+                          prog.stats->max_iter_ < config.max_iterations;
+  if (!prog.is_initialized || coldstart || constraints_added || grow_stats) {
+    const double b_scaling = grow_stats ? prog.stats->b_scaling() : 1;
+    const double c_scaling = grow_stats ? prog.stats->c_scaling() : 1;
     prog.stats = std::make_unique<WorkspaceStats>(config.max_iterations);
     auto& solver = prog.solver;
     auto& kkt = prog.kkt;
@@ -86,9 +99,11 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.residual_only_ = true;
 
     prog.InitializeWorkspace();
-    if (config.initialization_mode == CONEX_INITIALIZATION_MODE_COLDSTART) {
-      prog.stats->b_scaling() = 1;
-      prog.stats->c_scaling() = 1;
+    if (coldstart || constraints_added || grow_stats) {
+      prog.stats->b_scaling() = b_scaling;
+      prog.stats->c_scaling() = c_scaling;
+    }
+    if (coldstart || constraints_added) {
       SetIdentity(&prog.constraints_);
     }
 
diff --git a/conex/cone_program.h b/conex/cone_program.h
index 26174fb..6c2249a 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -181,7 +181,7 @@ class Program {
     workspaces.emplace_back(&sys);
     auto size = SizeOf(workspaces);
     if (size > workspace_data_->size()) {
-      workspace_data_->resize(size);
+      workspace_data_->conservativeResize(size);
     }
     Initialize(&workspaces, workspace_data_->data());
 
-- 
2.43.0


From d4deb48c76a513a763bee2eb52902de8c9329ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:10 +0000
Subject: [PATCH 17/29] fix: keep the cost inner products when the LP Schur
 system is larger than the constraint

setZero() was called after the inner products had been assigned and erased them.
---
 conex/linear_constraint.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index c445090..fdec168 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -192,11 +192,11 @@ void ConstructSchurComplementSystem(LinearConstraint* o, bool initialize,
   WC = W.cwiseProduct(o->constraint_affine_);
 
   if (initialize) {
-    sys->inner_product_of_w_and_c = WC.sum();
-    sys->inner_product_of_c_and_Qc = WC.squaredNorm();
     if (G->rows() != m) {
       sys->setZero();
     }
+    sys->inner_product_of_w_and_c = WC.sum();
+    sys->inner_product_of_c_and_Qc = WC.squaredNorm();
     (*G).topLeftCorner(m, m).noalias() = WA.transpose() * WA;
     sys->AW.topRows(m).noalias() = o->constraint_matrix_.transpose() * W;
     sys->AQc.topRows(m).noalias() = WA.transpose() * WC;
-- 
2.43.0


From 05c8f73493ebe7cb5452fd8a597e594fd375d319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:27 +0000
Subject: [PATCH 18/29] fix: give equality constraints passed as lvalues their
 dual variables

---
 conex/cone_program.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/conex/cone_program.h b/conex/cone_program.h
index 6c2249a..22ce418 100644
--- a/conex/cone_program.h
+++ b/conex/cone_program.h
@@ -190,7 +190,7 @@ class Program {
 
   template <typename T>
   bool AddConstraint(T&& d) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result = kkt_system_manager_.AddConstraint<T>(std::forward<T>(d));
       if (result == CONEX_SUCCESS) {
         constraints_.push_back(&kkt_system_manager_.eqs.back().constraint);
@@ -198,13 +198,13 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d));
+          EqualityConstraints(std::forward<T>(d)));
     }
   }
 
   template <typename T>
   bool AddConstraint(T&& d, const std::vector<int>& variables) {
-    if constexpr (!std::is_same<T, EqualityConstraints>::value) {
+    if constexpr (!std::is_same<std::decay_t<T>, EqualityConstraints>::value) {
       bool result =
           kkt_system_manager_.AddConstraint<T>(std::forward<T>(d), variables);
       if (result == CONEX_SUCCESS) {
@@ -213,7 +213,7 @@ class Program {
       return result;
     } else {
       return kkt_system_manager_.AddEqualityConstraint(
-          std::forward<EqualityConstraints>(d), variables);
+          EqualityConstraints(std::forward<T>(d)), variables);
     }
   }
 
-- 
2.43.0


From 63440ef1a05411f528c434906c9597cb292e3fb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:36 +0000
Subject: [PATCH 19/29] fix: reject variable indices that do not fit an int in
 CONEX_AddSparseLMIConstraint

---
 interfaces/conex.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/interfaces/conex.cc b/interfaces/conex.cc
index d0476cd..7944d22 100644
--- a/interfaces/conex.cc
+++ b/interfaces/conex.cc
@@ -179,6 +179,9 @@ int CONEX_AddSparseLMIConstraint(void* prog, const double* A, int Ar, int Ac,
     Avect.push_back(Amap);
     offset += Ar * Ac;
     variables.at(i) = *(vars + i);
+    if (variables.at(i) != *(vars + i)) {
+      return -1;
+    }
   }
   InputMatrix Cmap(c, cr, cc);
 
-- 
2.43.0


From 0ed947f699add0d635b8cce1c951599b1b20a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:35 +0000
Subject: [PATCH 20/29] fix: line search of a linear constraint with entries
 that do not depend on k

---
 conex/linear_constraint.cc | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/conex/linear_constraint.cc b/conex/linear_constraint.cc
index fdec168..5e7d416 100644
--- a/conex/linear_constraint.cc
+++ b/conex/linear_constraint.cc
@@ -59,7 +59,18 @@ bool FindMinimumMu(const T& d0, const T& delta, double dinfmax,
   double temp;
   int i = 0;
 
+  upper_bound = std::numeric_limits<double>::max();
+  lower_bound = -std::numeric_limits<double>::max();
+
   for (i = 0; i < d0.size(); i++) {
+    if (delta(i) == 0) {
+      // The entry does not depend on k: no k is feasible, or all are.
+      if (std::fabs(d0(i)) > dinfmax) {
+        return false;
+      }
+      continue;
+    }
+
     upper_bound_i = (dinfmax - d0(i)) / delta(i);
     lower_bound_i = (-dinfmax - d0(i)) / delta(i);
 
@@ -69,11 +80,11 @@ bool FindMinimumMu(const T& d0, const T& delta, double dinfmax,
       lower_bound_i = temp;
     }
 
-    if (upper_bound_i < upper_bound || i == 0) {
+    if (upper_bound_i < upper_bound) {
       upper_bound = upper_bound_i;
     }
 
-    if (lower_bound_i > lower_bound || i == 0) {
+    if (lower_bound_i > lower_bound) {
       lower_bound = lower_bound_i;
     }
   }
-- 
2.43.0


From f00c142e48e98b24c5ea534346978628ee973b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:51 +0000
Subject: [PATCH 21/29] fix: do not read uninitialized workspaces if the first
 solve is a warmstart

---
 conex/cone_program.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index cd87464..52be11d 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -88,6 +88,10 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
   const bool grow_stats = prog.is_initialized && !coldstart &&
                           !constraints_added &&
                           prog.stats->max_iter_ < config.max_iterations;
+  // The first solve can only be a warmstart if the caller has provided memory
+  // that holds the workspaces of another program.
+  const bool no_workspaces =
+      !prog.is_initialized && prog.workspace_data_ == &prog.memory_;
   if (!prog.is_initialized || coldstart || constraints_added || grow_stats) {
     const double b_scaling = grow_stats ? prog.stats->b_scaling() : 1;
     const double c_scaling = grow_stats ? prog.stats->c_scaling() : 1;
@@ -99,11 +103,11 @@ bool Initialize(Program& prog, const SolverConfiguration& config) {
     prog.sys.residual_only_ = true;
 
     prog.InitializeWorkspace();
-    if (coldstart || constraints_added || grow_stats) {
+    if (coldstart || constraints_added || no_workspaces || grow_stats) {
       prog.stats->b_scaling() = b_scaling;
       prog.stats->c_scaling() = c_scaling;
     }
-    if (coldstart || constraints_added) {
+    if (coldstart || constraints_added || no_workspaces) {
       SetIdentity(&prog.constraints_);
     }
 
-- 
2.43.0


From d63f20a578a76afdfae2660efca8a2d439311508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:51 +0000
Subject: [PATCH 22/29] fix: find the scalings in memory of a program with
 another iteration limit

---
 conex/workspace.h | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/conex/workspace.h b/conex/workspace.h
index 4380c2d..564c1f9 100644
--- a/conex/workspace.h
+++ b/conex/workspace.h
@@ -73,10 +73,12 @@ class Workspace {
 struct WorkspaceStats {
   WorkspaceStats(int max_iter) : max_iter_(max_iter) {}
   friend void Initialize(WorkspaceStats* o, double* y) {
-    o->sqrt_inv_mu = y;
-    o->norm_inf_d = y + o->max_iter_;
-    o->c_scaling_ = y + 2 * o->max_iter_;
-    o->b_scaling_ = y + 2 * o->max_iter_ + 1;
+    // The scalings come first, so that a program with another iteration limit
+    // finds them in the same memory.
+    o->c_scaling_ = y;
+    o->b_scaling_ = y + 1;
+    o->sqrt_inv_mu = y + 2;
+    o->norm_inf_d = y + 2 + o->max_iter_;
     o->initialized = true;
   }
 
-- 
2.43.0


From 128a7e7b5bf4fae7bad7e23ce05d8986c5b1fef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:22 +0000
Subject: [PATCH 23/29] fix: keep the interior point of second-order cones when
 preparing dual variables

---
 conex/quadratic_cone_constraint.cc | 5 +++++
 conex/soc_constraint.cc            | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/conex/quadratic_cone_constraint.cc b/conex/quadratic_cone_constraint.cc
index e82043c..bcc4f88 100644
--- a/conex/quadratic_cone_constraint.cc
+++ b/conex/quadratic_cone_constraint.cc
@@ -173,6 +173,11 @@ void GetWeightedSlackEigenvalues(QuadraticConstraintBase* o, const Ref& y,
 
 void PrepareStep(QuadraticConstraintBase* o, const StepOptions& opt,
                  const Ref& y, StepInfo* info) {
+  if (opt.affine) {
+    // TODO: Support affine updates. No step follows, so W must be kept.
+    return;
+  }
+
   Eigen::internal::set_is_malloc_allowed(false);
   // d =  e - Q(w^{1/2})(C-A^y)
   double& wsqrt_q0 = *o->workspace_.W0;
diff --git a/conex/soc_constraint.cc b/conex/soc_constraint.cc
index f073c21..00cee1d 100644
--- a/conex/soc_constraint.cc
+++ b/conex/soc_constraint.cc
@@ -250,6 +250,11 @@ bool TakeStep(SOCConstraint* o, const StepOptions& opt) {
 
 void PrepareStep(SOCConstraint* o, const StepOptions& opt, const Ref& y,
                  StepInfo* info) {
+  if (opt.affine) {
+    // TODO: Support affine updates. No step follows, so W must be kept.
+    return;
+  }
+
   Eigen::VectorXd minus_s_data(o->workspace_.n_ + 1);
   Ref minus_s(minus_s_data.data(), o->workspace_.n_ + 1, 1);
   o->ComputeNegativeSlack(opt.c_weight, y, &minus_s);
-- 
2.43.0


From 788f881a4b8cbf9bcca29407c94f32bbbeef6ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 24/29] fix: include vertex 0 among the maximum degree
 vertices, compare row sums exactly

---
 conex/elimination_ordering.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/elimination_ordering.cc b/conex/elimination_ordering.cc
index 215e023..1633d5a 100644
--- a/conex/elimination_ordering.cc
+++ b/conex/elimination_ordering.cc
@@ -280,8 +280,8 @@ Eigen::PermutationMatrix<-1, -1> EliminationOrdering(const Matrix& G) {
 Eigen::VectorXd MaximumDegreeVertices(const Matrix& G) {
   int N = G.rows();
   Eigen::VectorXd sums = G * Eigen::MatrixXd::Ones(N, 1);
-  std::vector<int> argmax;
-  int max = sums(0);
+  std::vector<int> argmax{0};
+  double max = sums(0);
   for (int i = 1; i < N; i++) {
     if (sums(i) >= max) {
       if (sums(i) > max) {
-- 
2.43.0


From 07c4e11809101d1258113dd2ceece9da899dc829 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 25/29] fix: test chordality of the pattern, whatever the
 values of its nonzero entries

---
 conex/elimination_ordering.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conex/elimination_ordering.cc b/conex/elimination_ordering.cc
index 1633d5a..9f142b5 100644
--- a/conex/elimination_ordering.cc
+++ b/conex/elimination_ordering.cc
@@ -247,6 +247,7 @@ bool IsChordal(const Matrix& G, std::vector<int>* chordless_path) {
   bool pass = true;
   std::vector<int> submat_indices;
   Eigen::MatrixXd Gp = P2.transpose() * G * P2;
+  Gp = (Gp.array() != 0).cast<double>();
   for (int i = 0; i < n; i++) {
     auto S = conex::submat(Gp, i, &submat_indices);
     pass = pass && ((S.rows() * S.rows() - (S * S.transpose()).trace()) == 0);
-- 
2.43.0


From 0abb76153e4ca5e9277abda504dc1ab79e41f894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:28 +0000
Subject: [PATCH 26/29] fix: compare vertices, not list positions, when
 extracting a chordless path

---
 conex/elimination_ordering.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/elimination_ordering.cc b/conex/elimination_ordering.cc
index 9f142b5..4094226 100644
--- a/conex/elimination_ordering.cc
+++ b/conex/elimination_ordering.cc
@@ -190,9 +190,9 @@ auto ExtractChordlessPath(const std::vector<int>& submat_relative_indices,
   //
   // such that x is maximal.
   for (unsigned int i = 0; i < indices.size(); i++) {
-    if (static_cast<int>(i) == w) continue;
+    if (indices.at(i) == w) continue;
     for (unsigned int j = i + 1; j < indices.size(); j++) {
-      if (static_cast<int>(j) == w) continue;
+      if (indices.at(j) == w) continue;
       int i_pos = indices.at(i);
       int j_pos = indices.at(j);
       if ((A(w, j_pos) != 0) && (A(w, i_pos) != 0)) {
-- 
2.43.0


From abb080eef4bb5acf0e1463059ed452e8546af572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:30 +0000
Subject: [PATCH 27/29] fix: RLDLT of an empty matrix read and overwrote memory
 outside the matrix

---
 conex/RLDLT.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conex/RLDLT.h b/conex/RLDLT.h
index d945e9a..0d90321 100644
--- a/conex/RLDLT.h
+++ b/conex/RLDLT.h
@@ -310,7 +310,7 @@ struct rldlt_inplace<Lower> {
     const double regularization_value = 1e-9;
 
     if (size <= 1) {
-      if (std::fabs(mat.coeff(0, 0)) < regularization_value) {
+      if (size == 1 && std::fabs(mat.coeff(0, 0)) < regularization_value) {
         if (mat.coeff(0, 0) < 0) {
           mat.coeffRef(0, 0) = -regularization_value;
         } else {
-- 
2.43.0


From f70788610da54189eace737d0f0216fc71364dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:30 +0000
Subject: [PATCH 28/29] fix: RLDLT reports the replaced pivot of a 1 x 1 matrix

---
 conex/RLDLT.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/conex/RLDLT.h b/conex/RLDLT.h
index 0d90321..fe0e0fd 100644
--- a/conex/RLDLT.h
+++ b/conex/RLDLT.h
@@ -310,7 +310,8 @@ struct rldlt_inplace<Lower> {
     const double regularization_value = 1e-9;
 
     if (size <= 1) {
-      if (size == 1 && std::fabs(mat.coeff(0, 0)) < regularization_value) {
+      if (size == 1 && std::fabs(mat.coeff(0, 0)) <= regularization_value) {
+        ret = false;
         if (mat.coeff(0, 0) < 0) {
           mat.coeffRef(0, 0) = -regularization_value;
         } else {
@@ -326,7 +327,7 @@ struct rldlt_inplace<Lower> {
         sign = NegativeSemiDef;
       else
         sign = ZeroSign;
-      return true;
+      return ret;
     }
 
     for (Index k = 0; k < size; ++k) {
-- 
2.43.0


From f7f3a248c63982e118115507de7db4e830c87f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:28:48 +0000
Subject: [PATCH 29/29] fix: extreme eigenvalues over all constraints are not
 limited to 30000

GetWeightedSlackEigenvalues started from -30000/30000, so slacks of larger
magnitude got a smallest eigenvalue of 30000 and the divergence bound at the
selected parameter was not the requested one.
---
 conex/cone_program.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/conex/cone_program.cc b/conex/cone_program.cc
index 52be11d..6f06f04 100644
--- a/conex/cone_program.cc
+++ b/conex/cone_program.cc
@@ -33,8 +33,8 @@ void GetWeightedSlackEigenvalues(ConstraintManager<Container>* constraints,
                                  WeightedSlackEigenvalues* p) {
   p->frobenius_norm_squared = 0;
   p->trace = 0;
-  p->lambda_max = -30000;
-  p->lambda_min = 30000;
+  p->lambda_max = -std::numeric_limits<double>::max();
+  p->lambda_min = std::numeric_limits<double>::max();
   int i = 0;
   for (auto& ci : constraints->eqs) {
     auto ysegment = Vars(y, constraints->cliques.at(i));
-- 
2.43.0

