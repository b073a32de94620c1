import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if observe: d["anchors"]["observe_at"]=observe
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    d["anchors"]["hook_needed"]=None
    P.append(d)
p("C01","Symbolic analysis yields a valid elimination structure for every clique list",
 "For every non-empty list of non-empty duplicate-free cliques of variable indices and every choice of root and leaf preferences, the symbolic analysis terminates and returns an ordering of the cliques in which every variable that occurs is eliminated by exactly one clique, every clique's variables are covered by what that clique eliminates plus its separator, and every separator variable is eliminated strictly later in the order. The variable permutation it reports and its inverse are mutually inverse, relabelled cliques use the eliminated position of each variable, and the tree path between two nodes used to compute fill-in is the unique simple path between them.",
 ["inputs","configurations"],"all clique lists (overlapping, nested, duplicated, disconnected, non-chordal), all roots, all leaf preferences, all trees and node pairs",
 "Tests check about ten hand-written clique lists and two tree paths; orderings of disconnected, nested and non-chordal lists with separators far from the root are never sampled.",
 ["conex/tree_utils.cc","conex/clique_ordering.cc","conex/supernodal_solver.cc"],
 [("PathInTree","conex/tree_utils.cc"),("PickCliqueOrderHelper / GetCliqueEliminationOrder / FillIn","conex/clique_ordering.cc"),("SupernodesToData / GetData / Relabel","conex/supernodal_solver.cc")])
p("C02","Assembly writes exactly the sum of the constraints' submatrices",
 "For every set of constraints over any (possibly unsorted, overlapping, fill-in producing) variable lists, the sparse system matrix after assembly represents exactly the sum over constraints of their symmetric submatrix scattered to their variables, with fill-in positions holding exact zeros before accumulation and no other storage modified. The assembled right-hand sides are the corresponding sums of the constraints' vectors.",
 ["inputs","configurations","histories"],"all constraint submatrices, all variable lists and orderings, repeated assemblies",
 "Tests assemble a handful of matrices and compare solves at loose tolerance; they do not cover unsorted labels, fill-in variables in supernodes, or repeated assembly over stale data.",
 ["conex/supernodal_assembler.cc","conex/supernodal_assembler.h","conex/supernodal_solver.h","conex/triangular_matrix_workspace.cc","conex/kkt_solver.cc","conex/constraint_manager.h"],
 [("GetCoeff / Set / Increment / SetLowerTri / IncrementLowerTri / Scatter / BindDiagonalBlock / UpdateBlocks","conex/supernodal_assembler.cc"),("DoBind / BuildBlock","conex/supernodal_solver.h, conex/supernodal_assembler.h"),("LookupAddress / S_S","conex/triangular_matrix_workspace.cc"),("RelabelCliques","conex/kkt_solver.cc"),("AssembleSchurComplementResiduals","conex/constraint_manager.h")])
p("C03","Factor-and-solve inverts the assembled linear system in every solver mode",
 "Whenever factorization reports success without regularisation, solving with any right-hand side returns the (real-arithmetic) solution of the assembled system, for the Cholesky, LDLT and QR modes, for every sparsity pattern (including empty supernodes) and with any number of refinement passes. The pivoted LDLT reconstructs the input as transpose(P)*L*D*transpose(L)*P, changes nothing but pivots of magnitude at most 1e-9 which it replaces by plus or minus 1e-9, and reports exactly when it did so.",
 ["inputs","configurations"],"all assembled matrices, right-hand sides, patterns and solver modes (floating point read as real arithmetic)",
 "Tests solve a few random systems with one or two patterns; pivot orders, empty supernodes, mixed-size blocks and multi-level separators occur only by accident.",
 ["conex/block_triangular_operations.cc","conex/kkt_solver.cc","conex/RLDLT.h","conex/triangular_matrix_workspace.cc"],
 [("BlockCholeskyInPlace / BlockLDLTInPlace / ApplyBlockInverse*","conex/block_triangular_operations.cc"),("rldlt_inplace::unblocked, RLDLT::compute","conex/RLDLT.h"),("Factor / Solve / SolveInPlace / KKTMatrix","conex/kkt_solver.cc"),("intersection caches","conex/triangular_matrix_workspace.cc")])
p("C04","Workspace memory regions are disjoint, in bounds and aligned",
 "For all constraint types, sizes and numbers of constraints, the memory views handed out by workspace initialisation lie inside the block whose size was computed for them, do not overlap each other, and start at multiples of 4 doubles relative to the start of their constraint's region, so that no constraint can alter another's data through its workspace. The computed size is exactly the sum of the parts, and each view has the dimensions of its constraint's data.",
 ["inputs","configurations"],"all dimensions (n, number of variables, number of iterations) and all lists of workspaces",
 "Tests use a few sizes; overlap or overrun by alignment padding shows only for particular residues modulo 4 and is silent without a sanitizer.",
 ["conex/memory_utils.h","conex/workspace.h","conex/newton_step.h","conex/linear_workspace.h","conex/workspace_soc.h","conex/psd_constraint.h","conex/hermitian_psd.h","conex/triangular_matrix_workspace.h","conex/triangular_matrix_workspace.cc","conex/cone_program.h"],
 [("get_size_aligned","conex/memory_utils.h"),("SizeOf / Initialize of every workspace type and of vector<Workspace>","conex/*workspace*.h, conex/newton_step.h, conex/psd_constraint.h, conex/hermitian_psd.h"),("Initialize / SizeOf of the supernodal matrix","conex/triangular_matrix_workspace.*")])
p("C05","Every constraint type contributes the exact Newton-system coefficients",
 "For every constraint type, data (A, c) and scaling point w, the coefficients handed to the Newton system are exactly A^T Q(w) A (lower triangle at least), A^T w, A^T Q(w) c, <w,c> and <c,Q(w)c> in that cone's trace inner product, and the block [0 A^T; A 0] with right-hand side b for equalities and the cost matrix for quadratic costs. In overwrite mode the result does not depend on previous contents; in accumulate mode the same quantities are added to the previous contents.",
 ["inputs","histories"],"all problem data, dimensions and scaling points; both accumulation modes; any prior content of the output (floating point read as real arithmetic)",
 "Tests only see these coefficients through converged solutions of a few problems, at 1e-5..1e-8 tolerance; errors that slow convergence, or appear only off the central path or for w away from identity, pass.",
 ["conex/linear_constraint.cc","conex/soc_constraint.cc","conex/quadratic_cone_constraint.cc","conex/quadratic_epigraph.cc","conex/dense_lmi_constraint.cc","conex/hermitian_psd.cc","conex/equality_constraint.cc","conex/quadratic_cost.cc","conex/cone_program.cc"],
 [("ConstructSchurComplementSystem of each type","conex/*constraint.cc, conex/hermitian_psd.cc, conex/equality_constraint.cc, conex/quadratic_cost.cc"),("QuadraticRepresentation / Sqrt / spectral decomposition","conex/soc_constraint.cc, conex/quadratic_cone_constraint.cc, conex/jordan_matrix_algebra.cc")])
p("C06","Newton steps stay in the cone and report exact step norms",
 "For every constraint type, interior scaling point w, direction y and positive step size, the prepared direction is d = e_weight*e + Q(w^1/2)(A y - c_weight*c), its reported squared norm is the exact one (and the reported maximum norm exact for linear, second-order and quadratic cones), and taking the step replaces w by the geodesic update Q(w^1/2) exp(step*d) (for matrix cones, with the documented rational or polynomial approximation of exp), which is again in the interior of the cone (for the dense matrix cone as long as the maximum norm of step*d is at most 4, where the rational approximation is positive; for the octonion cone the update is nonsingular). The global reported norms are the sum and maximum over all constraints.",
 ["inputs","histories"],"all interior points, directions and step sizes (floating point read as real arithmetic)",
 "Tests only observe the final objective; a step that leaves the cone or misreports its norm on some directions is masked by later iterations or by centring.",
 ["conex/linear_constraint.cc","conex/soc_constraint.cc","conex/quadratic_cone_constraint.cc","conex/psd_constraint.cc","conex/hermitian_psd.cc","conex/exponential_map.cc","conex/exponential_map_pade.cc","conex/cone_program.h","conex/equality_constraint.cc","conex/dense_lmi_constraint.cc"],
 [("PrepareStep / TakeStep / ComputeNegativeSlack / GeodesicUpdate of each type","conex/*constraint.cc, conex/hermitian_psd.cc"),("ExponentialMapPadeApproximation / ExponentialMap / GeodesicUpdateScaled","conex/exponential_map*.cc"),("PrepareStep over all constraints, Vars","conex/cone_program.h")])
p("C07","Barrier-parameter selection respects its bounds",
 "For all spectra, norms and tolerances: the line search interval returned for a linear constraint is exactly the set of k for which the maximum norm of d0 + k*(d1-d0) stays within the configured bound, failure is reported exactly when that set is empty, and combining constraints intersects their intervals. When the divergence-bound inverse returns a valid (positive) k, the divergence bound at k is finite and equals the requested bound, and the selected parameter is always finally clamped into its configured limits.",
 ["inputs","configurations"],"all real step data and spectra with positive rank, all bounds (floating point read as real arithmetic)",
 "Tests evaluate the divergence inverse for three spectra and the line search through one QP family; sign changes, zero-width and empty intervals are not covered.",
 ["conex/linear_constraint.cc","conex/divergence.cc","conex/cone_program.cc"],
 [("FindMinimumMu / PerformLineSearch","conex/linear_constraint.cc"),("DivergenceUpperBoundInverse and its branches","conex/divergence.cc"),("ComputeMuFromLineSearch / MinimizeNormInf / ApplyLimits / GetWeightedSlackEigenvalues aggregation","conex/cone_program.cc")])
p("C08","Two-sided inequality preprocessing preserves the feasible set",
 "For every matrix A and bounds lb <= ub, a point satisfies the produced one-sided inequalities and equations if and only if it satisfies lb <= A x <= ub, where bounds at or beyond +-1e8 count as absent. Rows appear once per finite bound (or once as an equation when the two bounds coincide), no other rows are produced, and rows already present in the outputs are kept.",
 ["inputs"],"all matrices, row counts and bound patterns (floating point read as real arithmetic)",
 "No test covers the function at all; its only caller is the C interface.",
 ["conex/linear_constraint.cc","interfaces/conex.cc"],
 [("PreprocessLinearInequality / AppendRow","conex/linear_constraint.cc"),("CONEX_AddLinearInequalities","interfaces/conex.cc")])
p("C09","Hypercomplex matrix arithmetic obeys the algebra laws",
 "For all matrices over the reals, complexes, quaternions and octonions, multiplication is bilinear with the multiplicative norm of the respective division algebra, conjugate transposition is an involution that reverses products, and multiplication is associative for dimension at most 4 and alternative for dimension 8. The Jordan product, quadratic representation, identity, Hermitian part and trace inner product are the ones derived from that multiplication.",
 ["inputs"],"all matrices of all conforming sizes, all four algebras (floating point read as real arithmetic)",
 "Tests use random 2x2/3x3 Hermitian matrices and spectra; a sign or index error that preserves these spectra or acts only on non-Hermitian operands passes.",
 ["conex/jordan_matrix_algebra.cc","conex/jordan_matrix_algebra.h"],
 [("Multiply tables, ConjugateTranspose, JordanMultiply, QuadraticRepresentation, TraceInnerProduct, Identity, Zero, Add, ScalarMultiply, MakeHermitian","conex/jordan_matrix_algebra.*")])
p("C10","Chordality analysis is exact",
 "For every symmetric pattern, the perfect-ordering test returns true exactly when for every vertex its later neighbours are pairwise adjacent, the elimination ordering is a permutation of the vertices produced by maximum cardinality search, and the chordality test returns true exactly when the graph is chordal. The maximum-degree query returns exactly the vertices of maximal row sum, in increasing order.",
 ["inputs"],"all symmetric non-negative adjacency matrices of any order",
 "The repository has no test for this file.",
 ["conex/elimination_ordering.cc"],
 [("MaximumCardinalitySearch / submat / IsPerfectlyOrdered / IsChordal / EliminationOrdering / MaximumDegreeVertices","conex/elimination_ordering.cc")])
p("C11","Incremental updates set exactly the addressed entry or report failure",
 "For every argument tuple, an incremental update of a constraint or cost either reports success and changes exactly the addressed entry (plus its mirror entry, negated for imaginary units, in Hermitian constraints), extending the data with zeros when a new variable is addressed, or reports failure and changes nothing; it succeeds exactly when the tuple addresses an entry the constraint has (or, where data can grow, a new variable), and only the addressed constraint of a program is touched. No argument tuple makes it write outside the constraint's data.",
 ["inputs","histories"],"all integer arguments (negative and beyond range included), all sequences of updates, all constraint types",
 "Tests try a few in-range updates and one or two out-of-range ones per type; negative rows, columns, variables and dimensions are mostly untested and fail silently as memory corruption.",
 ["conex/linear_constraint.cc","conex/soc_constraint.cc","conex/hermitian_psd.cc","conex/quadratic_cost.cc","conex/cone_program.h","interfaces/conex.cc"],
 [("UpdateLinearOperator / UpdateAffineTerm of each type","conex/linear_constraint.cc, conex/soc_constraint.cc, conex/hermitian_psd.cc, conex/quadratic_cost.cc"),("Program::Update*OfConstraint","conex/cone_program.h"),("CONEX_Update*","interfaces/conex.cc")])
p("C12","C interface: valid calls work at any time, options convert without loss",
 "Every creation call of the C interface with valid arguments on a valid program succeeds at any point of the program's life (before or after solves), returns the identifier of the constraint it added (where the function returns one), and null pointers, invalid orders, dimensions or variable lists yield failure without adding anything (the shapes of array arguments must be consistent; the function for two-sided inequalities returns no identifier). Default options are fully initialised and equal to the library defaults, and every option set by the user reaches the solver unchanged.",
 ["inputs","histories","configurations"],"all argument values, all call sequences interleaving creation, updates and solves, all option values",
 "Interface tests build one program each and never mix creation or update with an earlier solve, and check no option except indirectly.",
 ["interfaces/conex.cc","interfaces/conex.h","conex/cone_program.h"],
 [("CONEX_New* / SAFER_CAST_TO_Program / CONEX_SetNumberOfVariables","interfaces/conex.cc"),("CONEX_SetDefaultOptions / APIConvertSolverConfiguration","interfaces/conex.cc"),("CONEX_GetIterationStats","interfaces/conex.cc")])
p("C13","Solve's result, status and statistics agree",
 "For every program and configuration, the value returned by a solve equals the reported solved status, solved excludes the infeasibility statuses, a refused or failed solve reports not solved, and the number of recorded iterations never exceeds the configured maximum with every recorded entry inside the statistics storage. Recorded barrier parameters lie within the configured limits.",
 ["inputs","histories","configurations"],"all programs, configurations (including zero iterations, warm start with changed limits, unsupported combinations) and solve sequences",
 "Tests read only the returned primal point, and status in two cases; misuse and early-exit paths are not observed.",
 ["conex/cone_program.cc","conex/cone_program.h","conex/workspace.h"],
 [("Solve, Initialize, status and statistics bookkeeping","conex/cone_program.cc"),("WorkspaceStats","conex/workspace.h")])
p("C14","Registered constraints keep their variables and get private dual indices",
 "For all sequences of constraint additions, a variable list is accepted exactly when its entries are distinct indices in range, a rejected addition changes nothing, and an accepted one is appended with its variable list unchanged. Each equality constraint receives a fresh contiguous block of dual indices following all earlier ones, so that dual blocks are disjoint from each other and from the variables, and the system size is the number of variables plus all dual indices.",
 ["inputs","histories"],"all variable counts, variable lists (negative, repeated and out-of-range entries included) and addition sequences",
 "Tests register valid lists only, with at most a few equality constraints.",
 ["conex/constraint_manager.h","conex/cone_program.h","conex/supernodal_assembler.h"],
 [("IsUnique / AddConstraint / AddEqualityConstraint / SizeOfKKTSystem","conex/constraint_manager.h"),("Program::AddConstraint / Container","conex/cone_program.h")])
p("C15","Primal, dual and cost data are exchanged in the user's units",
 "Whatever internal rescaling is in effect, the returned primal vector and every dual variable are the internal iterates divided by exactly the scalings under which they were computed (unscaled dual rays when infeasible), and the optimised objective is the sum of all linear costs added since the last clearing. Dual variables of a constraint have the size reported for it and are the constraint's own.",
 ["inputs","configurations","histories"],"all programs, scalings, cost sequences and constraint indices",
 "Tests compare optimal values for a few problems where rescaling factors are mild and read dual variables for one constraint type.",
 ["conex/cone_program.cc","conex/cone_program.h","conex/constraint.h"],
 [("Solve (final unscaling), GetDualVariable, AddLinearCost, ClearLinearCosts","conex/cone_program.*"),("get_dual_variable","conex/constraint.h")])
p("C16","Converged solves are optimal to tolerance",
 "For every strictly feasible program, when a solve reports solved, the returned point is feasible and optimal to the configured tolerance.",
 ["inputs","configurations"],"all strictly feasible programs",
 "Only a few dozen random instances are solved by tests.",
 ["conex/cone_program.cc"],[("Solve main loop","conex/cone_program.cc")])
p("C17","A cold-started solve does not depend on the program's history",
 "Solving with cold start produces results that depend only on the current constraints, costs and configuration, not on earlier solves or updates of the same program or of other programs in the process.",
 ["histories"],"all sequences of solves and edits preceding a cold-started solve",
 "Tests never compare a re-solved program with a fresh one.",
 ["conex/cone_program.cc","conex/hermitian_psd.cc"],[("Initialize","conex/cone_program.cc")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
for x in P: assert len(x["title"])<=80,(x["id"],len(x["title"]))
