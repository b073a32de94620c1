BASE = ' Doubles are treated as reals; Eigen and libstdc++ by trusted models; a bounded replay on the compiled code runs beside the proof and is not counted as proved.'
NOTE.update({
    'C01': 'All clique lists, roots and leaf preferences: the search by a loop invariant over its visited set, order, stack and tree (progress, one position per clique, parents later, separators, connected cliques in one tree), the tree path by an invariant over its two ends (exactly the unique simple path), fill-in and relabelling by per-iteration contracts, the callers function by function. The step from these contracts to the running intersection property is a stated lemma.' + BASE,
    'C05': 'All sizes and data, every constraint type (Hermitian cones over R and C inlined, over H and O with matrix products by the contracts of C09).' + BASE,
    'C06': 'All sizes, data, interior points and directions per constraint type (matrix cones: eigenvalue estimates and matrix exponentials by contract; products over H and O by the contracts of C09); the fold over the constraints of a program for any number of constraints.' + BASE,
    'C07': 'All sizes, data and spectra: line search of a linear constraint by a loop invariant over its rows, intersection over any number of constraints, divergence inverse by branch contracts; PerformLineSearch and SolveInPlace by contract at the program level.' + BASE,
    'C08': 'All matrices and bounds with any number of rows and previous outputs: the loop body by a per-row contract (rows appended are positive multiples of the addressed row), equal bounds assumed finite.' + BASE,
    'C11': 'All argument values and sizes, every constraint type, the type-erasing layer, the program and the C interface function by function; data shapes are class invariants.' + BASE,
    'C12': 'All arguments and program states; constraint construction inlined, additions by the contracts of C14; the solve itself is C13.' + BASE,
    'C04': 'All orders and numbers of variables, iterations, constraints and supernodes; consecutive regions by prefix sums, their disjointness by the lemma on consecutive intervals; layouts, type erasure, constructors and the program function by function.' + BASE,
    'C14': 'All lists, constraint data, registries with any number of constraints; templates instantiated for linear constraints and equality constraints as lvalues, const lvalues and rvalues.' + BASE,
    'C09': 'All matrix sizes, dimensions 1, 2, 4, 8; the laws of the scalar algebra are decided exactly on structure constants read off the code.' + BASE,
    'C13': 'All programs and configurations: the iteration loop of Solve by an invariant over any number of iterations (callees by contract, any factorisation outcome, any step), Initialize and the entry points function by function; the limits of the barrier parameter assumed positive.' + BASE,
    'C15': 'All programs, configurations, constraints and sizes: the end of Solve under the invariant of C13 (parameter and scalings of the last iterate as ghosts), the affine steps of C06, the dual variables function by function through the type erasure and the C interface. Second-order cones and octonion matrices have no dual variables: known findings.' + BASE,
    'C02': 'All submatrices, label lists, blocks, programs and orderings of any size, repeated assembly included (every bound block is assigned or cleared before anything is added); the loops by per-iteration contracts over ghost functions, the blocks and their labels function by function. That the symbolic analysis gives every entry a place is C01.' + BASE,
    'C03': 'All block structures, sizes, right-hand sides, modes and numbers of refinement passes: the solver functions, one elimination step and one substitution step per block (loops by per-iteration contracts over any number of blocks, separators and pairs); the factorisation of a single block by Eigen is trusted.' + BASE,
    'C10': 'All patterns and weights with any number of vertices: the cardinality search by a loop invariant over its steps (visited set and neighbour counts as ghost functions), the tests, submatrices and degree query by invariants over quantified selections. Exactness of the search for chordal graphs (Rose, Tarjan, Lueker) is a stated lemma; the extracted chordless path is outside of the property.' + BASE,
})
