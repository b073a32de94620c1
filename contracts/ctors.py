"""Constructors of the constraints establish what the other contracts assume: workspaces of the dimensions of the data (C04), the data itself (C05)."""
from common import *
from c14 import INST


def construct(ex, t, args, sig):
    rec = ex.find_rec(t)
    if rec is None:
        raise cast.ExtractError('no class ' + t)
    cs = []
    for c in ex.all_ctors(rec):
        d = c if cast.has_body(c) else ex.resolve(c)
        if d is not None and cast.has_body(d) and sig in cast.sig(c):
            cs.append(d)
    if not cs:
        raise cast.ExtractError('constructor of %s (%s)' % (t, sig))
    return ex.new(ex.construct(rec, args, cast.sig(cs[0])), 'o')


def same_mat(ex, what, got, want):
    ex.oblige(what + ': dimensions', land(cmpi('==', got.rows, want.rows), cmpi('==', got.cols, want.cols)))
    ex.oblige_eq(what, got, want)


def constructors(prop):
    c05 = prop == 'C05'

    def dims(ex, o, **want):
        if not c05:
            w = ex.rv(o / ('f', 'workspace_'))
            for f, x in want.items():
                ex.oblige('workspace: ' + f, cmpi('==', w.fs[f], x))

    def affine(ex, o, A, c):
        if c05:
            same_mat(ex, 'A', ex.rv(o / ('f', 'constraint_matrix_')), A)
            same_mat(ex, 'c', ex.rv(o / ('f', 'constraint_affine_')), c)

    def inputs(ex):
        n, m = ex.int('n', 1), ex.int('m', 0)
        A, c = ex.mat('A', n, m), ex.vec('c', n)
        return n, m, A, c

    @contract(prop, 'constructor of LinearConstraint', [INST, CP])
    def lin(ex):
        n, m, A, c = inputs(ex)
        o = construct(ex, 'conex::LinearConstraint', [ex.new(A), ex.new(c)], '(const Eigen::MatrixXd &')
        dims(ex, o, n_=n, num_vars_=m)
        affine(ex, o, A, c)

    @contract(prop, 'constructor of LinearConstraint (arrays)', [INST, CP])
    def lin2(ex):
        n, m, A, c = inputs(ex)
        arr = ex.new(Vec(imul(n, m), lambda k: A.at(isimp(I(k) % I(n)), isimp(I(k) / I(n))), 'double'), 'A')
        brr = ex.new(Vec(n, lambda k: c.at(k, 0), 'double'), 'c')
        o = construct(ex, 'conex::LinearConstraint', [n, m, Ptr(arr / ('at', 0), False), Ptr(brr / ('at', 0), False)], '(int, int')
        dims(ex, o, n_=n, num_vars_=m)
        if c05:
            s = lambda f: ex.rv(o / ('f', f))
            ex.oblige('dimensions', land(cmpi('==', s('constraint_matrix_').rows, n), cmpi('==', s('constraint_matrix_').cols, m), cmpi('==', s('constraint_affine_').rows, n)))
            i, j = ex.int('i', 0), ex.int('j', 0)
            ex.assume(cmpi('<', i, n))
            ex.assume(cmpi('<', j, m))
            # column-major: entry (i, j) is element i + n j
            k = iadd(i, imul(n, j))
            ex.assume(land(cmpi('==', isimp(I(k) % I(n)), i), cmpi('==', isimp(I(k) / I(n)), j)))
            ex.oblige_eq('A', s('constraint_matrix_').at(i, j), A.at(i, j))
            ex.oblige_eq('c', s('constraint_affine_').at(i, 0), c.at(i, 0))

    @contract(prop, 'constructor of SOCConstraint', [INST, CP])
    def soc_(ex):
        n, m, A, c = inputs(ex)
        o = construct(ex, 'conex::SOCConstraint', [ex.new(A), ex.new(c)], 'Eigen::Matrix')
        dims(ex, o, n_=isubt(n, 1))
        if c05:
            ex.oblige('n', cmpi('==', ex.rv(o / ('f', 'n_')), isubt(n, 1)))
        affine(ex, o, A, c)

    @contract(prop, 'constructor of QuadraticConstraint', [INST, QC])
    def quad(ex):
        n, m, A, c = inputs(ex)
        Q = ex.mat('Q', isubt(n, 1), isubt(n, 1))
        ran = ex.new(0, 'calls')

        def ini(ex, this, args):
            ex.store(ran, 1)
        ex.contracts['QuadraticConstraintBase::Initialize'] = ini
        o = construct(ex, 'conex::QuadraticConstraintBase', [ex.new(Q), ex.new(A), ex.new(c)], 'const DenseMatrix &, const Eigen')
        dims(ex, o, n_=isubt(n, 1))
        if c05:
            s = lambda f: ex.rv(o / ('f', f))
            ex.oblige('n', cmpi('==', s('n_'), isubt(n, 1)))
            same_mat(ex, 'Q', s('Q_'), Q)
            same_mat(ex, 'A0', s('A0_'), Mat(m, 1, lambda i, j: A.at(0, i)))
            same_mat(ex, 'A1', s('A1_'), Mat(isubt(n, 1), m, lambda i, j: A.at(iadd(i, 1), j)))
            ex.oblige_eq('c0', s('C0_'), c.at(0, 0))
            same_mat(ex, 'c1', s('C1_'), Mat(isubt(n, 1), 1, lambda i, j: c.at(iadd(i, 1), 0)))
            ex.oblige('the derived data is computed', cmpi('==', ex.rv(ran), 1))

    for sig in ('(int, const std::vector', '(const std::vector'):
        @contract(prop, 'constructor of DenseLMIConstraint %s' % sig.split(',')[0], [LMI])
        def lmi_(ex, sig=sig):
            n, m = ex.int('n', 1), ex.int('m', 0)
            mats = ex.new(Vec(m, lambda k: Mat(n, n, lambda i, j: var('A', k, i, j)), 'Eigen::Matrix<double, -1, -1>'))
            c = ex.mat('c', n, n)
            o = construct(ex, 'conex::DenseLMIConstraint', ([n] if 'int' in sig else []) + [mats, ex.new(c)], sig)
            dims(ex, o, n_=n)
            if c05:
                s = lambda f: ex.rv(o / ('f', f))
                ex.oblige('number of variables', cmpi('==', s('num_dual_constraints_'), m))
                ex.oblige('number of matrices', cmpi('==', s('constraint_matrices_').n, m))
                k, i, j = ex.int('k', 0), ex.int('i', 0), ex.int('j', 0)
                for x, y in ((k, m), (i, n), (j, n)):
                    ex.assume(cmpi('<', x, y))
                ex.oblige_eq('A', s('constraint_matrices_').at(k).at(i, j), var('A', k, i, j))
                same_mat(ex, 'c', s('constraint_affine_'), c)
                v = s('constraint_matrices_vect_')
                ex.oblige('vectorised: dimensions', land(cmpi('==', v.rows, imul(n, n)), cmpi('==', v.cols, m)))
                r = iadd(i, imul(n, j))
                ex.assume(land(cmpi('<', r, imul(n, n)), cmpi('==', isimp(I(r) % I(n)), i), cmpi('==', isimp(I(r) / I(n)), j)))
                ex.oblige_eq('vectorised', v.at(r, k), var('A', k, i, j))

    for N in (1, 2, 4, 8):
        @contract(prop, 'constructor of HermitianPsdConstraint<%d>' % N, [INST, CP])
        def herm_(ex, N=N):
            n, m = ex.int('n', 1), ex.int('m', 0)
            HT = 'Eigen::Matrix<double, -1, -1>'
            H = lambda f: Vec(N, lambda k: Mat(n, n, lambda i, j: f(k, i, j)), HT)
            mats = ex.new(Vec(m, lambda q: H(lambda k, i, j: var('A%s' % k, q, i, j)), 'conex::HyperComplexMatrix'))
            c = ex.new(H(lambda k, i, j: var('c%s' % k, i, j)))
            o = construct(ex, 'conex::HermitianPsdConstraint<conex::MatrixAlgebra<%d>>' % N, [n, mats, c], 'std::vector')
            dims(ex, o, n_=n)
            if c05:
                s = lambda f: ex.rv(o / ('f', f))
                ex.oblige('rank', cmpi('==', s('rank_'), n))
                ex.oblige('number of matrices', cmpi('==', s('constraint_matrices_').n, m))
                q = ex.int('q', 0)
                ex.assume(cmpi('<', q, m))
                for k in range(N):
                    same_mat(ex, 'A%d' % k, s('constraint_matrices_').at(q).at(k), Mat(n, n, lambda i, j: var('A%d' % k, q, i, j)))
                    same_mat(ex, 'c%d' % k, s('constraint_affine_').at(k), Mat(n, n, lambda i, j: var('c%d' % k, i, j)))
