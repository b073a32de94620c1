"""C03: factor and solve invert the assembled system."""
from common import *
from c02 import Step, Each, place, same, KKT, TW, F, Z, eqi, SK

ASSUMPTIONS = ['mathematical lemma: block forward and backward substitution (one step per block, under contract here) with the factors of a block factorisation (one elimination step per block, under contract here) solves the factored system',
               'trusted Eigen: in-place LLT of a block (success exactly for positive definite blocks), triangular solves, column-pivoted QR, permutation products, conversion of transpositions to a permutation',
               'the addresses of a separator block point into later blocks (C02, S_S) and no two of them coincide; block memory is disjoint (C04)',
               'separators contain variables of later supernodes only, orders and permutations come from the symbolic analysis (C01)',
               'exact real arithmetic: with exact factors a refinement pass adds zero, so only its shape (residual, solve, addition) is specified']


def permutation(ex, N):
    """P(i): the variable at position i; Q: its inverse"""
    P, Q = F('P', Z, Z), F('Q', Z, Z)

    def fact(i):
        i = I(i)
        ex.ctx.add(z3.Implies(z3.And(0 <= i, i < I(N)), z3.And(0 <= P(i), P(i) < I(N), Q(P(i)) == i, 0 <= Q(i), Q(i) < I(N), P(Q(i)) == i)))
        return i
    ex.perm_inverse = lambda idx, i: isimp(Q(fact(i)))
    return Struct('$perm', {'idx': Mat(N, 1, lambda i, _: toreal(P(fact(i)))), 'tr': False}), P, Q


def solver(ex, N, **over):
    Pt, P, Q = permutation(ex, N)
    fs = dict(Pt=Pt, b_permuted_=ex.vec('bp', N), mat=Struct('conex::SparseTriangularMatrix', {'workspace_': Opaque('ws')}), mode_=ex.int('mode'),
              use_cholesky_=ex.bool('chol'), iterative_refinement_iterations_=ex.int('passes'), kkt_matrix_=ex.mat('K', N, N),
              factorization=Vec(ex.int('factors', 1), lambda k: Struct('factor', {'id': isimp(I(k))}), 'x'), qr_decomp_=Opaque('qr'))
    fs.update(over)
    this = ex.new(Struct(SK, fs), 'this')
    calls = []

    def block(kind):
        def cs(ex_, th, args):
            ws, v = args[0], args[-1]
            lv = v.lv if isinstance(v, Ptr) else ex.rv(v).lv
            n = len(calls)
            old = ex.rv(lv)
            calls.append((kind, args, old))
            ex.oblige('the block solve gets a vector of the size of the system', land(eqi(old.rows, N), eqi(old.cols, 1)))
            ex.store(lv, Mat(N, 1, lambda i, _: var('solved%d' % n, i)))
        return cs
    ex.contracts['BlockTriangularOperations::SolveInPlaceCholesky'] = block('cholesky')
    ex.contracts['BlockTriangularOperations::SolveInPlaceLDLT'] = block('ldlt')
    return this, P, Q, calls


def one_solve(ex, this, call, chol, rhs, P, N, tag):
    kind, args, old = call
    ex.oblige('%s: by the factors in use' % tag, kind == ('cholesky' if chol else 'ldlt'))
    ws = args[0]
    ex.oblige('%s: of this system' % tag, isinstance(ws, LV) and ws.key() == (this / ('f', 'mat') / ('f', 'workspace_')).key())
    if kind == 'ldlt':
        ex.oblige('%s: with its pivots' % tag, eqi(value(ex, args[1]).n, ex.int('factors')))
    ex.oblige_eq('%s: right-hand side in the order of elimination' % tag, old, Mat(N, 1, lambda i, _: rhs(isimp(P(I(i))))))


@contract('C03', 'Solve.qr', [KKT])
def solve_qr(ex):
    N = ex.int('N', 1)
    this, P, Q, calls = solver(ex, N, qr_decomp_=Struct('$solver', {'mat': ex.mat('K', N, N), 'kind': Opaque('qr')}))
    b = ex.new(ex.vec('b', N), 'b')
    ex.assume(eqi(ex.rv(this / ('f', 'mode_')), 2))
    r = ex.run(SK + '::Solve', [b], this=this)
    ex.oblige('does not throw', r[0] == 'ret')
    sol = getattr(ex, 'solves', [])
    ex.oblige('one solve by the QR factors', len(sol) == 1 and calls == [])
    if r[0] == 'ret' and len(sol) == 1:
        ex.oblige_eq('of the stored system', sol[0][0], ex.mat('K', N, N))
        ex.oblige_eq('with the right-hand side', sol[0][1], ex.vec('b', N))
        ex.oblige_eq('its solution is returned', ex.rv(r[1]), sol[0][2])


@contract('C03', 'Solve', [KKT])
def solve(ex):
    N = ex.int('N', 1)
    this, P, Q, calls = solver(ex, N)
    b = ex.new(ex.vec('b', N), 'b')
    ex.assume(cmpi('!=', ex.rv(this / ('f', 'mode_')), 2))
    chol = ex.decide(ex.rv(this / ('f', 'use_cholesky_')))
    r = ex.run(SK + '::Solve', [b], this=this)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('one block solve', len(calls) == 1)
    if r[0] != 'ret' or len(calls) != 1:
        return
    one_solve(ex, this, calls[0], chol, lambda k: var('b', k), P, N, 'block solve')
    ex.oblige_eq('the solution in the order of the variables', ex.rv(r[1]), Mat(N, 1, lambda i, _: var('solved0', isimp(Q(I(i))))))
    ex.oblige_eq('the right-hand side is left alone', ex.rv(b), ex.vec('b', N))


def in_place(case):
    @contract('C03', 'SolveInPlace.' + case, [KKT])
    def p(ex):
        """x = K^-1 b by the factors; every refinement pass adds the solution for the residual of the stored system"""
        N = ex.int('N', 1)
        over = {}
        if case == 'qr':
            over['qr_decomp_'] = Struct('$solver', {'mat': ex.mat('K', N, N), 'kind': Opaque('qr')})
        this, P, Q, calls = solver(ex, N, **over)
        rows = N if case != 'dimensions' else ex.int('rows', 0)
        mem = ex.new(Vec(rows, lambda i: var('b', i), 'double'), 'mem')
        b = ex.new(MapVal(mem / ('at', 0), rows, 1), 'b')
        mode = ex.rv(this / ('f', 'mode_'))
        passes = ex.rv(this / ('f', 'iterative_refinement_iterations_'))
        x = lambda: ex.rv(ex.rv(b)) if isinstance(ex.rv(b), LV) else ex.rv(b)
        xs = lambda: Mat(rows, 1, lambda i, _: ex.rv(mem).at(i))
        chol = None
        g = {}
        if case == 'dimensions':
            ex.assume(rows != N)
            r = ex.run(SK + '::SolveInPlace', [ptr(b)], this=this)
            ex.oblige('a right-hand side of another size is refused', r[0] == 'throw')
            ex.oblige('before any solve', calls == [])
            return
        if case == 'qr':
            ex.assume(eqi(mode, 2))
        else:
            ex.assume(cmpi('!=', mode, 2))
            chol = ex.decide(ex.rv(this / ('f', 'use_cholesky_')))

        class Passes(Invariant):
            st = 0

            def havoc(self, ex_, s):
                self.st = 1
                g['i'] = ex.int('i', 0)
                ex.assume(g['i'] <= z3.If(I(passes) > 0, I(passes), 0))
                s['i'] = g['i']
                ex.store(mem, Vec(rows, lambda k: var('x', k), 'double'))
                calls.clear()

            def props(self, ex_, s):
                if self.st == 0:
                    ex.oblige('one block solve before the passes', len(calls) == 1)
                    if len(calls) == 1:
                        one_solve(ex, this, calls[0], chol, lambda k: var('b', k), P, N, 'block solve')
                    return [('first pass', eqi(s['i'], 0)), ('the solution in the order of the variables', ('eq', xs(), Mat(N, 1, lambda i, _: var('solved0', isimp(Q(I(i)))))))]
                if self.st == 1:
                    self.st = 2
                    return []
                ex.oblige('one block solve per pass', len(calls) == 1)
                if len(calls) == 1:
                    res = lambda k: var('b', k) - Sum(0, N, lambda j: var('K', k, j) * var('x', j))
                    one_solve(ex, this, calls[0], chol, res, P, N, 'refinement')
                return [('next pass', eqi(s['i'], g['i'] + 1)),
                        ('the correction is added', ('eq', xs(), Mat(N, 1, lambda i, _: var('x', i) + var('solved0', isimp(Q(I(i)))))))]

            def exit(self, ex_, s):
                g['left'] = True
                ex.oblige('as many passes as configured', z3.Or(I(passes) < 0, g['i'] == I(passes)))
        ex.invariants[('SolveInPlace', 0)] = Passes()
        r = ex.run(SK + '::SolveInPlace', [ptr(b)], this=this)
        ex.oblige('does not throw', r[0] == 'ret')
        if case == 'qr':
            ex.oblige('no block solve', calls == [])
            sol = getattr(ex, 'solves', [])
            ex.oblige('one solve by the QR factors', len(sol) == 1)
            if len(sol) == 1:
                ex.oblige_eq('of the stored system', sol[0][0], ex.mat('K', N, N))
                ex.oblige_eq('with the right-hand side', sol[0][1], ex.vec('b', N))
                ex.oblige_eq('its solution is returned', xs(), sol[0][2])
        else:
            ex.oblige_eq('nothing changes after the passes', xs(), ex.vec('x', N))
            ex.oblige('the passes are over', g.get('left', False))
    return p


in_place('factors')
in_place('dimensions')
in_place('qr')


@contract('C03', 'Factor', [KKT])
def factor(ex):
    """the factors solve and SolveInPlace use are those of the assembled system"""
    N, C = ex.int('N', 1), ex.int('C', 1)
    D = F('duals', Z, Z)
    duals = Vec(C, lambda k: Vec(isimp(D(I(k))), lambda j: 0, 'int'), 'std::vector<int>')
    this, P, Q, calls = solver(ex, N, dual_variables_=duals, qr_decomp_=Struct('$solver', {'mat': ex.mat('Kold', N, N), 'kind': Opaque('qr')}),
                               factorization_regularized_=ex.bool('reg0'))
    made, log = [], []
    ex.contracts['SupernodalKKTSolver::KKTMatrix'] = lambda ex_, th, args: (made.append((th, len(log))), ex.mat('Know', N, N))[1]

    def block(kind):
        def cs(ex_, th, args):
            log.append((kind, args))
            return ex.bool(kind)
        return cs
    ex.contracts['BlockTriangularOperations::BlockCholeskyInPlace'] = block('cholesky')
    ex.contracts['BlockTriangularOperations::BlockLDLTInPlace'] = block('ldlt')
    k = ex.int('k', 0)       # an arbitrary constraint

    class NoDuals(Invariant):
        def havoc(self, ex_, s):
            ex.assume(D(I(s.i)) >= 0)

        def props(self, ex_, s):
            return [('Cholesky so far', B(ex.rv(this / ('f', 'use_cholesky_')))), ('no dual variables so far', z3.Implies(k < I(s.i), D(k) == 0))]
    ex.invariants[('Factor', 0)] = NoDuals()
    mode, passes = (ex.rv(this / ('f', f)) for f in ('mode_', 'iterative_refinement_iterations_'))
    qr = ex.decide(eqi(mode, 2))
    r = ex.run(SK + '::Factor', [], this=this)
    ex.oblige('does not throw', r[0] == 'ret')
    if r[0] != 'ret':
        return
    need = ex.decide(cmpi('>', passes, 0)) or qr
    K = ex.rv(this / ('f', 'kkt_matrix_'))
    if need:
        ex.oblige('the system is stored before it is factored', all(n == 0 for _, n in made) and len(made) >= 1 and all(t.key() == this.key() for t, _ in made))
        ex.oblige_eq('the stored system is the assembled one', K, ex.mat('Know', N, N))
    if qr:
        ex.oblige('no block factorization', log == [])
        ex.oblige_eq('the QR factors are those of the stored system', ex.rv(this / ('f', 'qr_decomp_')).fs['mat'], ex.mat('Know', N, N))
        ex.oblige('reports success', B(r[1]))
        return
    ex.oblige('one block factorization', len(log) == 1)
    if len(log) != 1:
        return
    kind, args = log[0]
    w = args[0].lv if isinstance(args[0], Ptr) else ex.rv(args[0]).lv
    ex.oblige('of the blocks of this system', w.key() == (this / ('f', 'mat') / ('f', 'workspace_')).key())
    ex.oblige('the solves use these factors', B(ex.rv(this / ('f', 'use_cholesky_'))) == z3.BoolVal(kind == 'cholesky'))
    if kind == 'cholesky':
        ex.oblige('reports what the factorization reports', B(r[1]) == B(ex.bool('cholesky')))
        ex.oblige('Cholesky only without dual variables', z3.Implies(k < I(C), D(k) == 0))
    else:
        f = args[1].lv if isinstance(args[1], Ptr) else ex.rv(args[1]).lv
        ex.oblige('the pivots are stored', f.key() == (this / ('f', 'factorization')).key())
        ex.oblige('regularisation is recorded', B(ex.rv(this / ('f', 'factorization_regularized_'))) == z3.Not(B(ex.bool('ldlt'))))
        ex.oblige('reports success', B(r[1]))


@contract('C03', 'KKTMatrix', [KKT])
def kktmatrix(ex):
    """entry (p, q) of the system is the entry of the stored lower triangle at the positions of p and q"""
    N = ex.int('N', 1)
    this, P, Q, calls = solver(ex, N)
    def dense(ex_, th, args):
        ex.oblige('of this system', isinstance(args[0], LV) and args[0].key() == (this / ('f', 'mat')).key())
        return ex.mat('G', N, N)
    ex.contracts['TriangularMatrixOperations::ToDense'] = dense
    r = ex.run(SK + '::KKTMatrix', [], this=this)
    ex.oblige('does not throw', r[0] == 'ret')
    if r[0] == 'ret':
        def want(i, j):
            a, b = isimp(Q(I(i))), isimp(Q(I(j)))
            return T.ite(cmpi('>=', a, b), var('G', a, b), var('G', b, a))
        ex.oblige_eq('symmetric, in the order of the variables', ex.rv(r[1]), Mat(N, N, want))


# ---- block substitutions
BT = 'conex/block_triangular_operations.cc'
BO = 'conex::BlockTriangularOperations'


class Blocks:
    """supernodes of sizes sz(k) starting at st(k); separators of S(k) later variables"""
    def __init__(self, ex):
        self.ex = ex
        self.nb, self.V = ex.int('blocks', 1), ex.int('V', 0)
        self.sz, self.st, self.S = F('size', Z, Z), F('start', Z, Z), F('sepsize', Z, Z)
        self.sep = F('sep', Z, Z, Z)
        ex.assume(z3.And(self.st(0) == 0, self.st(self.nb) == self.V, self.nb < 2 ** 31))
        n, sz, S, sep = self.nb, self.sz, self.S, self.sep
        iv = lambda f: (lambda k: isimp(f(I(k))))
        ks = lambda k: isimp(I(k))
        fs = dict(N=self.V, supernode_size=Vec(n, iv(sz), 'int'),
                  diagonal=Vec(n, lambda k: (lambda kk: Mat(isimp(sz(I(kk))), isimp(sz(I(kk))), lambda i, j: var('L', kk, i, j)))(ks(k)), 'x'),
                  off_diagonal=Vec(n, lambda k: (lambda kk: Mat(isimp(sz(I(kk))), isimp(S(I(kk))), lambda i, j: var('B', kk, i, j)))(ks(k)), 'x'),
                  temporaries=Vec(n, lambda k: (lambda kk: Mat(isimp(S(I(kk))), 1, lambda i, j: var('t', kk, i)))(ks(k)), 'Eigen::VectorXd'),
                  separators=Vec(n, lambda k: (lambda kk: Vec(isimp(S(I(kk))), lambda j: isimp(sep(I(kk), I(j))), 'int'))(ks(k)), 'std::vector<int>'))
        self.fs = fs

    def facts(self, k):
        """block k exists"""
        k = I(k)
        self.ex.assume(z3.Implies(z3.And(0 <= k, k < self.nb), z3.And(self.sz(k) >= 0, self.st(k) >= 0, self.st(k + 1) == self.st(k) + self.sz(k), self.st(k + 1) <= self.V, self.S(k) >= 0)))

    def seg(self, name, k):
        return Mat(isimp(self.sz(I(k))), 1, lambda r, _: var(name, isimp(self.st(I(k)) + I(r))))

    def inside(self, k, x):
        return z3.And(self.st(I(k)) <= I(x), I(x) < self.st(I(k)) + self.sz(I(k)))

    def iterator(self, s, nm, k):
        it = s[nm]
        return [('block of the iterator', eqi(it.fs['i_'], k)), ('its size', eqi(it.fs['size_i'], self.sz(I(k)))), ('its start', eqi(it.fs['start_i'], self.st(I(k))))]

    def place_iterator(self, s, nm, k):
        lv = s.lv(nm)
        k = isimp(I(k))
        for f, v in (('i_', k), ('size_i', isimp(self.sz(I(k)))), ('start_i', isimp(self.st(I(k))))):
            self.ex.store(lv / ('f', f), v)
        for f in ('start_i_minus_1', 'size_i_minus_1', 'start_i_plus_1', 'size_i_plus_1'):
            if f in s[nm].fs:
                self.ex.store(lv / ('f', f), self.ex.int(fresh_name(f)))

    def solved(self, log, A, rhs, tag):
        ex = self.ex
        ex.oblige('%s: one triangular solve' % tag, len(log) == 1)
        if len(log) == 1:
            ex.oblige_eq('%s: with its diagonal block' % tag, log[0][0], A)
            ex.oblige_eq('%s: of its part of the vector' % tag, log[0][1], rhs)

    def lower(self, k):
        k = isimp(I(k))
        return Mat(isimp(self.sz(I(k))), isimp(self.sz(I(k))), lambda i, j: T.ite(cmpi('>=', i, j), var('L', k, i, j), ZERO))

    def upper(self, k):
        m = self.lower(k)
        return Mat(m.rows, m.cols, lambda i, j: m.at(j, i))


@contract('C03', 'ApplyBlockInverseInPlace', [BT])
def forward(ex):
    """block i: its part becomes the solution of its triangle, and its products leave the separator's entries; then the next block"""
    b = Blocks(ex)
    w = ex.new(Struct('conex::TriangularMatrixWorkspace', dict(b.fs)), 'w')
    y = ex.new(ex.vec('y', b.V), 'y')
    g = {}
    ex.tri_solves = []

    def havoc(ex_, s):
        i = g['i'] = ex.int('i', 0)
        ex.assume(i < b.nb)
        b.facts(i)
        b.facts(i + 1)
        s['i'] = i
        b.place_iterator(s, 'ypart', i)
        ex.store(y, ex.vec('y', b.V))
        ex.tri_solves.clear()
        g['inner'] = False

    def solved():
        i = g['i']
        return Mat(b.V, 1, lambda x, _: T.ite(b.inside(i, x), var('tri0', isimp(I(x) - b.st(i))), var('y', x)))

    def after(ex_, s):
        i = g['i']
        out = [('next block', eqi(s['i'], i + 1))] + b.iterator(s, 'ypart', i + 1)
        if ex.decide(eqi(b.sz(i), 0)):
            return out + [('nothing changes for an empty block', ('eq', ex.rv(y), ex.vec('y', b.V)))]
        b.solved(ex.tri_solves, b.lower(i), b.seg('y', i), 'block')
        if not g['inner']:
            return out + [('no separator', eqi(b.S(i), 0)), ('the part of the block is solved', ('eq', ex.rv(y), solved()))]
        return out

    def inner_havoc(ex_, s):
        i = g['i']
        g['inner'] = True
        cnt = g['cnt'] = I(s.i)
        s['cnt'] = cnt
        v = b.sep(i, cnt)
        ex.assume(z3.Implies(cnt < b.S(i), z3.And(v >= b.st(i + 1), v < b.V)))
        ex.store(y, ex.vec('part', b.V))

    def inner(ex_, s):
        i, cnt = g['i'], g['cnt']
        prod = Sum(0, isimp(b.sz(i)), lambda r: var('B', i, r, isimp(cnt)) * var('tri0', r))
        return [('position', eqi(s['cnt'], cnt + 1)),
                ('the product leaves the entry of the separator', ('eq', ex.rv(y), Mat(b.V, 1, lambda x, _: var('part', x) - T.ite(cmpi('==', x, b.sep(i, cnt)), prod, ZERO))))]

    def inner_first(ex_, s):
        return [('first position', eqi(s['cnt'], 0)), ('the part of the block is solved', ('eq', ex.rv(y), solved()))]
    ex.invariants[('ApplyBlockInverseInPlace', 0)] = Step(havoc, after, lambda ex_, s: [('first block', eqi(s['i'], 0))] + b.iterator(s, 'ypart', 0),
                                                          lambda ex_, s: ex.oblige('all blocks but the last', eqi(g['i'], b.nb - 1)))
    ex.invariants[('ApplyBlockInverseInPlace', 1)] = Step(inner_havoc, inner, inner_first, lambda ex_, s: ex.oblige('the whole separator', eqi(g['cnt'], b.S(g['i']))))
    b.facts(0)
    r = ex.run(BO + '::ApplyBlockInverseInPlace', [w, ptr(y)])
    ex.oblige('does not throw', r[0] == 'ret')
    k = g['i']
    b.facts(k)
    b.solved(ex.tri_solves, b.lower(k), b.seg('y', k), 'last block')
    ex.oblige_eq('the part of the last block is solved', ex.rv(y), Mat(b.V, 1, lambda x, _: T.ite(b.inside(k, x), var('tri0', isimp(I(x) - b.st(k))), var('y', x))))


@contract('C03', 'PartitionVectorIterator.Set', [BT])
def iterator_set(ex):
    """moves back to an earlier block"""
    b = Blocks(ex)
    y = ex.new(ex.vec('y', b.V), 'y')
    sizes = ex.new(b.fs['supernode_size'], 'sizes')
    i, j = ex.int('i', 0), ex.int('j', 0)
    ex.assume(z3.And(j <= i, i < b.nb))
    b.facts(i)
    b.facts(j)
    t = ex.find_rec('conex::PartitionVectorIterator')['qual']
    it = ex.new(Struct(t, dict(i_=i, size_i=isimp(b.sz(i)), start_i=isimp(b.st(i)), start_i_plus_1=ex.int('u'), size_i_plus_1=ex.int('v'), b_=ptr(y), N_=b.V, sizes_=ptr(sizes))), 'it')

    class Back(Invariant):
        def havoc(self, ex_, s):
            k = self.k = ex.int('k', 0)
            ex.assume(z3.And(j <= k, k <= i))
            b.facts(k)
            b.facts(k - 1)
            for f, v in (('i_', k), ('size_i', isimp(b.sz(k))), ('start_i', isimp(b.st(k)))):
                ex.store(it / ('f', f), v)
            for f in ('start_i_plus_1', 'size_i_plus_1'):
                ex.store(it / ('f', f), ex.int(fresh_name(f)))

        def props(self, ex_, s):
            v = ex.rv(it)
            k = I(v.fs['i_'])
            return [('not before the block', z3.And(j <= k, k <= i)), ('size of the block', eqi(v.fs['size_i'], b.sz(k))), ('start of the block', eqi(v.fs['start_i'], b.st(k)))]
    ex.invariants[('Set', 0)] = Back()
    r = ex.run(t + '::Set', [j], this=it)
    v = ex.rv(it)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('at the block', land(eqi(v.fs['i_'], j), eqi(v.fs['size_i'], b.sz(j)), eqi(v.fs['start_i'], b.st(j))))


def set_contract(ex, b):
    def cs(ex_, th, args):
        j = I(ex.rv(args[0]))
        v = ex.rv(th)
        ex.oblige('blocks are visited backwards', cmpi('<=', j, v.fs['i_']))
        ex.oblige('the block exists', cmpi('>=', j, 0))
        b.facts(j)
        for f, x in (('i_', isimp(j)), ('size_i', isimp(b.sz(j))), ('start_i', isimp(b.st(j)))):
            ex.store(th / ('f', f), x)
        for f in ('start_i_plus_1', 'size_i_plus_1'):
            ex.store(th / ('f', f), ex.int(fresh_name(f)))
    ex.contracts['PartitionVectorIterator::Set'] = cs


class Lists:
    """for supernode i + 1: the earlier supernodes j whose separator meets it, latest first, with the pairs (position in it, position in the separator of j)"""
    def __init__(self, ex, b):
        self.n, self.ci, self.np = F('meets', Z, Z), F('meet', Z, Z, Z), F('pairs', Z, Z, Z)
        self.p1, self.p2 = F('first', Z, Z, Z, Z), F('second', Z, Z, Z, Z)
        m = isimp(b.nb - 1)
        ks = lambda k: isimp(I(k))
        b.fs['column_intersections'] = Vec(m, lambda i: (lambda ii: Vec(isimp(self.n(I(ii))), lambda a: isimp(self.ci(I(ii), I(a))), 'int'))(ks(i)), 'std::vector<int>')
        b.fs['intersection_position'] = Vec(m, lambda i: (lambda ii: Vec(isimp(self.n(I(ii))), lambda a: (lambda aa: Vec(isimp(self.np(I(ii), I(aa))),
            lambda p: Struct('std::pair<int, int>', {'first': isimp(self.p1(I(ii), I(aa), I(p))), 'second': isimp(self.p2(I(ii), I(aa), I(p)))}), 'std::pair<int, int>'))(ks(a)), 'x'))(ks(i)), 'x')


@contract('C03', 'ApplyBlockInverseOfTransposeInPlace', [BT])
def backward(ex):
    """block i + 1: its part becomes the solution of its transposed triangle; its products leave the parts of the earlier blocks whose separators meet it"""
    b = Blocks(ex)
    l = Lists(ex, b)
    w = ex.new(Struct('conex::TriangularMatrixWorkspace', dict(b.fs)), 'w')
    y = ex.new(ex.vec('y', b.V), 'y')
    g = {}
    ex.tri_solves = []
    set_contract(ex, b)

    def havoc(ex_, s):
        i = g['i'] = ex.int('i')
        ex.assume(z3.And(i >= -1, i < b.nb - 1))
        b.facts(i)
        b.facts(i + 1)
        ex.assume(l.n(i) >= 0)
        s['i'] = i
        b.place_iterator(s, 'ypart', i + 1)
        ex.store(y, ex.vec('y', b.V))
        ex.tri_solves.clear()
        g['lists'] = False

    def part(name):
        k = g['i'] + 1
        return Mat(b.V, 1, lambda x, _: T.ite(b.inside(k, x), var('tri0', isimp(I(x) - b.st(k))), var(name, x)))

    def after(ex_, s):
        i = g['i']
        out = [('next block', eqi(s['i'], i - 1))] + b.iterator(s, 'ypart', i)
        if ex.decide(eqi(b.sz(i + 1), 0)):
            return out + [('nothing changes for an empty block', ('eq', ex.rv(y), ex.vec('y', b.V)))]
        return out + [('all lists are used', g['lists'])]

    def list_havoc(ex_, s):
        i = g['i']
        b.solved(ex.tri_solves, b.upper(i + 1), b.seg('y', i + 1), 'block')
        a = g['a'] = I(s.i)
        g['lists'] = True
        j = g['j'] = l.ci(i, a)
        p = ex.int('visited', 0)
        ex.assume(z3.Implies(a < l.n(i), z3.And(0 <= j, j <= i, j <= p, l.np(i, a) >= 0, b.st(j + 1) <= b.st(i + 1))))
        ex.assume(p < b.nb)
        ex.assume(z3.Implies(a + 1 < l.n(i), l.ci(i, a + 1) <= j))
        b.facts(j)
        b.facts(p)
        s['jcnt'] = isimp(a)
        b.place_iterator(s, 'residual', p)
        ex.store(y, part('rest'))

    def list_first(ex_, s):
        out = [('first list', eqi(s['jcnt'], 0)), ('the part of the block is solved', ('eq', ex.rv(y), part('y')))]
        return out + b.iterator(s, 'residual', b.nb - 1)

    def list_after(ex_, s):
        return [('next list', eqi(s['jcnt'], g['a'] + 1))] + b.iterator(s, 'residual', g['j'])

    def pair_havoc(ex_, s):
        i, a, j = g['i'], g['a'], g['j']
        q = g['q'] = I(s.i)
        f, c = l.p1(i, a, q), l.p2(i, a, q)
        ex.assume(z3.Implies(q < l.np(i, a), z3.And(0 <= f, f < b.sz(i + 1), 0 <= c, c < b.S(j))))
        ex.store(y, part('now'))

    def pair_after(ex_, s):
        i, a, j, q = g['i'], g['a'], g['j'], g['q']
        f, c = l.p1(i, a, q), l.p2(i, a, q)
        p = part('now')
        return [('the product leaves the part of the earlier block', ('eq', ex.rv(y), Mat(b.V, 1, lambda x, _: p.at(x, 0) - T.ite(
            b.inside(j, x), var('B', j, isimp(I(x) - b.st(j)), c) * var('tri0', f), ZERO))))]
    fn = 'ApplyBlockInverseOfTransposeInPlace'
    b.facts(b.nb - 1)
    ex.invariants[(fn, 0)] = Step(havoc, after, lambda ex_, s: [('starts at the last block', eqi(s['i'], b.nb - 2))] + b.iterator(s, 'ypart', b.nb - 1),
                                  lambda ex_, s: ex.oblige('all blocks but the first', eqi(g['i'], -1)))
    ex.invariants[(fn, 1)] = Step(list_havoc, list_after, list_first, lambda ex_, s: ex.oblige('all lists', eqi(g['a'], l.n(g['i']))))
    ex.invariants[(fn, 2)] = Step(pair_havoc, pair_after, lambda ex_, s: [('the block of the list', land(*[B(x[1]) for x in b.iterator(s, 'residual', g['j'])]))],
                                  lambda ex_, s: ex.oblige('all pairs', eqi(g['q'], l.np(g['i'], g['a']))))
    r = ex.run(BO + '::' + fn, [w, ptr(y)])
    ex.oblige('does not throw', r[0] == 'ret')
    b.facts(0)
    if ex.decide(eqi(b.sz(0), 0)):
        ex.oblige_eq('nothing changes for an empty first block', ex.rv(y), ex.vec('y', b.V))
        return
    b.solved(ex.tri_solves, b.upper(0), b.seg('y', 0), 'first block')
    ex.oblige_eq('the part of the first block is solved', ex.rv(y), Mat(b.V, 1, lambda x, _: T.ite(b.inside(0, x), var('tri0', isimp(I(x) - b.st(0))), var('y', x))))


# ---- block factorizations
class Factoring:
    """blocks of a matrix being factored; the addresses of a separator's triangle point to later blocks (separate memory here)"""
    def __init__(self, ex):
        self.ex = ex
        b = self.b = Blocks(ex)
        ks = lambda k: isimp(I(k))
        self.T = F('T', Z, Z)
        self.A = F('address', Z, Z, Z)
        self.S = ex.int('memory', 0)
        self.mem = ex.new(Vec(self.S, lambda x: var('m0', x), 'double'), 'mem')
        npt = F('addresses', Z, Z)
        self.npt = npt
        b.fs['seperator_diagonal'] = Vec(b.nb, lambda k: (lambda kk: Vec(isimp(npt(I(kk))), lambda x: ptr(self.mem / ('at', isimp(self.A(I(kk), I(x))))), 'double *'))(ks(k)), 'x')
        self.new(('D0', 'B0'))

    def new(self, names=('D', 'B')):
        b = self.b
        ks = lambda k: isimp(I(k))
        D, B_ = names
        b.fs['diagonal'] = Vec(b.nb, lambda k: (lambda kk: Mat(isimp(b.sz(I(kk))), isimp(b.sz(I(kk))), lambda i, j: var(D, kk, i, j)))(ks(k)), 'x')
        b.fs['off_diagonal'] = Vec(b.nb, lambda k: (lambda kk: Mat(isimp(b.sz(I(kk))), isimp(b.S(I(kk))), lambda i, j: var(B_, kk, i, j)))(ks(k)), 'x')

    def reset(self, w):
        """an arbitrary state of the blocks"""
        self.new()
        for f in ('diagonal', 'off_diagonal'):
            self.ex.store(w / ('f', f), self.b.fs[f])
        self.ex.store(self.mem, Vec(self.S, lambda x: var('m', x), 'double'))

    def block(self, lv):
        """index of the block a factor was computed in; None for a temporary"""
        ex = self.ex
        if not isinstance(lv, LV):
            return None
        q = place(ex, lv, self.w / ('f', 'diagonal'))
        return q[0][1] if q is not None and len(q) == 1 and q[0][0] == 'at' else None

    def column(self, j):
        return self.T(j + 1) == self.T(j) + self.b.S(self.g['i']) - j

    def pairs(self, fn, ordinal, X1, X2, key='i'):
        """*s_s[index++] -= (column k of X1) . (column j of X2) for every j >= k"""
        ex, g, b = self.ex, self.g, self.b
        names = {}

        def idx(s):
            return I(s['index'])

        def outer_havoc(ex_, s):
            k = g['k'] = ex.int('k', 0)
            i = g['i']
            ex.assume(z3.And(k <= b.S(i), self.column(k), self.T(k) >= 0))
            s['k'], s['index'] = k, isimp(self.T(k))
            ex.store(self.mem, Vec(self.S, lambda x: var('m1', x), 'double'))
            g['pairs'] = True

        def outer(ex_, s):
            return [('next column', eqi(s['k'], g['k'] + 1)), ('position', eqi(idx(s), self.T(g['k'] + 1)))]

        def inner_havoc(ex_, s):
            i, k = g['i'], g['k']
            j = g['j'] = ex.int('j')
            ex.assume(z3.And(j >= k, j <= b.S(i)))
            q = self.T(k) + j - k
            ex.assume(z3.Implies(j < b.S(i), z3.And(0 <= q, q < self.npt(i), self.A(i, q) >= 0, self.A(i, q) < self.S)))
            s['j'], s['index'] = j, isimp(q)
            ex.store(self.mem, Vec(self.S, lambda x: var('m2', x), 'double'))

        def inner(ex_, s):
            i, k, j = g['i'], g['k'], g['j']
            q = self.T(k) + j - k
            dot = Sum(0, isimp(b.sz(i)), lambda r: X1(r, k) * X2(r, j))
            return [('next row', eqi(s['j'], j + 1)), ('position', eqi(idx(s), q + 1)),
                    ('the product leaves the entry of the separator', ('eq', ex.rv(self.mem), Vec(self.S, lambda x: var('m2', x) - T.ite(cmpi('==', x, self.A(i, q)), dot, ZERO), 'double')))]
        def first(ex_, s):
            self.before(ex_, s)
            ex.assume(self.T(0) == 0)
            return [('first column', z3.And(B(eqi(s['k'], 0)), B(eqi(idx(s), 0)))), ('no entry is changed before', ('eq', ex.rv(self.mem), Vec(self.S, lambda x: var('m', x), 'double')))]
        ex.invariants[(fn, ordinal)] = Step(outer_havoc, outer, first, lambda ex_, s: ex.oblige('all columns', eqi(g['k'], b.S(g['i']))))
        ex.invariants[(fn, ordinal + 1)] = Step(inner_havoc, inner, lambda ex_, s: [('first row', z3.And(B(eqi(s['j'], g['k'])), B(eqi(idx(s), self.T(g['k'])))))],
                                                lambda ex_, s: ex.oblige('all rows', eqi(g['j'], b.S(g['i']))))


@contract('C03', 'BlockCholeskyInPlace', [BT])
def block_cholesky(ex):
    """block i: factored in place; its separator block becomes B = inv(L) B; B^T B leaves the separator's entries (addresses columns first, as in S_S)"""
    c = Factoring(ex)
    b = c.b
    g = c.g = {}
    ex.tri_solves = []
    made = []

    def factor(a):
        i = c.block(a)
        v = ex.rv(a)
        n = len(made)
        ok = ex.bool('success')
        low = Mat(v.rows, v.cols, lambda r, q: T.ite(cmpi('>=', r, q), var('factor%d' % n, r, q), ZERO))
        made.append((i, v))
        if i is not None:
            ex.store(a, Mat(v.rows, v.cols, lambda r, q: var('factor%d' % n, r, q)))
        return Struct('$factor', {'info': isimp(z3.If(ok, 0, 1)), 'matrixL': Struct('$tri', {'mat': low, 'mode': 1}), 'of': Opaque('x')})
    ex.factor_hook = factor
    old = Struct('$factor', {'info': 0, 'matrixL': Opaque('x'), 'of': Opaque('x')})
    b.fs['llts'] = Vec(ex.int('old', 0), lambda k: old, 'Eigen::LLT<Eigen::Ref<Eigen::MatrixXd>>')
    w = c.w = ex.new(Struct('conex::TriangularMatrixWorkspace', dict(b.fs)), 'w')
    fn = 'BlockCholeskyInPlace'

    def havoc(ex_, s):
        i = g['i'] = ex.int('i', 0)
        ex.assume(i <= b.nb)
        b.facts(i)
        s['i'] = i
        c.reset(w)
        ex.store(w / ('f', 'llts'), Vec(i, lambda k: old, 'Eigen::LLT<Eigen::Ref<Eigen::MatrixXd>>'))
        made.clear()
        ex.tri_solves.clear()
        g['pairs'] = False

    def factored():
        i = g['i']
        ex.oblige('one factorization per block', len(made) == 1)
        if len(made) == 1 and not ex.decide(eqi(b.sz(i), 0)):
            ex.oblige('in the place of the diagonal block', made[0][0] is not None and eqi(made[0][0], i))
            ex.oblige_eq('of the diagonal block', made[0][1], Mat(isimp(b.sz(i)), isimp(b.sz(i)), lambda r, q: var('D', i, r, q)))

    def before(ex_, s):
        i = g['i']
        factored()
        n = isimp(b.sz(i))
        b.solved(ex.tri_solves, Mat(n, n, lambda r, q: T.ite(cmpi('>=', r, q), var('factor0', r, q), ZERO)), Mat(n, isimp(b.S(i)), lambda r, q: var('B', i, r, q)), 'separator block')
        ex.oblige_eq('the separator block is solved', ex.rv(w / ('f', 'off_diagonal')).at(i), Mat(n, isimp(b.S(i)), lambda r, q: var('tri0', r, q)))
    c.before = before

    def after(ex_, s):
        i = g['i']
        out = [('next block', eqi(s['i'], i + 1)), ('one factor per block', eqi(ex.rv(w / ('f', 'llts')).n, i + 1))]
        if not g['pairs']:
            factored()
            out.append(('no separator', lor(eqi(b.sz(i), 0), eqi(b.S(i), 0))))
            out.append(('no entry is changed', ('eq', ex.rv(c.mem), Vec(c.S, lambda x: var('m', x), 'double'))))
        return out
    ex.invariants[(fn, 0)] = Step(havoc, after, lambda ex_, s: [('first block', eqi(s['i'], 0)), ('no factors', eqi(ex.rv(w / ('f', 'llts')).n, 0))],
                                  lambda ex_, s: (ex.oblige('all blocks', eqi(g['i'], b.nb)), g.update(end=True)))
    c.pairs(fn, 1, lambda r, k: var('tri0', r, k), lambda r, k: var('tri0', r, k))
    r = ex.run(BO + '::' + fn, [ptr(w)])
    ex.oblige('does not throw', r[0] == 'ret')
    if g.get('end'):
        ex.oblige('success when every block has a factor', B(r[1]))
    else:
        ex.oblige('failure only when a block has none', z3.Not(B(r[1])))
        ex.oblige('the block has none', z3.Not(B(ex.bool('success'))))
        ex.oblige('the failing block is not empty', cmpi('>', b.sz(g['i']), 0))


def ldlt_factor(ex, n, D, name, k):
    """factor P^T L D L^T P of block k: unit lower triangle, pivots, permutation"""
    unit = Mat(n, n, lambda r, q: T.ite(cmpi('>', r, q), var('unit' + name, *k, r, q), T.ite(cmpi('==', r, q), ONE, ZERO)))
    return Struct('$factor', {'regularization_used': D, 'matrixL': Struct('$tri', {'mat': unit, 'mode': 1}),
                              'vectorD': Mat(n, 1, lambda r, _: var('pivot' + name, *k, r)), 'transpositionsP': Struct('$transpositions', {'k': k, 'n': n, 'name': name})}), unit


def perms(ex):
    """permutation matrices made of transpositions: P(k, i) is the position of row i after the interchanges, Q its inverse"""
    P, Q = F('perm', Z, Z, Z), F('inverse', Z, Z, Z)
    made = []

    def fact(k, n, i):
        i, k, n = I(i), I(k), I(n)
        ex.ctx.add(z3.Implies(z3.And(0 <= i, i < n), z3.And(0 <= P(k, i), P(k, i) < n, Q(k, P(k, i)) == i, 0 <= Q(k, i), Q(k, i) < n, P(k, Q(k, i)) == i)))
        return i

    def make(t):
        k, n = t.fs['k'][0] if t.fs['k'] else 0, t.fs['n']
        idx = Mat(n, 1, lambda i, _: toreal(P(I(k), fact(k, n, i))))
        made.append((idx, k, n))
        return Struct('$perm', {'idx': idx, 'tr': False})
    ex.perm_of = make

    def inverse(idx, i):
        for m, k, n in made:
            if m is idx:
                return isimp(Q(I(k), fact(k, n, i)))
        raise Unsupported('unknown permutation')
    ex.perm_inverse = inverse
    return P, Q


@contract('C03', 'BlockLDLTInPlace', [BT])
def block_ldlt(ex):
    """block i: P^T L D L^T P in its place; its separator block becomes B = inv(D) inv(L) P B; B^T D B leaves the separator's entries; any regularised pivot is reported"""
    c = Factoring(ex)
    b = c.b
    g = c.g = {}
    ex.tri_solves = []
    made = []
    P, Q = perms(ex)
    used = ex.bool('used')           # regularization in an earlier block
    rt = 'Eigen::RLDLT<Eigen::Ref<Eigen::MatrixXd>>'

    def factor(a):
        i = c.block(a)
        v = ex.rv(a)
        made.append((i, v))
        if i is not None:
            ex.store(a, Mat(v.rows, v.cols, lambda r, q: var('factor', r, q)))
        k = (isimp(I(g['i'])),)
        f, g['unit'] = ldlt_factor(ex, v.rows, ex.bool('regularised'), '', k)
        return f
    ex.factor_hook = factor
    old = Struct('$factor', {'regularization_used': Opaque('x'), 'matrixL': Opaque('x'), 'vectorD': Opaque('x'), 'transpositionsP': Opaque('x')})
    w = c.w = ex.new(Struct('conex::TriangularMatrixWorkspace', dict(b.fs)), 'w')
    fac = ex.new(Vec(ex.int('old', 0), lambda k: old, rt), 'factorization')
    fn = 'BlockLDLTInPlace'

    def havoc(ex_, s):
        i = g['i'] = ex.int('i', 0)
        ex.assume(i <= b.nb)
        b.facts(i)
        s['i'] = i
        s['regularization_used'] = used
        c.reset(w)
        ex.store(fac, Vec(i, lambda k: old, rt))
        made.clear()
        ex.tri_solves.clear()
        g['pairs'] = False

    def factored():
        i = g['i']
        ex.oblige('one factorization per block', len(made) == 1)
        if len(made) == 1:
            ex.oblige('in the place of the diagonal block', made[0][0] is not None and eqi(made[0][0], i))
            ex.oblige_eq('of the diagonal block', made[0][1], Mat(isimp(b.sz(i)), isimp(b.sz(i)), lambda r, q: var('D', i, r, q)))

    def X2(r, k):
        return inv(var('pivot', isimp(I(g['i'])), r)) * var('tri0', r, k)

    def X1(r, k):
        return var('pivot', isimp(I(g['i'])), r) * X2(r, k)

    def before(ex_, s):
        i = g['i']
        factored()
        n = isimp(b.sz(i))
        b.solved(ex.tri_solves, g['unit'], Mat(n, isimp(b.S(i)), lambda r, q: var('B', i, isimp(Q(I(i), I(r))), q)), 'separator block')
        ex.oblige_eq('the separator block is solved', ex.rv(w / ('f', 'off_diagonal')).at(i), Mat(n, isimp(b.S(i)), X2))
    c.before = before

    def after(ex_, s):
        i = g['i']
        out = [('next block', eqi(s['i'], i + 1)), ('one factor per block', eqi(ex.rv(fac).n, i + 1)),
               ('regularised pivots so far', B(s['regularization_used']) == z3.Or(B(used), B(ex.bool('regularised'))))]
        if not g['pairs']:
            factored()
            out.append(('no separator', lor(eqi(b.sz(i), 0), eqi(b.S(i), 0))))
            out.append(('no entry is changed', ('eq', ex.rv(c.mem), Vec(c.S, lambda x: var('m', x), 'double'))))
        return out
    ex.invariants[(fn, 0)] = Step(havoc, after, lambda ex_, s: [('first block', eqi(s['i'], 0)), ('no factors', eqi(ex.rv(fac).n, 0)), ('no regularised pivots', z3.Not(B(s['regularization_used'])))],
                                  lambda ex_, s: ex.oblige('all blocks', eqi(g['i'], b.nb)))
    c.pairs(fn, 1, X1, X2)
    r = ex.run(BO + '::' + fn, [ptr(w), ptr(fac)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('reports that no pivot was regularised', B(r[1]) == z3.Not(B(used)))


def unit(b, k, flip=False):
    k = isimp(I(k))
    n = isimp(b.sz(I(k)))
    u = Mat(n, n, lambda r, q: T.ite(cmpi('>', r, q), var('unit', k, r, q), T.ite(cmpi('==', r, q), ONE, ZERO)))
    return Mat(n, n, lambda r, q: u.at(q, r)) if flip else u


def factors(ex, b):
    return ex.new(Vec(b.nb, lambda k: ldlt_factor(ex, isimp(b.sz(I(k))), False, '', (isimp(I(k)),))[0], 'Eigen::RLDLT<Eigen::Ref<Eigen::MatrixXd>>'), 'fac')


@contract('C03', 'ApplyBlockInverseOfMD', [BT])
def forward_ldlt(ex):
    """block i: the products of block i - 1 leave its separator's entries, then its part becomes inv(L) P part; finally every part is divided by its pivots"""
    b = Blocks(ex)
    P, Q = perms(ex)
    w = ex.new(Struct('conex::TriangularMatrixWorkspace', dict(b.fs)), 'w')
    fac = factors(ex, b)
    y = ex.new(ex.vec('y0', b.V), 'y')
    g = {}
    ex.tri_solves = []
    fn = 'ApplyBlockInverseOfMD'

    def permuted(name, k):
        k = isimp(I(k))
        return Mat(isimp(b.sz(I(k))), 1, lambda r, _: var(name, isimp(b.st(I(k)) + Q(I(k), I(r)))))

    def part(name, k):
        return Mat(b.V, 1, lambda x, _: T.ite(b.inside(k, x), var('tri0', isimp(I(x) - b.st(I(k)))), var(name, x)))

    def havoc(ex_, s):
        i = g['i'] = ex.int('i', 1)
        ex.assume(i <= b.nb)
        b.facts(i - 1)
        b.facts(i)
        s['i'] = i
        b.place_iterator(s, 'ypart', i - 1)
        ex.store(y, ex.vec('y', b.V))
        ex.tri_solves.clear()
        g['name'] = 'y'

    def first(ex_, s):
        b.solved(ex.tri_solves, unit(b, 0), permuted('y0', 0), 'first block')
        return [('second block', eqi(s['i'], 1)), ('the part of the first block is solved', ('eq', ex.rv(y), part('y0', 0)))] + b.iterator(s, 'ypart', 0)

    def after(ex_, s):
        i = g['i']
        out = [('next block', eqi(s['i'], i + 1))] + b.iterator(s, 'ypart', i)
        if g['name'] == 'y':
            out.append(('no separator', lor(eqi(b.sz(i - 1), 0), eqi(b.S(i - 1), 0))))
        b.solved(ex.tri_solves, unit(b, i), permuted(g['name'], i), 'block')
        return out + [('the part of the block is solved', ('eq', ex.rv(y), part(g['name'], i)))]

    def inner_havoc(ex_, s):
        i = g['i']
        cnt = g['cnt'] = I(s.i)
        s['cnt'] = cnt
        v = b.sep(i - 1, cnt)
        ex.assume(z3.Implies(cnt < b.S(i - 1), z3.And(v >= b.st(i), v < b.V)))
        ex.store(y, ex.vec('part', b.V))
        g['name'] = 'part'

    def inner(ex_, s):
        i, cnt = g['i'], g['cnt']
        k = isimp(i - 1)
        prod = Sum(0, isimp(b.sz(k)), lambda r: var('B', k, r, isimp(cnt)) * var('y', isimp(b.st(k) + I(r))))
        return [('position', eqi(s['cnt'], cnt + 1)),
                ('the product leaves the entry of the separator', ('eq', ex.rv(y), Mat(b.V, 1, lambda x, _: var('part', x) - T.ite(cmpi('==', x, b.sep(k, cnt)), prod, ZERO))))]

    def inner_first(ex_, s):
        return [('first position', eqi(s['cnt'], 0)), ('nothing changes before', ('eq', ex.rv(y), ex.vec('y', b.V)))]

    def divided(k):
        return Mat(b.V, 1, lambda x, _: var('z', x) * T.ite(b.inside(k, x), T.inv(var('pivot', isimp(I(k)), isimp(I(x) - b.st(k - 1) - b.sz(k - 1)))), ONE))

    def d_havoc(ex_, s):
        i = g['d'] = ex.int('d', 1)
        ex.assume(i <= b.nb)
        b.facts(i - 1)
        b.facts(i)
        s['i'] = i
        b.place_iterator(s, 'ypart2', i - 1)
        ex.store(y, ex.vec('z', b.V))

    def d_first(ex_, s):
        z = Mat(b.V, 1, lambda x, _: var('y', x) * T.ite(b.inside(0, x), T.inv(var('pivot', 0, isimp(I(x)))), ONE))
        return [('second block', eqi(s['i'], 1)), ('the first part is divided by its pivots', ('eq', ex.rv(y), z))] + b.iterator(s, 'ypart2', 0)

    def d_after(ex_, s):
        return [('next block', eqi(s['i'], g['d'] + 1)), ('its part is divided by its pivots', ('eq', ex.rv(y), divided(g['d'])))] + b.iterator(s, 'ypart2', g['d'])
    ex.invariants[(fn, 0)] = Step(havoc, after, first, lambda ex_, s: ex.oblige('all blocks', eqi(g['i'], b.nb)))
    ex.invariants[(fn, 1)] = Step(inner_havoc, inner, inner_first, lambda ex_, s: ex.oblige('the whole separator', eqi(g['cnt'], b.S(g['i'] - 1))))
    ex.invariants[(fn, 2)] = Step(d_havoc, d_after, d_first, lambda ex_, s: ex.oblige('all blocks are divided', eqi(g['d'], b.nb)))
    b.facts(0)
    r = ex.run(BO + '::' + fn, [w, fac, ptr(y)])
    ex.oblige('does not throw', r[0] == 'ret')


@contract('C03', 'ApplyBlockInverseOfMTranspose', [BT])
def backward_ldlt(ex):
    """block i: the products of block i + 1 leave the parts of the earlier blocks whose separators meet it, then its part becomes P^T inv(L^T) part"""
    b = Blocks(ex)
    P, Q = perms(ex)
    l = Lists(ex, b)
    w = ex.new(Struct('conex::TriangularMatrixWorkspace', dict(b.fs)), 'w')
    fac = factors(ex, b)
    y = ex.new(ex.vec('y0', b.V), 'y')
    g = {}
    ex.tri_solves = []
    set_contract(ex, b)
    fn = 'ApplyBlockInverseOfMTranspose'

    def part(name, k):
        return Mat(b.V, 1, lambda x, _: T.ite(b.inside(k, x), var('tri0', isimp(P(I(k), I(x) - b.st(I(k))))), var(name, x)))

    def havoc(ex_, s):
        i = g['i'] = ex.int('i')
        ex.assume(z3.And(i >= -1, i < b.nb - 1))
        b.facts(i)
        b.facts(i + 1)
        ex.assume(l.n(i) >= 0)
        s['i'] = i
        b.place_iterator(s, 'ypart', i + 1)
        ex.store(y, ex.vec('y', b.V))
        ex.tri_solves.clear()
        g['lists'] = False

    def first(ex_, s):
        k = isimp(b.nb - 1)
        b.solved(ex.tri_solves, unit(b, k, True), b.seg('y0', k), 'last block')
        return [('starts at the last block but one', eqi(s['i'], b.nb - 2)), ('the part of the last block is solved', ('eq', ex.rv(y), part('y0', k)))] + b.iterator(s, 'ypart', k)

    def after(ex_, s):
        i = g['i']
        b.solved(ex.tri_solves, unit(b, i, True), b.seg('rest', i), 'block')
        return [('next block', eqi(s['i'], i - 1)), ('all lists are used', g['lists']), ('the part of the block is solved', ('eq', ex.rv(y), part('rest', i)))] + b.iterator(s, 'ypart', i)

    def list_havoc(ex_, s):
        i = g['i']
        a = g['a'] = I(s.i)
        g['lists'] = True
        j = g['j'] = l.ci(i, a)
        p = ex.int('visited', 0)
        ex.assume(z3.Implies(a < l.n(i), z3.And(0 <= j, j <= i, j <= p, l.np(i, a) >= 0, b.st(j + 1) <= b.st(i + 1))))
        ex.assume(p < b.nb)
        ex.assume(z3.Implies(a + 1 < l.n(i), l.ci(i, a + 1) <= j))
        b.facts(j)
        b.facts(p)
        s['jcnt'] = isimp(a)
        b.place_iterator(s, 'residual', p)
        ex.store(y, ex.vec('rest', b.V))

    def list_first(ex_, s):
        return [('first list', eqi(s['jcnt'], 0)), ('nothing changes before', ('eq', ex.rv(y), ex.vec('y', b.V)))] + b.iterator(s, 'residual', b.nb - 1)

    def list_after(ex_, s):
        return [('next list', eqi(s['jcnt'], g['a'] + 1))] + b.iterator(s, 'residual', g['j'])

    def pair_havoc(ex_, s):
        i, a, j = g['i'], g['a'], g['j']
        q = g['q'] = I(s.i)
        f, c = l.p1(i, a, q), l.p2(i, a, q)
        ex.assume(z3.Implies(q < l.np(i, a), z3.And(0 <= f, f < b.sz(i + 1), 0 <= c, c < b.S(j))))
        ex.store(y, ex.vec('now', b.V))

    def pair_after(ex_, s):
        i, a, j, q = g['i'], g['a'], g['j'], g['q']
        f, c = l.p1(i, a, q), l.p2(i, a, q)
        return [('the product leaves the part of the earlier block', ('eq', ex.rv(y), Mat(b.V, 1, lambda x, _: var('now', x) - T.ite(
            b.inside(j, x), var('B', j, isimp(I(x) - b.st(j)), c) * var('now', isimp(b.st(i + 1) + f)), ZERO))))]
    b.facts(b.nb - 1)
    ex.invariants[(fn, 0)] = Step(havoc, after, first, lambda ex_, s: ex.oblige('all blocks', eqi(g['i'], -1)))
    ex.invariants[(fn, 1)] = Step(list_havoc, list_after, list_first, lambda ex_, s: ex.oblige('all lists', eqi(g['a'], l.n(g['i']))))
    ex.invariants[(fn, 2)] = Step(pair_havoc, pair_after, lambda ex_, s: [('the block of the list', land(*[B(x[1]) for x in b.iterator(s, 'residual', g['j'])]))],
                                  lambda ex_, s: ex.oblige('all pairs', eqi(g['q'], l.np(g['i'], g['a']))))
    r = ex.run(BO + '::' + fn, [w, fac, ptr(y)])
    ex.oblige('does not throw', r[0] == 'ret')
