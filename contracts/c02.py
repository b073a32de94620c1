"""C02: assembly writes the sum of the constraints' submatrices."""
from common import *

ASSUMPTIONS = ['the per-iteration loop contracts hold for arbitrary ghost functions; the whole loop follows by induction over its iterations (mathematical lemma)',
               'mathematical lemma: a triangle of order n has n (n + 1) / 2 entries, and consecutive columns start n, n - 1, ... apart',
               'preconditions: the variables of a constraint are distinct (C14); labels, orders, supernodes and separators come from the symbolic analysis (C01)',
               'the addresses of a scattered block differ (distinct entries of the triangle of a clique have distinct positions, C04 and C01)']
BASE = 'conex::SupernodalAssemblerBase'
Z = z3.IntSort()


def eqi(a, b):
    return cmpi('==', a, b)


def assembler(ex, m, **over):
    sub = fresh_struct(ex, 'conex::WorkspaceSchurComplement', 'sub', G=ex.mat('G', m, m), m_=m)
    return ex.new(fresh_struct(ex, 'conex::SupernodalAssemblerStatic', 'a', submatrix_data_=sub, num_variables_=m, **over), 'a')


def coeff(p, q):
    """entry of the symmetric submatrix (lower triangle); negative labels are fill-in"""
    p, q = I(p), I(q)
    return T.ite(z3.Or(p < 0, q < 0), ZERO, T.ite(p >= q, var('G', p, q), var('G', q, p)))


def labels(ex, name, n, m):
    f = z3.Function(name, Z, Z)
    k = z3.Int('?k')
    ex.ctx.add(z3.ForAll([k], z3.And(f(k) >= -1, f(k) < m)))
    return (lambda k: isimp(f(I(k)))), ex.new(Vec(n, lambda k: isimp(f(I(k))), 'int'), name)


@contract('C02', 'GetCoeff', [SA])
def getcoeff(ex):
    m = ex.int('m', 1)
    a = assembler(ex, m)
    i, j = ex.int('i'), ex.int('j')
    ex.assume(z3.And(i < m, j < m))
    r = ex.run(BASE + '::GetCoeff', [i, j], this=a)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('the entry of the lower triangle, zero for fill-in', r[1], coeff(i, j))


def block(name, lower, add):
    @contract('C02', name, [SA])
    def p(ex):
        m, R, C = ex.int('m', 1), ex.int('R', 0), ex.int('C', 0)
        if lower:
            ex.assume(R == C)
        a = assembler(ex, m)
        r, rv = labels(ex, 'r', R, m)
        c, cv = labels(ex, 'c', C, m)
        data = ex.new(ex.mat('D', R, C), 'data')
        ex.contracts['SupernodalAssemblerBase::GetCoeff'] = lambda ex_, th, args: coeff(ex.rv(args[0]), ex.rv(args[1]))
        x = ex.run(BASE + '::' + name, [ptr(rv / ('at', 0)), R, ptr(cv / ('at', 0)), C, ptr(data)], this=a)
        ex.oblige('does not throw', x[0] == 'ret')
        D = ex.rv(data)
        old = lambda i, j: var('D', i, j)
        new = lambda i, j: coeff(r(i), c(j)) + (old(i, j) if add else ZERO)
        ex.oblige_eq('every entry is %s its coefficient' % ('increased by' if add else 'set to'), D, Mat(R, C, new),
                     rng=(lambda i, j: B(cmpi('>=', i, j))) if lower else None)
        if lower:
            ex.oblige_eq('the strict upper triangle is left alone', D, Mat(R, C, old), rng=lambda i, j: B(cmpi('<', i, j)))
        ex.oblige_eq('the submatrix is left alone', ex.rv(a / ('f', 'submatrix_data_') / ('f', 'G')), ex.mat('G', m, m))
    return p


block('Set', False, False)
block('Increment', False, True)
block('SetLowerTri', True, False)
block('IncrementLowerTri', True, True)


class Step(Invariant):
    """arbitrary state before an iteration; what that iteration does (an inductive step over ghost functions)"""
    def __init__(self, havoc, after, first=None, end=None):
        self.h, self.a, self.f, self.e, self.state = havoc, after, first, end, 0

    def havoc(self, ex, s):
        self.state = 1
        self.h(ex, s)

    def props(self, ex, s):
        if self.state == 0:
            return self.f(ex, s) if self.f else []
        if self.state == 1:
            self.state = 2
            return []
        return self.a(ex, s)

    def exit(self, ex, s):
        self.state = 0
        if self.e:
            self.e(ex, s)


@contract('C02', 'Scatter', [SA])
def scatter(ex):
    """entry number k of the list of addresses belongs to the k-th entry of the lower triangle, columns first"""
    m, R, C, S = ex.int('m', 1), ex.int('R', 0), ex.int('C', 0), ex.int('S', 1)
    ex.assume(R >= C)
    a = assembler(ex, m)
    r, rv = labels(ex, 'r', R, m)
    c, cv = labels(ex, 'c', C, m)
    T_, P, O = z3.Function('T', Z, Z), z3.Function('P', Z, Z), z3.Function('O', Z, Z)
    row, col = z3.Function('row', Z, Z), z3.Function('col', Z, Z)
    # instances of: T(0) = 0, T(j + 1) = T(j) + R - j; entry T(j) + i - j is row i, column j; the addresses P(k) differ (O is the inverse of P)
    n = T_(C)
    pos = lambda i, j: T_(j) + i - j
    ex.ctx.add(T_(0) == 0)
    column = lambda j: T_(j + 1) == T_(j) + I(R) - j
    entry = lambda i, j: z3.And(row(pos(i, j)) == i, col(pos(i, j)) == j, P(pos(i, j)) >= 0, P(pos(i, j)) < S, O(P(pos(i, j))) == pos(i, j),
                                z3.ForAll([z3.Int('?x')], z3.Implies(O(z3.Int('?x')) == pos(i, j), z3.Int('?x') == P(pos(i, j)))))
    coef = lambda k: coeff(r(row(k)), c(col(k)))
    after = lambda cnt: Vec(S, lambda x: var('M', x) + T.ite(z3.And(0 <= O(I(x)), O(I(x)) < I(cnt)), coef(O(I(x))), ZERO), 'double')
    mem = ex.new(Vec(S, lambda x: var('M', x), 'double'), 'mem')
    data = ex.new(Vec(n, lambda k: ptr(mem / ('at', isimp(P(I(k))))), 'double *'), 'data')
    ex.contracts['SupernodalAssemblerBase::GetCoeff'] = lambda ex_, th, args: coeff(ex.rv(args[0]), ex.rv(args[1]))
    g = {}

    def outer_havoc(ex_, s):
        g['j'] = ex.int('j', 0)
        ex.assume(g['j'] <= I(C))
        ex.assume(z3.And(column(g['j']), T_(g['j']) >= 0))
        s['j'], s['cnt'] = g['j'], isimp(T_(g['j']))
        ex.store(mem, after(T_(g['j'])))

    def outer(ex_, s):
        return [('next column', eqi(s['j'], g['j'] + 1)), ('position', eqi(s['cnt'], T_(g['j'] + 1))),
                ('entries of the columns so far', ('eq', ex.rv(mem), after(T_(g['j'] + 1))))]

    def inner_havoc(ex_, s):
        g['i'] = ex.int('i')
        ex.assume(z3.And(g['i'] >= g['j'], g['i'] <= I(R)))
        ex.assume(entry(g['i'], g['j']))
        s['i'], s['cnt'] = g['i'], isimp(pos(g['i'], g['j']))
        ex.store(mem, after(pos(g['i'], g['j'])))

    def inner(ex_, s):
        return [('next row', eqi(s['i'], g['i'] + 1)), ('position', eqi(s['cnt'], pos(g['i'], g['j']) + 1)),
                ('entries so far', ('eq', ex.rv(mem), after(pos(g['i'], g['j']) + 1)))]
    ex.invariants[('Scatter', 0)] = Step(outer_havoc, outer, lambda ex_, s: [('first column', z3.And(B(eqi(s['j'], 0)), B(eqi(s['cnt'], 0))))],
                                         lambda ex_, s: ex.oblige('all columns', eqi(g['j'], C)))
    ex.invariants[('Scatter', 1)] = Step(inner_havoc, inner, lambda ex_, s: [('first row', z3.And(B(eqi(s['i'], g['j'])), B(eqi(s['cnt'], pos(g['j'], g['j'])))))],
                                         lambda ex_, s: ex.oblige('all rows', eqi(g['i'], R)))
    x = ex.run(BASE + '::Scatter', [ptr(rv / ('at', 0)), R, ptr(cv / ('at', 0)), C, ptr(data / ('at', 0))], this=a)
    ex.oblige('does not throw', x[0] == 'ret')
    ex.oblige_eq('every address receives its coefficient', ex.rv(mem), after(T_(C)))


# ---- blocks
DB, OB = 'conex::DiagonalBlock', 'conex::OffDiagonalBlock'


def same(a, b):
    """two pointers to the same address"""
    a, b = (x.lv if isinstance(x, Ptr) else x for x in (a, b))
    return a.key() == b.key()


def place(ex, lv, root):
    """path of an address below a variable"""
    lv = lv.lv if isinstance(lv, Ptr) else lv
    n = len(root.path)
    return lv.path[n:] if lv.loc == root.loc and lv.path[:n] == root.path else None


def binder(ex, N, **over):
    m = ex.int('m', 1)
    a = assembler(ex, m, **over)
    return a, m


@contract('C02', 'BindDiagonalBlock', [SA])
def bind_diag(ex):
    """the block is stored; its memory becomes the submatrix exactly when its labels are 0, 1, ..., m - 1"""
    n = ex.int('n', 0)
    a, m = binder(ex, 0, diag=Vec(0, lambda k: None, DB), direct_update=False)
    r, rv = labels(ex, 'r', n, m)
    dat = ex.new(Vec(imul(n, n), lambda k: var('D', k), 'double'), 'data')
    blk = fresh_struct(ex, DB, 'b', num_vars=n, var_data=ptr(rv / ('at', 0)), data=ptr(dat / ('at', 0)), assign=ex.int('asg'), stride=1)
    u = ex.int('u', 0)

    class All(Invariant):
        def havoc(self, ex, s):
            i = ex.int('i', 0)
            ex.assume(i <= n)
            s['i'] = i

        def props(self, ex, s):
            k = z3.Int('?k')
            q = lambda n_: z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n_), r(k) == k))
            i = I(s['i'])
            d = ex.rv(a / ('f', 'direct_update'))
            return [('position', z3.And(i >= 0, i <= n)), ('direct update so far', B(d)), ('labels so far', q(i))]
    ex.invariants[('BindDiagonalBlock', 0)] = All()
    x = ex.run(BASE + '::BindDiagonalBlock', [ptr(ex.new(blk, 'blk'))], this=a)
    ex.oblige('does not throw', x[0] == 'ret')
    st = ex.rv(a)
    d = st.fs['diag']
    ex.oblige('one block', eqi(d.n, 1))
    b = d.at(0)
    ex.oblige('the block is stored', same(b.fs['var_data'], rv / ('at', 0)) and same(b.fs['data'], dat / ('at', 0)))
    ex.oblige('its size is stored', eqi(b.fs['num_vars'], n))
    ex.oblige('its assignment flag is stored', eqi(b.fs['assign'], ex.int('asg')))
    direct = st.fs['direct_update']
    k = z3.Int('?k')
    ident = z3.And(n == m, z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), r(k) == k)))
    G = st.fs['submatrix_data_'].fs['G']
    if ex.decide(direct):
        ex.oblige('direct update only when the labels are 0, ..., m - 1', ident)
        ok = isinstance(G, MapVal) and place(ex, G.lv, dat) in ((), (('at', 0),))
        ex.oblige('the submatrix is the memory of the block', ok)
        ex.oblige('with its size', land(eqi(G.rows, m), eqi(G.cols, m)))
    else:
        ex.oblige_eq('otherwise the submatrix keeps its memory', G, ex.mat('G', m, m))


@contract('C02', 'BindOffDiagonalBlock', [SA])
def bind_off(ex):
    p, q = ex.int('p', 0), ex.int('q', 0)
    blocks = lambda nm: (lambda k: Struct(OB, {'id': isimp(z3.Function(nm, Z, Z)(I(k)))}))
    a, m = binder(ex, 0, off_diag=Vec(p, blocks('off'), OB), scatter_block=Vec(q, blocks('sc'), OB))
    st = ex.int('stride')
    blk = Struct(OB, {'id': 77, 'stride': st})
    x = ex.run(BASE + '::BindOffDiagonalBlock', [ptr(ex.new(blk, 'blk'))], this=a)
    ex.oblige('does not throw', x[0] == 'ret')
    s = ex.rv(a)
    sc = ex.decide(cmpi('==', st, -1))
    for f, nm, n, grows in (('off_diag', 'off', p, not sc), ('scatter_block', 'sc', q, sc)):
        v = s.fs[f]
        ex.oblige('%s: %s' % (f, 'one more block' if grows else 'same blocks'), eqi(v.n, iadd(n, int(grows))))
        k = ex.int('k', 0)
        c = ex.ctx.child([k < n])
        old, ex.ctx = ex.ctx, c
        try:
            if not c.entails(z3.BoolVal(False)):
                ex.oblige('%s: earlier blocks are kept' % f, eqi(v.at(k).fs['id'], z3.Function(nm, Z, Z)(k)))
        finally:
            ex.ctx = old
        if grows:
            ex.oblige('%s: the new block is the given one' % f, eqi(v.at(n).fs['id'], 77))


def three(ex):
    """symbolic lists of diagonal, off-diagonal and scatter blocks"""
    f = lambda nm: z3.Function(nm, Z, Z)
    out = {}
    for nm, t in (('diag', DB), ('off_diag', OB), ('scatter_block', OB)):
        n = ex.int('n_' + nm, 0)
        mem = ex.new(Vec(n, (lambda nm: lambda k: Vec(ex_size(nm), lambda x: var(nm + 'mem', k, x), 'double'))(nm)), nm + 'mem')
        lab = ex.new(Vec(n, (lambda nm: lambda k: Vec(isimp(f(nm + 'L')(I(k))), lambda x: 0, 'int'))(nm)), nm + 'row')
        lac = ex.new(Vec(n, (lambda nm: lambda k: Vec(isimp(f(nm + 'L')(I(k))), lambda x: 0, 'int'))(nm)), nm + 'col')
        ptrs = ex.new(Vec(n, (lambda nm: lambda k: Vec(ex_size(nm), lambda x: Opaque('address'), 'double *'))(nm)), nm + 'ptrs')
        out[nm] = dict(n=n, mem=mem, row=lab, col=lac, ptrs=ptrs, R=f(nm + 'R'), C=f(nm + 'C'), asg=f(nm + 'assign'))

        def blk(k, o=out[nm], t=t):
            k = isimp(I(k))
            at = lambda l: ptr(o[l] / ('at', k) / ('at', 0))
            if t == DB:
                return Struct(DB, dict(num_vars=isimp(o['R'](I(k))), var_data=at('row'), data=at('mem'), increment_or_assign=Opaque('x'),
                                       stride=1, assign=isimp(o['asg'](I(k)))))
            return Struct(OB, dict(num_rows=isimp(o['R'](I(k))), row_data=at('row'), num_cols=isimp(o['C'](I(k))), col_data=at('col'), data=at('mem'),
                                   data_pointers=at('ptrs'), assign=isimp(o['asg'](I(k))), stride=1))
        out[nm]['vec'] = Vec(n, blk, t)
        k = z3.Int('?k')
        ex.ctx.add(z3.ForAll([k], z3.And(out[nm]['R'](k) >= 0, out[nm]['C'](k) >= 0)))
    return out


def ex_size(nm):
    return z3.Int('size_' + nm)


class Each(Invariant):
    """every element of a list is handled once"""
    def __init__(self, calls, check):
        self.calls, self.check, self.st = calls, check, 0

    def havoc(self, ex, s):
        self.i, self.n, self.st = s.i, s.n, 1

    def props(self, ex, s):
        if self.st == 1:
            self.st, self.k0 = 2, len(self.calls)
            return []
        if self.st == 2:
            self.check(self.i, self.calls[self.k0:])
        return []

    def exit(self, ex, s):
        ex.oblige('all blocks are visited', eqi(self.i, self.n))
        self.calls.append(('loop', self))


@contract('C02', 'UpdateBlocks', [SA])
def update(ex):
    """after the submatrix is computed every bound block is handed to the operation for it, with its own labels and memory"""
    bl = three(ex)
    direct = ex.bool('direct')
    a, m = binder(ex, 0, direct_update=direct, **{k: v['vec'] for k, v in bl.items()})
    calls = []
    for nm in ('SetLowerTri', 'IncrementLowerTri', 'Set', 'Increment', 'Scatter'):
        ex.contracts['SupernodalAssemblerBase::' + nm] = (lambda nm: lambda ex_, th, args: calls.append((nm, [ex.rv(x) for x in args], th)))(nm)
    ex.contracts['SupernodalAssemblerStatic::SetDenseData'] = lambda ex_, th, args: calls.append(('SetDenseData', [], th))
    is_direct = ex.decide(direct)

    def step(kind):
        o = bl[kind]

        def check(i, log):
            at = lambda l: o[l] / ('at', isimp(I(i))) / ('at', 0)
            asg = ex.decide(cmpi('!=', o['asg'](I(i)), 0))
            if is_direct:
                ex.oblige('direct update: no operation but clearing', log == [])
                return
            if kind == 'diag':
                want = 'SetLowerTri' if asg else 'IncrementLowerTri'
            elif kind == 'off_diag':
                want = 'Set' if asg else 'Increment'
            else:
                want = 'Scatter'
            ex.oblige('%s: one operation per block' % kind, len(log) == 1)
            if len(log) != 1:
                return
            nm, args, th = log[0]
            ex.oblige('%s: the operation for the kind of block' % kind, nm == want)
            ex.oblige('%s: of the same constraint' % kind, th.key() == a.key())
            rows = isimp(o['R'](I(i)))
            cols = rows if kind == 'diag' else isimp(o['C'](I(i)))
            ex.oblige('%s: labels' % kind, same(args[0], at('row')) and same(args[2], at('row' if kind == 'diag' else 'col')))
            ex.oblige('%s: sizes' % kind, land(eqi(args[1], rows), eqi(args[3], cols)))
            if kind == 'scatter_block':
                ex.oblige('%s: addresses' % kind, same(args[4], at('ptrs')))
            else:
                M = args[4].lv
                M = ex.load(M)
                M = M if isinstance(M, MapVal) else ex.rv(M)
                ex.oblige('%s: memory of the block' % kind, isinstance(M, MapVal) and place(ex, M.lv, o['mem'] / ('at', isimp(I(i)))) in ((), (('at', 0),)))
                ex.oblige('%s: size of the memory' % kind, land(eqi(M.rows, rows), eqi(M.cols, cols)))
        return Each(calls, check)

    class Clear(Each):
        """direct update: an off-diagonal block with assignment becomes zero"""
        def havoc(self, ex, s):
            Each.havoc(self, ex, s)
            o = bl['off_diag']
            ex.store(o['mem'], Vec(o['n'], lambda k: Vec(ex_size('off_diag'), lambda x: var('before', k, x), 'double')))

        def props(self, ex, s):
            if self.st == 2:
                o, i = bl['off_diag'], self.i
                x = ex.int('entry', 0)
                ex.assume(x < imul(o['R'](I(i)), o['C'](I(i))))
                got = T.real(ex.ctx, ex.rv(o['mem'] / ('at', isimp(I(i))) / ('at', x)))
                ex.oblige('direct update: fill-in is cleared', z3.Implies(o['asg'](I(i)) != 0, got == 0))
            return Each.props(self, ex, s)

    class Select:
        def select(self, lv):
            p = place(ex, lv, a)
            if p is None or len(p) != 1 or p[0][1] not in bl:
                return None
            kind = p[0][1]
            if is_direct:
                return Clear(calls, step(kind).check) if kind == 'off_diag' else Each(calls, step(kind).check)
            return step(kind)
    ex.invariants['*'] = Select()
    x = ex.run(BASE + '::UpdateBlocks', [], this=a)
    ex.oblige('does not throw', x[0] == 'ret')
    names = [c[0] for c in calls]
    ex.oblige('the submatrix is computed once, first', names.count('SetDenseData') == 1 and names[0] == 'SetDenseData' and calls[0][2].key() == a.key())
    ex.oblige('every list of blocks is processed', names.count('loop') == (1 if is_direct else 3))


# ---- relabelling
KKT = ('conex/kkt_solver.cc', ('conex+CONEX',))
SK = 'conex::SupernodalKKTSolver'


def ilist(ex, name, n):
    f = z3.Function(name, Z, Z)
    return (lambda k: f(I(k))), Vec(n, lambda k: isimp(f(I(k))), 'int')


@contract('C02', 'ConcatFirstN', [KKT])
def concat(ex):
    na, nb, N = ex.int('na', 0), ex.int('nb', 0), ex.int('N', 0)
    ex.assume(N <= na)
    fa, a = ilist(ex, 'a', na)
    fb, b = ilist(ex, 'b', nb)
    r = ex.run('ConcatFirstN', [ex.new(a, 'a'), N, ex.new(b, 'b')])
    ex.oblige('does not throw', r[0] == 'ret')
    y = r[1]
    ex.oblige('length', eqi(y.n, N + nb))
    k = ex.int('k', 0)
    ex.assume(k < N + nb)
    ex.oblige('the first N entries of a, then b', eqi(y.at(k), z3.If(k < N, fa(k), fb(k - N))))


@contract('C02', 'ReplaceWithPosition', [KKT])
def replace(ex):
    na, nb = ex.int('na', 0), ex.int('nb', 0)
    fa, a = ilist(ex, 'a', na)
    fb, b = ilist(ex, 'b', nb)
    pos = z3.Function('pos', Z, Z)
    g = {}

    def havoc(ex_, s):
        g['i'], g['n'] = s.i, s.n
        s['y'] = Vec(s.i, lambda k: isimp(pos(I(k))), 'int')

    def after(ex_, s):
        y, i = s['y'], g['i']
        k, u = z3.Int('?k'), ex.int('u', 0)
        v = I(y.at(i))
        j = ex.int('j', 0)
        return [('one entry per label', eqi(y.n, iadd(i, 1))),
                ('earlier entries are kept', z3.Implies(j < i, I(y.at(j)) == pos(j))),
                ('a position of the label, or -1', z3.Or(v == -1, z3.And(v >= 0, v < nb, fb(v) == fa(i)))),
                ('-1 only for labels that do not occur', z3.Implies(z3.And(u < nb, fb(u) == fa(i)), v >= 0))]
    ex.invariants[('ReplaceWithPosition', 0)] = Step(havoc, after, lambda ex_, s: [('no entry yet', eqi(s['y'].n, 0))],
                                                     lambda ex_, s: ex.oblige('every label is replaced', land(eqi(g['i'], g['n']), eqi(g['n'], na))))
    r = ex.run('ReplaceWithPosition', [ex.new(a, 'a'), ex.new(b, 'b'), True])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('the positions are returned', eqi(r[1].n, na))


@contract('C02', 'RelabelCliques', [KKT])
def relabel(ex):
    """the labels of entry e of the ordering are looked up in the variables of constraint order(e): own variables, then dual variables"""
    N = ex.int('N', 0)
    L, D = z3.Function('L', Z, Z), z3.Function('D', Z, Z)
    order, k = z3.Function('order', Z, Z), z3.Int('?k')
    ex.ctx.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < N), z3.And(0 <= order(k), order(k) < N, 0 <= D(order(k)), D(order(k)) <= L(order(k))))))
    tag = lambda nm: (lambda k: Struct('tag', {'kind': nm, 'k': isimp(I(k))}))
    lists = lambda nm, F: Vec(N, lambda k: Vec(isimp(F(I(k))), (lambda kk: lambda j: isimp(z3.Function(nm, Z, Z, Z)(kk, I(j))))(isimp(I(k))), 'int'), 'std::vector<int>')
    one = lambda k: z3.IntVal(1)
    data = ex.new(fresh_struct(ex, 'conex::MatrixData', 'data', clique_order=Vec(N, lambda k: isimp(order(I(k))), 'int'),
                               supernodes_original_labels=lists('sn', one), separators_original_labels=lists('sep', one)), 'data')
    fs = dict(cliques_=lists('cl', L), dual_variables_=lists('dv', D))
    this = ex.new(Struct(SK, dict(fs, data=ex.rv(data))), 'this')
    calls = []

    def which(v):
        """the list of lists a value comes from, and its index"""
        x = I(v.at(z3.Int('?p')))
        return x.decl().name(), x.arg(0) if x.num_args() else None

    def cat(ex_, th, args):
        a, n, b = value(ex, args[0]), ex.rv(args[1]), value(ex, args[2])
        calls.append(('cat', which(a), n, which(b)))
        return Vec(ex.int(T.fresh_name('len'), 0), lambda j: isimp(z3.Function('lab%d' % len(calls), Z, Z)(I(j))), 'int')

    def rep(ex_, th, args):
        a, b, f = value(ex, args[0]), value(ex, args[1]), ex.rv(args[2])
        calls.append(('rep', which(a), which(b), f))
        nm = 'new_' + which(a)[0]
        i = which(a)[1]
        return Vec(1, lambda j: isimp(z3.Function(nm, Z, Z, Z)(I(i), I(j))), 'int')
    ex.contracts['ConcatFirstN'] = cat
    ex.contracts['ReplaceWithPosition'] = rep
    g = {}

    def havoc(ex_, s):
        g['e'] = ex.int('e', 0)
        ex.assume(g['e'] <= N)
        s['e'] = g['e']
        done = lambda nm: Vec(N, lambda k: Vec(1, (lambda kk: lambda j: isimp(z3.If(kk < g['e'], z3.Function('new_' + nm, Z, Z, Z)(kk, I(j)),
                                                                                  z3.Function(nm, Z, Z, Z)(kk, I(j)))))(I(k)), 'int'), 'std::vector<int>')
        ex.store(data / ('f', 'supernodes_original_labels'), done('sn'))
        ex.store(data / ('f', 'separators_original_labels'), done('sep'))
        calls.clear()
    this_e = lambda x: x is not None and ex.ctx.entails(B(eqi(x, g['e'])))
    of_order = lambda x: x is not None and ex.ctx.entails(B(eqi(x, order(g['e']))))

    def after(ex_, s):
        e = g['e']
        reps, cats = [c for c in calls if c[0] == 'rep'], [c for c in calls if c[0] == 'cat']
        names = sorted(r[1][0] for r in reps)
        out = [('next entry', eqi(s['e'], e + 1)), ('labels of the supernode and of the separator', names == ['sep', 'sn'] and all(this_e(r[1][1]) for r in reps)),
               ('fill-in is marked', all(r[3] is True or r[3] == 1 for r in reps)),
               ('the variables of the constraint, then its dual variables', all(c[1][0] == 'cl' and of_order(c[1][1]) and c[3][0] == 'dv' and of_order(c[3][1])
                                                                        and ex.ctx.entails(B(eqi(c[2], L(order(e)) - D(order(e))))) for c in cats) and len(cats) >= 1),
               ('looked up in that list', all(r[2][0].startswith('lab') for r in reps))]
        k = ex.int('k', 0)
        ex.assume(k < N)
        for f, nm in (('supernodes_original_labels', 'sn'), ('separators_original_labels', 'sep')):
            v = ex.rv(data / ('f', f))
            want = z3.If(k < e + 1, z3.Function('new_' + nm, Z, Z, Z)(k, 0), z3.Function(nm, Z, Z, Z)(k, 0))
            out.append(('%s: stored' % f, z3.And(I(v.n) == N, I(v.at(k).at(0)) == want)))
        return out
    ex.invariants[('RelabelCliques', 0)] = Step(havoc, after, lambda ex_, s: [('first entry', eqi(s['e'], 0))],
                                                lambda ex_, s: ex.oblige('all entries', eqi(g['e'], N)))
    r = ex.run(SK + '::RelabelCliques', [ptr(data)], this=this)
    ex.oblige('does not throw', r[0] == 'ret')


@contract('C02', 'BuildBlock', [SA])
def build(ex):
    R, C = ex.int('R', 0), ex.int('C', 0)
    r = ex.new(Vec(R, lambda k: 0, 'int'), 'r')
    c = ex.new(Vec(C, lambda k: 0, 'int'), 'c')
    mem = ex.new(Vec(ex.int('S', 1), lambda x: var('M', x), 'double'), 'mem')
    P = ex.int('P', 0)
    ptrs = ex.new(Vec(P, lambda x: Opaque('address'), 'double *'), 'ptrs')
    at0 = lambda lv: lv / ('at', 0)

    def go(args, pred):
        x = ex.run('conex::BuildBlock', args, pred=pred)
        ex.oblige('does not throw', x[0] == 'ret')
        return x[1].fs
    d = go([ptr(r), ptr(at0(mem))], lambda n: cast.sig(n).count('vector') == 1)
    ex.oblige('diagonal block', land(eqi(d['num_vars'], R), same(d['var_data'], at0(r)) or same(d['var_data'], r), same(d['data'], at0(mem)), cmpi('!=', d['assign'], 0)))
    d = go([ptr(r), ptr(c), ptr(at0(mem))], lambda n: cast.sig(n).count('vector') == 2)
    ex.oblige('off-diagonal block', land(eqi(d['num_rows'], R), eqi(d['num_cols'], C), same(d['row_data'], at0(r)), same(d['col_data'], at0(c)), same(d['data'], at0(mem)),
                                         cmpi('!=', d['assign'], 0), cmpi('!=', d['stride'], -1)))
    d = go([ptr(r), ptr(c), ptr(ptrs)], lambda n: cast.sig(n).count('vector') == 3)
    ex.oblige('scatter block', land(eqi(d['num_rows'], R), eqi(d['num_cols'], C), same(d['row_data'], at0(r)), same(d['col_data'], at0(c)), same(d['data_pointers'], at0(ptrs)),
                                    eqi(d['stride'], -1)))


# ---- right-hand sides: sums over the constraints
F = z3.Function


class Sums:
    """AW, AQc after k of the constraints: base plus one entry for every variable of the constraint"""
    def __init__(self, ex, N, M, which, names, get):
        self.ex, self.N, self.M, self.which, self.names, self.get = ex, N, M, which, names, get
        self.pos = F('posin', Z, Z, Z)       # position of a variable in a constraint, -1 if it has none
        self.L, self.cl = F('L', Z, Z), F('cl', Z, Z, Z)
        self.acc = lambda nm, x, k: var('sum_' + nm, x, k)
        self.g = {}

    def rhs(self, nm, c, j):
        return var(nm + '_of', c, j)

    def term(self, nm, c, x, cnt):
        p = self.pos(I(c), I(x))
        return T.ite(z3.And(0 <= p, p < I(cnt)), self.rhs(nm, c, p), ZERO)

    def vec(self, nm, k, c=None, cnt=None):
        return Mat(self.M, 1, lambda x, _: self.acc(nm, I(x), k) + (self.term(nm, c, x, cnt) if c is not None else ZERO))

    def done(self, nm, k):
        """after one more constraint"""
        c = self.which(k)
        return self.vec(nm, k, c, self.L(c))


def variable_facts(ex, s, c, j, M):
    """constraint c has distinct variables in range: the facts about its variable j"""
    v, x = s.cl(c, j), z3.Int('?x')
    ex.assume(z3.And(v >= 0, v < I(M), s.pos(c, v) == j))
    ex.ctx.add(z3.ForAll([x], z3.Implies(s.pos(c, x) == j, x == v)))


def inner_sum(ex, s, vecs):
    """vecs: name -> lvalue of the sum"""
    g = s.g

    def put(cnt):
        for nm, lv in vecs.items():
            ex.store(lv, s.vec(nm, g['k'], g['c'], cnt))

    def havoc(ex_, st):
        g['cnt'] = I(st.i)
        st['cnt'] = g['cnt']
        variable_facts(ex, s, g['c'], g['cnt'], s.M)
        put(g['cnt'])

    def after(ex_, st):
        out = [('position', eqi(st['cnt'], g['cnt'] + 1))]
        for nm, lv in vecs.items():
            out.append(('%s: one entry per variable so far' % nm, ('eq', ex.rv(lv), s.vec(nm, g['k'], g['c'], g['cnt'] + 1))))
        return out
    return Step(havoc, after, lambda ex_, st: [('first position', eqi(st['cnt'], 0))],
                lambda ex_, st: ex.oblige('all variables of the constraint', eqi(g['cnt'], s.L(g['c']))))


@contract('C02', 'AssembleSchurComplementResiduals', [CP])
def residuals(ex):
    N, M = ex.int('N', 0), ex.int('M', 1)
    s = Sums(ex, N, M, lambda k: I(k), ('AW', 'AQc'), None)

    def sub(k):
        k = isimp(I(k))
        w = fresh_struct(ex, 'conex::WorkspaceSchurComplement', 'sub', AW=Mat(isimp(s.L(I(k))), 1, lambda j, _: s.rhs('AW', k, j)),
                         AQc=Mat(isimp(s.L(I(k))), 1, lambda j, _: s.rhs('AQc', k, j)),
                         inner_product_of_w_and_c=var('wc_of', k), inner_product_of_c_and_Qc=var('cqc_of', k))
        return {'supernodal_assembler': Struct('conex::SupernodalAssembler', {'submatrix_data_': w})}
    L, cl = s.L, s.cl
    man = Struct('conex::ConstraintManager<conex::Container>', {
        'eqs': Vec(N, lambda k: Struct('conex::Container', sub(k)), 'conex::Container'),
        'cliques': Vec(N, lambda i: Vec(isimp(L(I(i))), (lambda ii: lambda j: isimp(cl(ii, I(j))))(I(i)), 'int'), 'std::vector<int>')})
    man = ex.new(man, 'man')
    z = ex.new(fresh_struct(ex, 'conex::WorkspaceSchurComplement', 'sys', G=ex.mat('G', M, M), AW=ex.vec('AW', M), AQc=ex.vec('AQc', M), m_=M), 'sys')
    vecs = {'AW': z / ('f', 'AW'), 'AQc': z / ('f', 'AQc')}
    scal = {'wc': z / ('f', 'inner_product_of_w_and_c'), 'cqc': z / ('f', 'inner_product_of_c_and_Qc')}
    g = s.g

    def havoc(ex_, st):
        k = g['k'] = g['c'] = I(st.i)
        st['i'] = k
        ex.assume(s.L(k) >= 0)
        for nm, lv in vecs.items():
            ex.store(lv, s.vec(nm, k))
        for nm, lv in scal.items():
            ex.store(lv, var('sum_' + nm, k))

    def first(ex_, st):
        return [('first constraint', eqi(st['i'], 0))] + [('%s starts at zero' % nm, ('eq', ex.rv(lv), Mat(M, 1, lambda x, _: ZERO))) for nm, lv in vecs.items()] + \
               [('%s starts at zero' % nm, ('eq', ex.rv(lv), ZERO)) for nm, lv in scal.items()]

    def after(ex_, st):
        k = g['k']
        return [('next constraint', eqi(st['i'], k + 1))] + [('%s: entries of one more constraint' % nm, ('eq', ex.rv(lv), s.done(nm, k))) for nm, lv in vecs.items()] + \
               [('%s: one more constraint' % nm, ('eq', ex.rv(lv), var('sum_' + nm, k) + var(nm + '_of', k))) for nm, lv in scal.items()]
    ex.invariants[('AssembleSchurComplementResiduals', 0)] = Step(havoc, after, first, lambda ex_, st: ex.oblige('all constraints', eqi(g['k'], N)))
    ex.invariants[('AssembleSchurComplementResiduals', 1)] = inner_sum(ex, s, vecs)
    r = ex.run('conex::AssembleSchurComplementResiduals', [ptr(man), ptr(z)])
    ex.oblige('does not throw', r[0] == 'ret')


def kkt_state(ex, N, M, order):
    fs = dict(cliques_=Vec(N, lambda i: Vec(isimp(F('L', Z, Z)(I(i))), (lambda ii: lambda j: isimp(F('cl', Z, Z, Z)(ii, I(j))))(I(i)), 'int'), 'std::vector<int>'))
    fs['data'] = Struct('conex::MatrixData', {'clique_order': Vec(N, lambda k: isimp(order(I(k))), 'int')})
    fs['Pt'] = ex.mat('P', M, M)
    return fs


def assemble(name, full):
    @contract('C02', name, [KKT])
    def p(ex):
        N, M = ex.int('N', 0), ex.int('M', 1)
        order = F('order', Z, Z)
        place_of = lambda e: ex.assume(z3.Implies(z3.And(0 <= e, e < N), z3.And(0 <= order(e), order(e) < N)))
        s = Sums(ex, N, M, lambda k: order(I(k)), ('AW', 'AQc'), None)
        fs = kkt_state(ex, N, M, order)
        asm = ex.new(Vec(N, lambda i: Struct('conex::SupernodalAssemblerStatic', {'id': isimp(I(i)), 'submatrix_data_': Struct('conex::WorkspaceSchurComplement', {
            'AW': Mat(isimp(s.L(I(i))), 1, (lambda ii: lambda j, _: s.rhs('AW', ii, j))(isimp(I(i)))),
            'AQc': Mat(isimp(s.L(I(i))), 1, (lambda ii: lambda j, _: s.rhs('AQc', ii, j))(isimp(I(i)))),
            'inner_product_of_w_and_c': var('wc_of', i), 'inner_product_of_c_and_Qc': var('cqc_of', i)})}), 'x'), 'asm')
        fs['assembler'] = Vec(N, lambda i: ptr(asm / ('at', isimp(I(i)))), 'conex::SupernodalAssemblerBase *')
        this = ex.new(Struct(SK, fs), 'this')
        calls = []
        ex.contracts['SupernodalAssemblerBase::UpdateBlocks'] = lambda ex_, th, args: calls.append(th)
        g = s.g
        idx = lambda st: I(st['e'])

        def havoc0(ex_, st):
            g['e'] = ex.int('e0')
            ex.assume(z3.And(g['e'] >= -1, g['e'] < N))
            place_of(g['e'])
            st['e'] = g['e']
            calls.clear()

        def after0(ex_, st):
            ok = len(calls) == 1 and place(ex, calls[0], asm) is not None
            return [('next constraint', eqi(idx(st), g['e'] - 1)), ('one update', ok),
                    ('of the constraint of this position', ok and eqi(place(ex, calls[0], asm)[0][1], order(g['e'])))]
        ex.invariants[('Assemble', 0)] = Step(havoc0, after0, lambda ex_, st: [('starts at the last position', eqi(idx(st), N - 1))],
                                              lambda ex_, st: (ex.oblige('all constraints are updated', eqi(g['e'], -1)), calls.append('all')))
        if not full:
            r = ex.run(SK + '::Assemble', [], this=this, pred=by_type('()'))
            ex.oblige('does not throw', r[0] == 'ret')
            ex.oblige('constraints are updated', calls == ['all'])
            return
        out = {nm: ex.new(ex.vec(nm + 'old', M), nm) for nm in ('AW', 'AQc')}
        wc = ex.new(ex.real('wcold'), 'wc')

        def havoc(ex_, st):
            e = ex.int('e')
            ex.assume(z3.And(e >= -1, e < N))
            place_of(e)
            st['e'] = e
            g['k'], g['c'] = e, order(e)
            ex.assume(s.L(order(e)) >= 0)
            for nm, lv in out.items():
                ex.store(lv, s.vec(nm, e))
            ex.store(wc, var('sum_wc', e))
            ex.oblige('the constraints are updated before', calls == ['all'])

        def first(ex_, st):
            return [('starts at the last position', eqi(idx(st), N - 1)), ('<w,c> starts at zero', ('eq', ex.rv(wc), ZERO))] + \
                   [('%s starts at zero' % nm, ('eq', ex.rv(lv), Mat(M, 1, lambda x, _: ZERO))) for nm, lv in out.items()]

        def after(ex_, st):
            return [('next constraint', eqi(idx(st), g['k'] - 1)), ('<w,c>: one more constraint', ('eq', ex.rv(wc), var('sum_wc', g['k']) + var('wc_of', order(g['k']))))] + \
                   [('%s: entries of one more constraint' % nm, ('eq', ex.rv(lv), s.done(nm, g['k']))) for nm, lv in out.items()]
        ex.invariants[('Assemble', 1)] = Step(havoc, after, first, lambda ex_, st: ex.oblige('all constraints', eqi(g['k'], -1)))
        ex.invariants[('Assemble', 2)] = inner_sum(ex, s, out)
        r = ex.run(SK + '::Assemble', [ptr(out['AW']), ptr(out['AQc']), ptr(wc)], this=this, pred=by_type('(Eigen'))
        ex.oblige('does not throw', r[0] == 'ret')
    return p


assemble('Assemble', False)
assemble('Assemble.sums', True)


# ---- addresses
TW = 'conex/triangular_matrix_workspace.cc'


def tmw(ex, N, V):
    """a triangular matrix: supernode and position of a variable, separators, blocks"""
    sn, ps, S = F('snode', Z, Z), F('position', Z, Z), F('sepsize', Z, Z)
    sz, sep = F('size', Z, Z), F('sep', Z, Z, Z)
    Dm = ex.new(Vec(N, lambda k: Vec(ex.int('big', 0), lambda x: var('D', k, x), 'double'), 'x'), 'D')
    Om = ex.new(Vec(N, lambda k: Vec(ex.int('big', 0), lambda x: var('O', k, x), 'double'), 'x'), 'O')
    blk = lambda mem, rows, cols: Vec(N, lambda k: MapVal(mem / ('at', isimp(I(k))) / ('at', 0), isimp(rows(I(k))), isimp(cols(I(k)))), 'Eigen::Map<Eigen::MatrixXd, Eigen::Aligned>')
    w = dict(variable_to_supernode_=Vec(V, lambda x: isimp(sn(I(x))), 'int'), variable_to_supernode_position_=Vec(V, lambda x: isimp(ps(I(x))), 'int'),
             diagonal=blk(Dm, sz, sz), off_diagonal=blk(Om, sz, S),
             separators=Vec(N, lambda k: Vec(isimp(S(I(k))), (lambda kk: lambda j: isimp(sep(kk, I(j))))(I(k)), 'int'), 'std::vector<int>'))
    return ex.new(Struct('conex::TriangularMatrixWorkspace', w), 'w'), Dm, Om, sn, ps, S, sz, sep


def element(ex, p, mem):
    """(block, offset) an address points to"""
    lv = p.lv
    q = place(ex, lv, mem)
    if q is None:
        return None
    off = 0
    for st in q[1:]:
        if st[0] == 'at':
            off = iadd(off, st[1])
        elif st[0] == 'map':
            rows, off = st[1], iadd(off, st[3])
        elif st[0] == 'el':
            off = iadd(off, iadd(st[1], imul(st[2], rows)))
        else:
            raise Unsupported('address %s' % (q,))
    return q[0][1], off


@contract('C02', 'LookupAddress', [TW])
def lookup(ex):
    """address of entry (r, c), r >= c: in the diagonal block of the supernode of c, or the row of c in the separator block, column of r"""
    N, V = ex.int('N', 1), ex.int('V', 1)
    w, Dm, Om, sn, ps, S, sz, sep = tmw(ex, N, V)
    r, c = ex.int('r', 0), ex.int('c', 0)
    ex.assume(z3.And(r < V, c < V))
    for x in (r, c):
        ex.assume(z3.And(sn(x) >= 0, sn(x) < N, ps(x) >= 0, ps(x) < sz(sn(x))))
    k0 = ex.int('k0', 0)
    node = sn(c)
    ex.assume(z3.Or(sn(r) == node, z3.And(k0 < S(node), sep(node, k0) == r)))
    k = z3.Int('?k')
    ex.ctx.add(z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < S(node), sep(node, k) == r), k == k0)))

    class Find(Invariant):
        def havoc(self, ex, s):
            self.i = s.i
            s['cnt'] = s.i

        def props(self, ex, s):
            return [('position', eqi(s['cnt'], s.i)), ('not found so far', z3.Implies(sn(r) != node, I(s.i) <= k0))]
    ex.invariants[('LookupAddress', 0)] = Find()
    x = ex.run('conex::LookupAddress', [w, r, c])
    ex.oblige('a stored entry is found', x[0] == 'ret')
    if x[0] != 'ret':
        return
    p = x[1]
    same_node = ex.decide(cmpi('==', sn(r), node))
    e = element(ex, p, Dm if same_node else Om)
    ex.oblige('in the block of the supernode', e is not None and eqi(e[0], node))
    if e is None:
        return
    want = ps(r) + ps(c) * sz(node) if same_node else ps(c) + k0 * sz(node)
    ex.oblige('at the entry of row and column', eqi(e[1], want))


@contract('C02', 'S_S', [TW])
def s_s(ex):
    """the addresses of the lower triangle of the separator's block, columns first: the order Scatter uses"""
    N, V = ex.int('N', 1), ex.int('V', 1)
    w, Dm, Om, sn, ps, S, sz, sep = tmw(ex, N, V)
    c = ex.int('clique', 0)
    ex.assume(c < N)
    n = S(c)
    ex.assume(n >= 0)
    mem = ex.new(Vec(ex.int('big', 0), lambda x: ZERO, 'double'), 'mem')
    T_, A_ = F('T', Z, Z), F('address', Z, Z, Z)
    Y = F('listed', Z, Z)
    y = ex.new(Vec(ex.int('y0', 0), lambda k: Opaque('address'), 'double *'), 'y')
    ex.contracts['conex::LookupAddress'] = lambda ex_, th, args: ptr(mem / ('at', isimp(A_(I(ex.rv(args[1])), I(ex.rv(args[2]))))))
    ex.ctx.add(T_(0) == 0)
    pos = lambda i, j: T_(j) + i - j
    g = {}
    lst = lambda: Vec(g['size'], lambda k: ptr(mem / ('at', isimp(Y(I(k))))), 'double *')

    def outer_havoc(ex_, s):
        g['j'] = ex.int('j', 0)
        ex.assume(z3.And(g['j'] <= n, T_(g['j'] + 1) == T_(g['j']) + n - g['j'], T_(g['j']) >= 0))
        s['j'], s['cnt'] = g['j'], isimp(T_(g['j']))
        ex.store(y, lst())

    def outer(ex_, s):
        return [('next column', eqi(s['j'], g['j'] + 1)), ('position', eqi(s['cnt'], T_(g['j'] + 1)))]

    def inner_havoc(ex_, s):
        g['i'] = ex.int('i')
        # entries so far fit: T(n) is the number of entries
        ex.assume(z3.And(g['i'] >= g['j'], g['i'] <= n, z3.Implies(g['i'] < n, pos(g['i'], g['j']) < I(g['size']))))
        s['i'], s['cnt'] = g['i'], isimp(pos(g['i'], g['j']))
        ex.store(y, lst())

    def inner(ex_, s):
        v = ex.rv(y)
        k = ex.int('k', 0)
        p = pos(g['i'], g['j'])
        ex.assume(z3.And(k < I(g['size']), k != p))
        addr = lambda q: I(place(ex, q, mem)[0][1])
        return [('next row', eqi(s['i'], g['i'] + 1)), ('position', eqi(s['cnt'], p + 1)),
                ('address of the entry of this row and column', addr(v.at(p)) == A_(sep(c, g['i']), sep(c, g['j']))),
                ('other addresses are kept', addr(v.at(k)) == Y(k))]

    def first(ex_, s):
        g['size'] = ex.rv(y).n
        # lemma: n^2 + n is even
        h = ex.int('half', 0)
        ex.assume(z3.And(2 * h == n * n + n, z3.ToReal(n) * z3.ToReal(n) + z3.ToReal(n) == 2 * z3.ToReal(h)))
        return [('first column', z3.And(B(eqi(s['j'], 0)), B(eqi(s['cnt'], 0)))), ('one address per entry of the triangle', eqi(I(g['size']), h))]
    ex.invariants[('S_S', 0)] = Step(outer_havoc, outer, first, lambda ex_, s: ex.oblige('all columns', eqi(g['j'], n)))
    ex.invariants[('S_S', 1)] = Step(inner_havoc, inner, lambda ex_, s: [('first row', z3.And(B(eqi(s['i'], g['j'])), B(eqi(s['cnt'], pos(g['j'], g['j'])))))],
                                     lambda ex_, s: ex.oblige('all rows', eqi(g['i'], n)))
    x = ex.run('conex::TriangularMatrixWorkspace::S_S', [c, ptr(y)], this=w)
    ex.oblige('does not throw', x[0] == 'ret')
    ex.oblige('the list keeps its size', eqi(ex.rv(y).n, g['size']))


@contract('C02', 'DoBind', [CP])
def dobind(ex):
    """position e of the ordering: the blocks of supernode e go to constraint order(e)"""
    N = ex.int('N', 0)
    order = F('order', Z, Z)
    w, Dm, Om, sn, ps, S, sz, sep = tmw(ex, N, 1)
    A_, B_ = F('snsize', Z, Z), F('sepsize_', Z, Z)
    P_ = F('addresses', Z, Z)
    lab = {nm: ex.new(Vec(N, (lambda f: lambda k: Vec(isimp(f(I(k))), lambda j: 0, 'int'))(f), 'std::vector<int>'), nm) for nm, f in (('sn', A_), ('sep', B_))}
    data = ex.new(Struct('conex::MatrixData', {'clique_order': Vec(N, lambda k: isimp(order(I(k))), 'int'), 'supernodes_original_labels': ex.rv(lab['sn']),
                                               'separators_original_labels': ex.rv(lab['sep'])}), 'data')
    ws = ex.rv(w)
    w = ex.new(Struct(ws.t, dict(ws.fs, seperator_diagonal=Vec(N, lambda k: Vec(isimp(P_(I(k))), lambda j: Opaque('address'), 'double *'), 'x'))), 'w')
    asm = ex.new(Vec(N, lambda i: Struct('conex::SupernodalAssembler', {'id': isimp(I(i))}), 'x'), 'asm')
    eqs = ex.new(Vec(N, lambda i: ptr(asm / ('at', isimp(I(i)))), 'x'), 'eqs')
    calls = []
    ex.contracts['SupernodalAssemblerBase::BindDiagonalBlock'] = lambda ex_, th, args: calls.append(('diag', value(ex, args[0]).fs, th))
    ex.contracts['SupernodalAssemblerBase::BindOffDiagonalBlock'] = lambda ex_, th, args: calls.append(('off', value(ex, args[0]).fs, th))
    g = {}

    def havoc(ex_, s):
        e = g['e'] = ex.int('e')
        ex.assume(z3.And(e >= -1, e < N))
        ex.assume(z3.Implies(e >= 0, z3.And(order(e) >= 0, order(e) < N, A_(e) >= 0, B_(e) >= 0, P_(e) >= 0)))
        s['e'] = e
        calls.clear()

    def labels_of(p, nm, e):
        q = place(ex, p, data / ('f', {'sn': 'supernodes_original_labels', 'sep': 'separators_original_labels'}[nm]))
        return q is not None and len(q) == 2 and q[0][0] == 'at' and land(eqi(q[0][1], e), eqi(q[1][1], 0))

    def block_of(p, mem, e):
        q = place(ex, p, mem)
        return q is not None and all(x[0] == 'at' for x in q) and land(eqi(q[0][1], e), *[eqi(x[1], 0) for x in q[1:]])

    def after(ex_, s):
        e = g['e']
        nsn, nsep, npt = (ex.decide(cmpi('>', x, 0)) for x in (A_(e), B_(e), P_(e)))
        want = (['diag'] if nsn else []) + (['off'] if nsn and nsep else []) + (['off'] if npt else [])
        out = [('next position', eqi(s['e'], e - 1)), ('one block of every kind that is not empty', [c[0] for c in calls] == want)]
        if [c[0] for c in calls] != want:
            return out
        for kind, b, th in calls:
            q = place(ex, th, asm)
            out.append(('bound to the constraint of this position', q is not None and eqi(q[0][1], order(e))))
        log = list(calls)
        if nsn:
            b = log.pop(0)[1]
            out.append(('diagonal block', land(eqi(b['num_vars'], A_(e)), labels_of(b['var_data'], 'sn', e), block_of(b['data'], Dm, e), cmpi('!=', b['assign'], 0))))
        if nsn and nsep:
            b = log.pop(0)[1]
            out.append(('separator block', land(eqi(b['num_rows'], A_(e)), eqi(b['num_cols'], B_(e)), labels_of(b['row_data'], 'sn', e), labels_of(b['col_data'], 'sep', e),
                                                block_of(b['data'], Om, e), cmpi('!=', b['assign'], 0), cmpi('!=', b['stride'], -1))))
        if npt:
            b = log.pop(0)[1]
            q = place(ex, b['data_pointers'], w / ('f', 'seperator_diagonal'))
            out.append(('scattered block', land(eqi(b['num_rows'], B_(e)), eqi(b['num_cols'], B_(e)), labels_of(b['row_data'], 'sep', e), labels_of(b['col_data'], 'sep', e),
                                                q is not None and len(q) == 2 and land(eqi(q[0][1], e), eqi(q[1][1], 0)), eqi(b['stride'], -1))))
        return out
    ex.invariants[('DoBind', 0)] = Step(havoc, after, lambda ex_, s: [('starts at the last position', eqi(s['e'], N - 1))], lambda ex_, s: ex.oblige('all positions', eqi(g['e'], -1)))
    r = ex.run('conex::DoBind', [data, w, eqs], pred=lambda n: True)
    ex.oblige('does not throw', r[0] == 'ret')


@contract('C02', 'SetDenseData', [CP])
def dense(ex):
    """the constraint overwrites the coefficients of its own submatrix"""
    m = ex.int('m', 1)
    sub = fresh_struct(ex, 'conex::WorkspaceSchurComplement', 'sub', G=ex.mat('G', m, m), m_=m)
    con = ex.new(Opaque('constraint'), 'con')
    a = ex.new(fresh_struct(ex, 'conex::SupernodalAssembler', 'a', submatrix_data_=sub, num_variables_=m, workspace_=ptr(con)), 'a')
    calls = []

    def cs(ex_, th, args):
        calls.append(args)
    ex.contracts['conex::ConstructSchurComplementSystem'] = cs
    r = ex.run('conex::SupernodalAssembler::SetDenseData', [], this=a)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('one construction', len(calls) == 1)
    if len(calls) == 1:
        c, init, out = calls[0]
        ex.oblige('of this constraint', same(ex.rv(c) if isinstance(ex.rv(c), Ptr) else c, con))
        ex.oblige('overwriting', bsimp(B(ex.rv(init))) if is_bool(ex.rv(init)) else cmpi('!=', ex.rv(init), 0))
        o = ex.rv(out)
        ex.oblige('into its own submatrix', same(o if isinstance(o, Ptr) else out, a / ('f', 'submatrix_data_')))
