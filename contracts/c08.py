"""C08: two-sided inequality preprocessing preserves the feasible set."""
from common import *

ASSUMPTIONS = ['mathematical lemma (induction over rows): the loop contract of one row, for arbitrary previous outputs, gives the set of all produced rows',
               'mathematical lemma: scaling a one-sided inequality or an equation by a positive number keeps its solutions',
               'precondition: equal bounds are finite (below 1e8 in magnitude)']
A = lambda i, j: var('A', i, j)
LIM = Fraction(10) ** 8


def multiple(ex, name, Arow, b, r, a, ub, n):
    """row r of (Arow, b) is a positive multiple of (a, ub)"""
    row, rhs = (lambda j: Arow.at(r, j)), b.at(r, I(0))
    ex.oblige('%s: one right-hand side column, as many columns as variables' % name, land(cmpi('==', Arow.cols, n), cmpi('==', b.cols, 1)))
    ex.oblige_eq('%s: parallel to the row of A' % name, Mat(n, n, lambda j, k: row(j) * a(k)), Mat(n, n, lambda j, k: row(k) * a(j)))
    ex.oblige_eq('%s: bound scaled like the row' % name, Mat(n, 1, lambda j, _: row(j) * ub), Mat(n, 1, lambda j, _: rhs * a(j)))
    j = ex.int('col', 0)
    c = ex.ctx.child([B(cmpi('<', j, n))])
    old, ex.ctx = ex.ctx, c
    try:
        s = cmp_real(c, '>=', row(j) * a(j), ZERO)
        z = cmp_real(c, '==', a(j), ZERO)
        ex.oblige('%s: same sign' % name, s)
        ex.oblige('%s: zero exactly where the row is zero' % name, B(cmp_real(c, '==', row(j), ZERO)) == B(z))
    finally:
        ex.ctx = old
    ex.oblige('%s: bound has the same sign' % name, cmp_real(ex.ctx, '>=', rhs * ub, ZERO))
    ex.oblige('%s: bound is zero exactly when the given bound is' % name,
              B(cmp_real(ex.ctx, '==', rhs, ZERO)) == B(cmp_real(ex.ctx, '==', const(ub), ZERO)))


OUT = ('Aineq', 'bineq', 'Aeq', 'beq')


class Rows(Invariant):
    def __init__(self, n, rows, lv):
        self.n, self.rows, self.lv, self.state = n, rows, lv, 0

    def init(self, ex, s):
        pass

    def havoc(self, ex, s):
        i = ex.int('row')
        ex.assume(z3.And(i >= 0, i <= I(self.rows)))
        s['i'] = i
        self.i = i
        self.p, self.q = arbitrary(ex, self.lv, self.n)
        self.state = 1

    def props(self, ex, s):
        if self.state < 2:
            self.state += 1 if self.state else 0
            return []
        one_row(ex, self.lv, self.n, self.i, self.p, self.q)
        return [('next row', cmpi('==', s['i'], iadd(self.i, 1)))]


def arbitrary(ex, lv, n):
    """outputs with p inequalities and q equations (an empty output has arbitrary width)"""
    p, q = ex.int('p', 0), ex.int('q', 0)
    for nm, r, c in (('Aineq', p, n), ('bineq', p, 1), ('Aeq', q, n), ('beq', q, 1)):
        if ex.decide(cmpi('==', r, 0)):
            ex.store(lv[nm], Mat(0, ex.int('width_' + nm, 0), lambda i, j: ZERO))
        else:
            f = (lambda nm: (lambda i, j: var(nm + '0', i, j)))(nm)
            ex.store(lv[nm], Mat(r, c, f))
    return p, q


def one_row(ex, lv, n, i, p, q):
    v = {k: ex.rv(lv[k]) for k in OUT}
    lb, ub = var('lb', i), var('ub', i)
    a = lambda j: A(i, j)
    na = lambda j: -A(i, j)
    eq = cmp_real(ex.ctx, '==', lb, ub)
    hasub, haslb = cmp_real(ex.ctx, '<', ub, const(LIM)), cmp_real(ex.ctx, '>', lb, const(-LIM))
    ex.assume(z3.Implies(B(eq), z3.And(B(hasub), B(haslb))))
    for nm, r in (('Aineq', p), ('bineq', p), ('Aeq', q), ('beq', q)):
        m = v[nm]
        w = 1 if nm[0] == 'b' else n
        ex.oblige_eq('rows already present in %s are kept' % nm, Mat(r, w, lambda x, y: m.at(x, y)), Mat(r, w, lambda x, y: var(nm + '0', x, y)))
    if ex.decide(eq):
        ex.oblige('equal bounds: one equation, no inequality', land(cmpi('==', v['Aeq'].rows, iadd(q, 1)), cmpi('==', v['beq'].rows, iadd(q, 1)),
                                                                   cmpi('==', v['Aineq'].rows, p), cmpi('==', v['bineq'].rows, p)))
        multiple(ex, 'equation', v['Aeq'], v['beq'], q, a, ub, n)
        return
    u, l = ex.decide(hasub), ex.decide(haslb)
    k = iadd(p, int(u) + int(l))
    ex.oblige('different bounds: no equation', land(cmpi('==', v['Aeq'].rows, q), cmpi('==', v['beq'].rows, q)))
    ex.oblige('one inequality per finite bound', land(cmpi('==', v['Aineq'].rows, k), cmpi('==', v['bineq'].rows, k)))
    pu, pl = p, iadd(p, 1 if u else 0)
    if u and l:
        j = z3.Int('?j')
        if prove_eq(ex.ctx, v['bineq'].at(p, I(0)) * lb, -v['bineq'].at(p, I(0)) * lb * 0 + v['bineq'].at(p, I(0)) * lb) and \
           prove_eq(ex.ctx, v['Aineq'].at(p, j) * lb, v['bineq'].at(p, I(0)) * A(i, j)):
            pu, pl = pl, p         # lower bound first
    if u:
        multiple(ex, 'upper bound', v['Aineq'], v['bineq'], pu, a, ub, n)
    if l:
        multiple(ex, 'lower bound', v['Aineq'], v['bineq'], pl, na, -lb, n)


from terms import prove_eq  # noqa: E402


def start(ex, rows):
    n = ex.int('n', 1)
    lv = {k: ex.new(ex.mat(k, 0, 0), k) for k in OUT}
    args = [ex.mat('A', rows, n), ex.vec('lb', rows), ex.vec('ub', rows)] + [ptr(lv[k]) for k in OUT]
    return n, lv, args


@contract('C08', 'PreprocessLinearInequality', [LC])
def prep(ex):
    rows = ex.int('rows', 0)
    n, lv, args = start(ex, rows)
    inv = Rows(n, rows, lv)
    ex.invariants[('PreprocessLinearInequality', 0)] = inv
    r = ex.run('conex::PreprocessLinearInequality', args)
    ex.oblige('does not throw', r[0] == 'ret')


@contract('C08', 'PreprocessLinearInequality.row', [LC])
def prep_row(ex):
    """one row, arbitrary previous outputs (independent of the shape of the loop)"""
    n, lv, args = start(ex, 1)
    p, q = arbitrary(ex, lv, n)
    r = ex.run('conex::PreprocessLinearInequality', args)
    ex.oblige('does not throw', r[0] == 'ret')
    one_row(ex, lv, n, 0, p, q)


@contract('C08', 'CONEX_AddLinearInequalities', [CAPI, LC, EQ])
def capi(ex):
    """the C interface hands the data to the preprocessing and its results to the program"""
    rows, n = ex.int('rows', 0), ex.int('n', 1)
    p, q = ex.int('p', 0), ex.int('q', 0)
    log = []

    def prep(ex_, this, args):
        ex.oblige_eq('matrix', value(ex, args[0]), ex.mat('A', rows, n))
        ex.oblige_eq('lower bounds', value(ex, args[1]), ex.vec('lb', rows))
        ex.oblige_eq('upper bounds', value(ex, args[2]), ex.vec('ub', rows))
        for a, nm, r, c in zip(args[3:], OUT, (p, p, q, q), (n, 1, n, 1)):
            ex.oblige('outputs start empty', cmpi('==', value(ex, a).rows, 0))
            ex.store(a.lv, ex.mat(nm, r, c))
    ex.contracts['conex::PreprocessLinearInequality'] = prep

    def addc(ex_, this, args):
        log.append(value(ex, args[0]))
        return True
    ex.contracts['Program::AddConstraint'] = addc
    prog = ex.new(Opaque('program'), 'prog')
    mem = ex.new(ex.mat('A', rows, n), 'A')
    lb, ub = ex.new(ex.vec('lb', rows), 'lb'), ex.new(ex.vec('ub', rows), 'ub')
    r = ex.run('CONEX_AddLinearInequalities', [ptr(prog), ptr(mem), rows, n, ptr(lb), rows, ptr(ub), rows])
    ex.oblige('does not throw', r[0] == 'ret')
    want = []
    if ex.decide(cmpi('>', p, 0)):
        want.append(('LinearConstraint', 'constraint_matrix_', 'constraint_affine_', 'Aineq', 'bineq', p))
    if ex.decide(cmpi('>', q, 0)):
        want.append(('EqualityConstraints', 'A_', 'b_', 'Aeq', 'beq', q))
    got = {v.t.split('::')[-1]: v for v in log}
    ex.oblige('one constraint per kind of row', len(log) == len(want) and set(got) == {w[0] for w in want})
    for t, fa, fb, na, nb, k in want:
        ex.oblige_eq('%s: matrix' % t, got[t].fs[fa], ex.mat(na, k, n))
        ex.oblige_eq('%s: right-hand side' % t, got[t].fs[fb], ex.mat(nb, k, 1))
