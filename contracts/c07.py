"""C07: barrier-parameter selection respects its bounds."""
from common import *
import sys as _sys
from terms import prove_eq

DIV = 'conex/divergence.cc'
MAXD = const(Fraction(_sys.float_info.max))
ASSUMPTIONS = ['preconditions: bound on the maximum norm >= 0; spectra are consistent: lambda_min <= lambda_max, |lambda|^2 <= squared norm, rank >= 0',
               'comparisons with the square root of a negative number are false (as with NaN)',
               'k ranges over the representable interval [-max, max]',
               'definition of the ghost predicate In(i): all rows before i satisfy |d0 + k (d1 - d0)| <= bound']


def search_params(ex):
    return ex.new(fresh_struct(ex, 'conex::LineSearchParameters', 'params', c0_weight=ex.real('c0w'), c1_weight=ex.real('c1w'),
                               dinf_upper_bound=ex.real('D')), 'params')


def R(ex, op, a, b):
    return cmp_real(ex.ctx, op, const(a), const(b))


class Interval(Invariant):
    """lower <= k <= upper exactly when all rows so far stay within the bound at k"""

    def __init__(self, n, lo, up, k, row, In):
        self.n, self.lo, self.up, self.k, self.row, self.In = n, lo, up, k, row, In
        self.at = 0
        self.i = 0

    def havoc(self, ex, s):
        self.i = i = ex.int('row')
        ex.assume(z3.And(i >= 0, i <= I(self.n)))
        s['i'] = i
        ex.store(self.lo, ex.real('lo'))
        ex.store(self.up, ex.real('up'))
        # the definition of In, instantiated
        ex.assume(z3.Implies(i < I(self.n), self.In(i + 1) == z3.And(self.In(i), B(self.row(i)))))
        ex.assume(z3.Implies(i < I(self.n), z3.Implies(self.In(I(self.n)), self.In(i + 1))))
        self.at = 1

    def props(self, ex, s):
        i = s['i']
        lo, up = ex.rv(self.lo), ex.rv(self.up)
        p = [('range of the index', both(cmpi('>=', i, 0), cmpi('<=', i, self.n)))]
        if self.at:
            if self.at == 2:
                p.append(('one row further', cmpi('==', i, iadd(self.i, 1))))
            self.at = 2
        inside = both(R(ex, '<=', lo, self.k), R(ex, '<=', self.k, up))
        p += [('bounds are representable', both(R(ex, '>=', lo, -MAXD), R(ex, '<=', up, MAXD))),
              ('interval = set of all k within the bound', inside == self.In(I(i)))]
        return p


def both(*cs):
    return z3.And(*[B(c) for c in cs])


@contract('C07', 'Linear.PerformLineSearch', [LC])
def line_search(ex):
    n, m, M = ex.int('n', 0), ex.int('m', 0), ex.int('M', 0)
    ex.assume(M >= m)
    o = linear(ex, n, m)
    params = search_params(ex)
    D = var('D')
    ex.assume(R(ex, '>=', D, ZERO))
    k = ex.real('k')
    ex.assume(both(R(ex, '>=', k, -MAXD), R(ex, '<=', k, MAXD)))
    def slack(ex_, this, args):
        # contract Linear.ComputeNegativeSlack; the value is arbitrary here
        y = value(ex, args[1])
        which = '1' if prove_eq(ex.ctx, y.at(z3.Int('?i'), I(0)), var('y1', z3.Int('?i'))) else '0'
        ex.oblige_eq('slack at y%s' % which, y, ex.vec('y' + which, M))
        ex.oblige_eq('weight of the affine term at y%s' % which, value(ex, args[0]), var('c%sw' % which))
        ex.store(args[2].lv, ex.vec('ns' + which, n))
    ex.contracts['LinearConstraint::ComputeNegativeSlack'] = slack
    d = lambda i, y, c: 1 + var('w', i) * var('ns0' if y == 'y0' else 'ns1', i)
    nz = T.Normalizer(ex.ctx)

    def row(i):
        d0, d1 = d(i, 'y0', 'c0w'), d(i, 'y1', 'c1w')
        e = nz.unpoly(nz.normal(d0 + k * (d1 - d0)))
        return both(R(ex, '<=', e, D), R(ex, '>=', e, -D))
    In = z3.Function('In', z3.IntSort(), z3.BoolSort())
    ex.assume(In(0))
    out = ex.new(fresh_struct(ex, 'conex::LineSearchOutput', 'out', upper_bound=MAXD, lower_bound=-MAXD), 'out')
    inv = Interval(n, out / ('f', 'lower_bound'), out / ('f', 'upper_bound'), k, row, In)
    ex.invariants['*'] = inv
    r = ex.run('conex::PerformLineSearch', [ptr(o), params, ex.vec('y0', M), ex.vec('y1', M), ptr(out)], pred=by_type('LinearConstraint *'))
    ex.oblige('does not throw', r[0] == 'ret')
    lo, up = ex.rv(inv.lo), ex.rv(inv.up)
    ok = In(I(n))
    if ex.decide(B(r[1])):
        ex.oblige('failure only if no k is within the bound for all rows', z3.Not(ok))
    else:
        ex.oblige('success only with a nonempty interval', both(R(ex, '<=', lo, up), R(ex, '>=', lo, -MAXD), R(ex, '<=', up, MAXD)))
        ex.oblige('the interval is the set of all k within the bound for all rows', both(R(ex, '<=', lo, k), R(ex, '<=', k, up)) == ok)
    ex.oblige_eq('the scaling point is kept', ex.rv(o / ('f', 'workspace_') / ('f', 'W')), ex.vec('w', n))


@contract('C07', 'Linear.ComputeNegativeSlack', [LC])
def neg_slack(ex):
    n, m, M = ex.int('n', 0), ex.int('m', 0), ex.int('M', 0)
    ex.assume(M >= m)
    o = linear(ex, n, m)
    z = ex.new(ex.vec('z', n), 'z')
    r = ex.run('LinearConstraint::ComputeNegativeSlack', [ex.real('cw'), ex.vec('y', M), ptr(z)], this=o)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('A y - weight c', ex.rv(z), Mat(n, 1, lambda i, _: Sum(0, m, lambda j: var('A', i, j) * var('y', j)) - var('cw') * var('c', i)))


# ---------------------------------------------------------------- all constraints of a program
def solver_mock(ex, S, expect):
    """SupernodalKKTSolver: SolveInPlace by contract (C03); expect: name -> required right-hand side"""
    calls = []

    def solve(ex_, this, args):
        v = value(ex, args[0])
        i = z3.Int('?i')
        which = [k for k, f in expect.items() if prove_eq(ex.ctx, v.at(i, I(0)), f(i))]
        if not which:
            k = list(expect)[min(len(calls), len(expect) - 1)]
            ex.oblige_eq('right-hand side of %s' % k, v, Mat(S, 1, lambda a, _: expect[k](a)))
            which = [k]
        ex.oblige('dimension of the right-hand side', cmpi('==', v.rows, S))
        calls.append(which[0])
        ex.store(value_lv(ex, args[0]), ex.vec(which[0], S))
        return True
    ex.contracts['SupernodalKKTSolver::SolveInPlace'] = solve
    return calls


def value_lv(ex, a):
    while True:
        b = a.lv if isinstance(a, Ptr) else ex.load(a)
        if not isinstance(b, (LV, Ptr)):
            return a
        a = b


@contract('C07', 'ComputeMuFromLineSearch', [CP])
def mu_line_search(ex):
    N = ex.int('N', 0)
    man, L, cl, S = manager(ex, N)
    fail = z3.Function('fail', z3.IntSort(), z3.BoolSort())
    calls = solver_mock(ex, S, {'y0': lambda i: -2 * var('AW', i), 'y1': lambda i: var('AQc', i) + var('b', i) - 2 * var('AW', i)})

    def search(ex_, this, args):
        k = constraint_id(ex, args[0])
        if k is None:
            return NotImplemented
        p = value(ex, args[1])
        ex.oblige_eq('weight of the affine term at k = 0', p.fs['c0_weight'], ZERO)
        ex.oblige_eq('weight of the affine term at k = 1', p.fs['c1_weight'], var('cw'))
        ex.oblige_eq('the configured bound', p.fs['dinf_upper_bound'], var('D'))
        for a, y in ((args[2], 'y0'), (args[3], 'y1')):
            ex.oblige_eq('each constraint gets the values of its own variables (%s)' % y, value(ex, a),
                         Mat(L(I(k)), 1, lambda j, _: var(y, cl(I(k), I(j)))))
        o = args[4].lv
        ex.store(o / ('f', 'upper_bound'), var('up', k))
        ex.store(o / ('f', 'lower_bound'), var('lo', k))
        return fail(I(k))
    ex.contracts['conex::PerformLineSearch'] = search
    y = ex.new(ex.vec('ws', S), 'y')
    solver = ex.new(Ptr(ex.new(Opaque('solver'), 'solver'), False), 'up')
    r = ex.run('conex::ComputeMuFromLineSearch', [man, solver, ex.real('D'), ex.vec('AQc', S), ex.real('cw'), ex.vec('b', S), ex.vec('AW', S), ptr(y)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('the two directions are solved for', set(calls) == {'y0', 'y1'})
    k = z3.Int('?k')
    anyfail = z3.Exists([k], z3.And(k >= 0, k < I(N), fail(k)))
    if ex.decide(anyfail):
        ex.oblige_eq('-1 if a line search fails', r[1], const(-1))
        return
    if ex.decide(cmpi('>', N, 0)):
        lo = T.Max(-MAXD, T.Big('max', 0, N, lambda k: var('lo', k)))
        up = T.Min(MAXD, T.Big('min', 0, N, lambda k: var('up', k)))
    else:
        lo, up = -MAXD, MAXD
    if ex.decide(R(ex, '<=', lo, up)):
        ex.oblige_eq('the largest k in the intersection of all intervals', r[1], up)
    else:
        ex.oblige_eq('-1 if the intersection is empty', r[1], const(-1))


# ---------------------------------------------------------------- divergence bound
def spectrum(ex):
    e = ex.new(fresh_struct(ex, 'conex::WeightedSlackEigenvalues', 'p', frobenius_norm_squared=ex.real('F'), trace=ex.real('T'),
                            lambda_min=ex.real('l'), lambda_max=ex.real('u'), rank=ex.real('n')), 'p')
    F, t, l, u, n = [var(x) for x in ('F', 'T', 'l', 'u', 'n')]
    ex.assume(both(R(ex, '<=', l, u), R(ex, '>=', F, l * l), R(ex, '>=', F, u * u), R(ex, '>=', n, ZERO)))
    return e, F, t, l, u, n


def norm_inf(ex, k, l, u):
    """max(|k u - 1|, |k l - 1|) by cases"""
    def ab(x):
        return x if ex.decide(R(ex, '>=', x, ZERO)) else -x
    a, b = ab(k * u - 1), ab(k * l - 1)
    return a if ex.decide(R(ex, '>=', a, b)) else b


@contract('C07', 'DivergenceUpperBound', [DIV])
def div_bound(ex):
    p, F, t, l, u, n = spectrum(ex)
    k = ex.real('k')
    d = norm_inf(ex, k, l, u)
    ex.assume(B(R(ex, '<', d, ONE)))
    r = ex.run('conex::DivergenceUpperBound', [k, p])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('|k s - e|^2 / (1 - |k s - e|_inf)', r[1], (k * k * F - 2 * k * t + n) * T.inv(1 - d))


def lower_root(ex, k, c, F, t, l, u, n):
    """k solves (F k^2 - 2 t k + n) / (l k) = c and k <= 2 / (l + u)"""
    return both(R(ex, '<=', k * (u + l), const(2)), R(ex, '>=', k, ZERO), R(ex, '==', k * k * F - 2 * k * t + n, c * l * k))


def upper_root(ex, k, c, F, t, l, u, n):
    """k solves (F k^2 - 2 t k + n) / (2 - u k) = c and k >= 2 / (l + u)"""
    return both(R(ex, '>=', k * (u + l), const(2)), R(ex, '==', k * k * F - 2 * k * t + n, c * (2 - u * k)))


def branch(name, lower):
    @contract('C07', name, [DIV])
    def inv(ex):
        ex.nan_sqrt = True
        p, F, t, l, u, n = spectrum(ex)
        ex.assume(R(ex, '>', l, ZERO))
        ex.assume(R(ex, '>', F, ZERO))
        ex.assume(R(ex, '>', u + l, ZERO))
        c = ex.real('c')
        r = ex.run('conex::' + name, [c, p])
        ex.oblige('does not throw', r[0] == 'ret')
        k = r[1]
        if not ex.decide(R(ex, '!=', k, const(-1))):
            return
        ex.oblige('within the range of the branch', both(R(ex, '<=' if lower else '>=', k * (u + l), const(2)), R(ex, '>=', k, ZERO)))
        ex.oblige_eq('root of the equation of the branch', k * k * F - 2 * k * t + n, c * (l * k if lower else 2 - u * k))


branch('InverseLambdaMinBranch', True)
branch('InverseLambdaMaxBranch', False)


@contract('C07', 'DivergenceUpperBoundInverse', [DIV])
def div_inverse(ex):
    p, F, t, l, u, n = spectrum(ex)
    c = ex.real('c')

    def by_contract(nm, root):
        def f(ex_, this, args):
            ex.oblige_eq('%s: the requested bound' % nm, value(ex, args[0]), c)
            q = value(ex, args[1])
            for fld, w in (('frobenius_norm_squared', F), ('trace', t), ('lambda_min', l), ('lambda_max', u), ('rank', n)):
                ex.oblige_eq('%s: %s' % (nm, fld), q.fs[fld], w)
            k = ex.real(nm)
            # for a spectrum that is not positive nothing is known about the result
            ex.assume(z3.Implies(both(R(ex, '>', l, ZERO), R(ex, '!=', k, const(-1))), root(ex, k, c, F, t, l, u, n)))
            return k
        return f
    ex.contracts['conex::InverseLambdaMinBranch'] = by_contract('k1', lower_root)
    ex.contracts['conex::InverseLambdaMaxBranch'] = by_contract('k2', upper_root)
    r = ex.run('conex::DivergenceUpperBoundInverse', [c, p])
    ex.oblige('does not throw', r[0] == 'ret')
    k = r[1]
    if not ex.decide(R(ex, '>', k, ZERO)):
        return
    d = norm_inf(ex, k, l, u)
    ex.oblige('a valid k has a finite bound', R(ex, '<', d, ONE))
    ex.oblige_eq('the bound at k is the requested one', k * k * F - 2 * k * t + n, c * (1 - d))


@contract('C07', 'ComputeMuFromDivergence', [CP])
def mu_divergence(ex):
    """a valid inverse is used as it is; the bound requested is the configured one times the rank of the cone"""
    N = ex.int('N', 0)
    man, L, cl, S = manager(ex, N)
    calls = solver_mock(ex, S, {'y': lambda i: var('AQc', i) - var('b', i)})
    rank = ex.int('rank', 0)
    eig = {'frobenius_norm_squared': 'F', 'trace': 'T', 'lambda_min': 'l', 'lambda_max': 'u'}

    def spec(ex_, this, args):
        ex.oblige_eq('spectrum at the solution', value(ex, args[1]), ex.vec('y', S))
        ex.oblige_eq('weight of the affine term', value(ex, args[2]), var('cw'))
        for f, v in eig.items():
            ex.store(args[3].lv / ('f', f), ex.real(v))
    ex.contracts['conex::GetWeightedSlackEigenvalues'] = spec
    k = ex.real('k')

    def inv(ex_, this, args):
        ex.oblige_eq('requested bound', value(ex, args[0]), var('dub') * T.toreal(rank))
        p = value(ex, args[1])
        for f, v in eig.items():
            ex.oblige_eq('spectrum handed to the inverse: ' + f, p.fs[f], var(v))
        ex.oblige_eq('spectrum handed to the inverse: rank', p.fs['rank'], T.toreal(rank))
        return k
    ex.contracts['conex::DivergenceUpperBoundInverse'] = inv
    ex.assume(R(ex, '>', k, ZERO))
    rec = ex.find_rec('conex::SolverConfiguration')
    cfg = ex.new(fresh_struct(ex, 'conex::SolverConfiguration', 'config', divergence_upper_bound=ex.real('dub')), 'config')
    y = ex.new(ex.vec('ws', S), 'y')
    solver = ex.new(Ptr(ex.new(Opaque('solver'), 'solver'), False), 'up')
    r = ex.run('conex::ComputeMuFromDivergence', [man, solver, ex.vec('AQc', S), ex.real('cw'), ex.vec('b', S), cfg, rank, ptr(y)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('a valid inverse is returned unchanged', r[1], k)


@contract('C07', 'ApplyLimits', [CP])
def limits(ex):
    x, lb, ub = ex.real('x'), ex.real('lb'), ex.real('ub')
    ex.assume(R(ex, '<=', lb, ub))
    z = ex.new(x, 'x')
    r = ex.run('conex::ApplyLimits', [ptr(z), lb, ub])
    ex.oblige('does not throw', r[0] == 'ret')
    v = ex.rv(z)
    ex.oblige('within the limits', both(R(ex, '>=', v, lb), R(ex, '<=', v, ub)))
    ex.oblige('unchanged if it was', z3.Implies(both(R(ex, '>=', x, lb), R(ex, '<=', x, ub)), B(R(ex, '==', v, x))))
    ex.oblige('clamped to the limit that was exceeded', both(z3.Implies(B(R(ex, '>', x, ub)), B(R(ex, '==', v, ub))),
                                                           z3.Implies(B(R(ex, '<', x, lb)), B(R(ex, '==', v, lb)))))


# ---------------------------------------------------------------- spectrum of Q(w^1/2)(c_weight c - A y)
from c06 import step_fn, quad_pre, quad_sqrt, qc_q, mnorm, slack_contract, eig_contract, mm, w_, S_, hslack, setup, eq_h, herm_fn, hm, tr_ip  # noqa: E402
from c05 import soc_param, sqrt_contract, soc_q, s1, QC, SOC, LMI, PSD, HERM, JORDAN, opaque_products, hyper  # noqa: E402
from common import soc, lmi  # noqa: E402
ASSUMPTIONS += ['ApproximateEigenvalues (PSD and Hermitian cones) by contract: any vector of at least one value; its extreme values are the reported ones (the approximation is not part of the property)',
                'precondition: at least one constraint; eigenvalues are within the representable range']
EIG = {'frobenius_norm_squared': 'F0', 'trace': 'T0', 'lambda_min': 'l0', 'lambda_max': 'u0'}
A = lambda *i: var('A', *i)
Y = lambda i: var('y', i)
cw = var('cw')


def spec_out(ex):
    return ex.new(fresh_struct(ex, 'conex::WeightedSlackEigenvalues', 'p', limit=ex.real('limit0'), rank=ex.real('rank0'), **{f: ex.real(v) for f, v in EIG.items()}), 'p')


def spec_is(ex, p, lo, hi, F, t):
    for f, what, v in (('lambda_min', 'smallest eigenvalue', lo), ('lambda_max', 'largest eigenvalue', hi),
                       ('frobenius_norm_squared', 'squared norm', F), ('trace', 'trace', t)):
        ex.oblige_eq(what, ex.rv(p / ('f', f)), v)


@contract('C07', 'GetWeightedSlackEigenvalues', [CP])
def spec_all(ex):
    """over all constraints: the extreme eigenvalues, the sums of the traces and of the squared norms"""
    N = ex.int('N', 1)
    man, L, cl, S = manager(ex, N)
    k, j = z3.Ints('?k ?j')

    def one(ex_, this, args):
        i = constraint_id(ex, args[0])
        if i is None:
            return NotImplemented
        ex.oblige_eq('each constraint gets the values of its own variables', value(ex, args[1]),
                     Mat(L(I(i)), 1, lambda j, _: var('y', cl(I(i), I(j)))))
        ex.oblige_eq('weight of the affine term', value(ex, args[2]), cw)
        o = args[3].lv
        for v in ('l', 'u'):
            ex.assume(both(R(ex, '>=', var(v, i), -MAXD), R(ex, '<=', var(v, i), MAXD)))
        for f, v in (('frobenius_norm_squared', 'F'), ('trace', 'T'), ('lambda_min', 'l'), ('lambda_max', 'u')):
            ex.store(o / ('f', f), var(v, i))
    ex.contracts['conex::GetWeightedSlackEigenvalues'] = one
    p = spec_out(ex)
    r = ex.run(step_fn(ex, 'GetWeightedSlackEigenvalues', 'ConstraintManager<'), [ptr(man), ex.vec('y', S), cw, ptr(p)])
    ex.oblige('does not throw', r[0] == 'ret')
    big = lambda op, v: T.Big(op, 0, N, lambda k: var(v, k))
    spec_is(ex, p, T.Min(MAXD, big('min', 'l')), T.Max(-MAXD, big('max', 'u')), Sum(0, N, lambda k: var('F', k)), Sum(0, N, lambda k: var('T', k)))


def spec_run(ex, o, m, sig, f=None):
    p = spec_out(ex)
    r = ex.run(f or step_fn(ex, 'GetWeightedSlackEigenvalues', '(%s *' % sig), [ptr(o), ex.new(ex.vec('y', m), 'y'), cw, ptr(p)])
    ex.oblige('does not throw', r[0] == 'ret')
    return p


@contract('C07', 'Linear.GetWeightedSlackEigenvalues', [LC])
def spec_linear(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = linear(ex, n, m)
    ex.real('cw')
    p = spec_run(ex, o, m, 'LinearConstraint')
    s = lambda k: var('w', k) * (Sum(0, m, lambda j: A(k, j) * Y(j)) - cw * var('c', k))
    spec_is(ex, p, -T.Big('max', 0, n, s), -T.Big('min', 0, n, s), Sum(0, n, lambda k: s(k) * s(k)), -Sum(0, n, s))
    ex.oblige_eq('the scaling point is kept', ex.rv(o / ('f', 'workspace_') / ('f', 'W')), ex.vec('w', n))


def two_eigenvalues(ex_, this, args):
    return Mat(2, 1, lambda i, j: T.ite(cmpi('==', i, 0), var('eva'), var('evb')))


def two_spectrum(ex, p):
    a, b = var('eva'), var('evb')
    # (the sum over both of any function is the one over the larger and the smaller)
    hi, lo = T.Max(a, b), T.Min(a, b)
    spec_is(ex, p, -hi, -lo, hi * hi + lo * lo, -hi - lo)


@contract('C07', 'SpectralDecompSpinFactor.Compute', [SOC])
def spin_eigenvalues(ex):
    """eigenvalues x0 +- |x1|; the weights of NormInf and GetWeightedSlackEigenvalues rest on it"""
    n = ex.int('n', 1)
    cls = [q for tu in ex.tus for q in tu.funcs if q.endswith('SpectralDecompSpinFactor::Compute')]
    if not cls:
        raise cast.ExtractError('no SpectralDecompSpinFactor::Compute')
    zero = ex.choose('x1 = 0')
    x = Mat(iadd(n, 1), 1, lambda i, j: T.ite(cmpi('==', i, 0), var('x0'), ZERO if zero else var('x', isubt(i, 1))))
    nrm = T.fn('sqrt', Sum(0, n, lambda k: x.at(iadd(k, 1), I(0)) * x.at(iadd(k, 1), I(0))))
    ex.assume(cmp_real(ex.ctx, '==' if zero else '>', nrm, ZERO))
    o = ex.new(fresh_struct(ex, 'conex::' + cls[0].split('conex::')[-1].rsplit('::', 1)[0], 'spec', n_=n, q_=ex.vec('q', n), norm_of_q_=ex.real('nq'),
                            eigenvalues_=ex.vec('ev', 2)), 'spec')
    r = ex.run(cls[0], [x], this=o)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('x0 + |x1|, x0 - |x1|', ex.rv(o / ('f', 'eigenvalues_')), Mat(2, 1, lambda i, j: var('x0') + T.ite(cmpi('==', i, 0), nrm, -nrm)))


@contract('C07', 'SOC.GetWeightedSlackEigenvalues', [SOC])
def spec_soc(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    s0, W0, W1 = soc_param(ex, n)
    o, w0 = soc(ex, n, m, W0, W1)
    ex.contracts['conex::Sqrt'] = sqrt_contract(s0, W0, W1, n)
    f = lambda k: Sum(0, m, lambda j: A(k, j) * Y(j)) - cw * var('c', k)
    u = lambda k: soc_q(s0, lambda a: s1(a), n, f, k)
    done = []

    def compute(ex_, this, args):
        x = value(ex, args[0])
        ex.oblige_eq('eigenvalues of Q(w^1/2)(A y - c_weight c): 0', x.at(I(0), I(0)), u(None))
        ex.oblige_eq('eigenvalues of Q(w^1/2)(A y - c_weight c): 1', Mat(n, 1, lambda k, _: x.at(iadd(k, 1), I(0))), Mat(n, 1, lambda k, _: u(k)))
        done.append(1)
    ex.contracts['SpectralDecompSpinFactor::Compute'] = compute
    ex.contracts['SpectralDecompSpinFactor::Eigenvalues'] = two_eigenvalues
    p = spec_run(ex, o, m, 'SOCConstraint')
    ex.oblige('the eigenvalues are computed', bool(done))
    two_spectrum(ex, p)
    ex.oblige_eq('w0 is kept', ex.rv(w0), W0)
    ex.oblige_eq('w1 is kept', ex.rv(o / ('f', 'workspace_') / ('f', 'W1')), W1)


@contract('C07', 'Quadratic.GetWeightedSlackEigenvalues', [QC])
def spec_quad(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o, w0, dot, s0, W0, w = quad_pre(ex, n, m, ex.choose('Q given'))
    ex.contracts['conex::Sqrt'] = quad_sqrt(n, W0, w, dot, s0)
    f0 = Sum(0, m, lambda j: var('A0', j) * Y(j)) - cw * var('c0')
    f1 = lambda k: Sum(0, m, lambda j: var('A1', k, j) * Y(j)) - cw * var('c1', k)
    u = lambda k: qc_q(s0, dot, s1, f0, f1, k)
    done = []

    def eigenvalues(ex_, this, args):
        ex.oblige_eq('eigenvalues of Q(w^1/2)(A y - c_weight c): x0', const(ex.rv(args[1])), u(None))
        x1 = ex.rv(o / ('f', 'workspace_') / ('f', 'temp2_1'))
        ex.oblige_eq('Q(w^1/2)(A y - c_weight c)', x1, Mat(n, 1, lambda k, _: u(k)))
        ex.oblige_eq('eigenvalues of Q(w^1/2)(A y - c_weight c): |x1|', const(ex.rv(args[0])), mnorm(dot(lambda k: x1.at(k, I(0)), lambda k: x1.at(k, I(0)))))
        done.append(1)
        return two_eigenvalues(ex_, this, args)
    ex.contracts['conex::Eigenvalues'] = eigenvalues
    p = spec_run(ex, o, m, 'QuadraticConstraintBase')
    ex.oblige('the eigenvalues are computed', bool(done))
    two_spectrum(ex, p)
    ex.oblige_eq('w0 is kept', ex.rv(w0), W0)
    ex.oblige_eq('w1 is kept', ex.rv(o / ('f', 'workspace_') / ('f', 'W1')), Mat(n, 1, lambda k, _: w(k)))


@contract('C07', 'Psd.GetWeightedSlackEigenvalues', [LMI, PSD])
def spec_psd(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = lmi(ex, n, m)
    slack_contract(ex, n, m)
    ex.contracts['conex::ApproximateEigenvalues'] = eig_contract(ex, n)
    p = spec_run(ex, o, m, 'PsdConstraint')
    WS = mm(n, w_, S_)
    nev = z3.Int('nev')
    big = lambda op: T.Big(op, 0, nev, lambda k: var('ev', k))
    spec_is(ex, p, -big('max'), -big('min'), Sum(0, n, lambda a: Sum(0, n, lambda b: WS(a, b) * WS(b, a))), -Sum(0, n, lambda a: WS(a, a)))
    ex.oblige_eq('the scaling point is kept', ex.rv(o / ('f', 'workspace_') / ('f', 'W')), Mat(n, n, w_))


def spec_herm(N):
    @contract('C07', 'HermitianPsd<%d>.GetWeightedSlackEigenvalues' % N, [HERM, JORDAN])
    def spec(ex):
        n, m, o, y, W, S = setup(ex, N)
        hslack(ex, N, n, m)
        log = opaque_products(ex, N, n, {'W': W, 'S': S})

        def eigs(ex_, this, args):
            eq_h(ex, 'spectrum of W S', args[0], N, n, log.get('WS') or [None])
            eq_h(ex, 'metric of the spectrum', args[1], N, n, W)
            return ex.vec('ev', ex.int('nev', 1))
        ex.contracts['ApproximateEigenvalues'] = eigs
        ex.contracts['Random'] = lambda ex_, this, args: ex.rv(hyper(ex, 'random', N, ex.rv(args[0]), ex.rv(args[1])))
        ex.abstract = True
        p = spec_run(ex, o, m, None, herm_fn(ex, N, '::GetWeightedSlackEigenvalues'))
        nev = z3.Int('nev')
        big = lambda op: T.Big(op, 0, nev, lambda k: var('ev', k))
        P = lambda w: log.get(w) or [(lambda i, j: var('missing'))] * N
        tr = lambda w: Sum(0, n, lambda t: P(w)[0](t, t))
        if N == 8:
            q = tr_ip(N, n, P('Q(W)S'), S)
            ex.oblige_eq('squared norm', ex.rv(p / ('f', 'frobenius_norm_squared')), q)
            ex.oblige_eq('trace', ex.rv(p / ('f', 'trace')), -tr_ip(N, n, W, S))
        else:
            spec_is(ex, p, -big('max'), -big('min'), tr('WSWS'), -tr('WS'))
        eq_h(ex, 'the scaling point is kept', o / ('f', 'W'), N, n, W)


for N_ in (1, 2, 4, 8):
    spec_herm(N_)


def spec_none(name, src, t):
    @contract('C07', name + '.GetWeightedSlackEigenvalues', [src])
    def spec(ex):
        """no cone: contributes nothing"""
        m, k = ex.int('m', 0), ex.int('k', 0)
        over = dict(A_=ex.mat('A', k, m), b_=ex.mat('b', k, 1)) if name == 'Equality' else {}
        o = ex.new(fresh_struct(ex, t, 'o', **over), 'o')
        p = spec_run(ex, o, iadd(m, k) if over else m, t.split('::')[-1])
        spec_is(ex, p, *[var(EIG[f]) for f in ('lambda_min', 'lambda_max', 'frobenius_norm_squared', 'trace')])


spec_none('Equality', EQ, 'conex::EqualityConstraints')
spec_none('QuadraticCost', COST, 'conex::QuadraticFunction')
