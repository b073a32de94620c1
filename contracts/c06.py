"""C06: Newton steps stay in the cone and report exact step norms."""
from common import *

ASSUMPTIONS = []
A = lambda *i: var('A', *i)
c = lambda *i: var('c', *i)
Y = lambda i: var('y', i)


def options(ex, affine, **over):
    return ex.new(fresh_struct(ex, 'conex::StepOptions', 'opt', affine=affine, c_weight=ex.real('cw'), e_weight=over.pop('e_weight', None) or ex.real('ew'),
                               step_size=ex.real('step'), inv_sqrt_mu=ex.real('ism')), 'opt')


def info(ex):
    return ex.new(fresh_struct(ex, 'conex::StepInfo', 'info', normsqrd=ex.real('ns0'), norminfd=ex.real('ni0')), 'info')


def step_fn(ex, name, t):
    for tu in ex.tus:
        for q, l in tu.funcs.items():
            if q.endswith('::' + name):
                for f in l:
                    if cast.has_body(f) and t in cast.sig(f):
                        f['_tu'] = tu
                        return f
    raise cast.ExtractError('no %s for %s' % (name, t))


cw, ew, step = var('cw'), var('ew'), var('step')


# ---------------------------------------------------------------- linear cone
def lp_d(m, eweight=ew, cweight=cw):
    return lambda k: eweight + var('w', k) * (Sum(0, m, lambda j: A(k, j) * Y(j)) - cweight * c(k))


@contract('C06', 'Linear.PrepareStep', [LC])
def lp_prepare(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = linear(ex, n, m)
    i = info(ex)
    y = ex.new(ex.vec('y', m), 'y')
    r = ex.run(step_fn(ex, 'PrepareStep', '(LinearConstraint *'), [ptr(o), options(ex, False), y, ptr(i)])
    ex.oblige('does not throw', r[0] == 'ret')
    d = lp_d(m)
    ex.oblige_eq('d = e_weight e + w o (A y - c_weight c)', ex.rv(o / ('f', 'workspace_') / ('f', 'temp_2')), Mat(n, 1, lambda k, _: d(k)))
    ex.oblige_eq('norminfd = max |d|', ex.rv(i / ('f', 'norminfd')), T.Big('max', 0, n, lambda k: T.fn('abs', d(k))))
    ex.oblige_eq('normsqrd = |d|^2', ex.rv(i / ('f', 'normsqrd')), Sum(0, n, lambda k: d(k) * d(k)))
    ex.oblige_eq('the scaling point is kept', ex.rv(o / ('f', 'workspace_') / ('f', 'W')), ex.vec('w', n))


@contract('C06', 'Linear.TakeStep', [LC])
def lp_take(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = linear(ex, n, m)
    r = ex.run(step_fn(ex, 'TakeStep', '(LinearConstraint *'), [ptr(o), options(ex, False)])
    ex.oblige('does not throw', r[0] == 'ret')
    w = ex.rv(o / ('f', 'workspace_') / ('f', 'W'))
    ex.oblige_eq('w exp(step d)', w, Mat(n, 1, lambda k, _: var('w', k) * T.fn('exp', step * var('t2', k))))
    k = ex.int('k', 0)
    ex.assume(k < n)
    ex.assume(cmp_real(ex.ctx, '>', var('w', k), ZERO))
    ex.oblige('stays in the interior', cmp_real(ex.ctx, '>', w.at(k, 0), ZERO))


@contract('C06', 'Linear.affine', [LC])
def lp_affine(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = linear(ex, n, m)
    y = ex.new(ex.vec('y', m), 'y')
    r = ex.run(step_fn(ex, 'PrepareStep', '(LinearConstraint *'), [ptr(o), options(ex, True), y, ptr(info(ex))])
    ex.oblige('does not throw', r[0] == 'ret')
    d = lp_d(m, ZERO, ZERO)
    ex.oblige_eq('w + Q(w) A y', ex.rv(o / ('f', 'workspace_') / ('f', 'W')),
                 Mat(n, 1, lambda k, _: var('w', k) + var('w', k) * d(k)))


# ---------------------------------------------------------------- second-order cone (s: square root of the scaling point)
from c05 import soc_param, sqrt_contract, soc_q, s1, qdot  # noqa: E402
norm_ = lambda q: T.fn('sqrt', q)
LEMMA_CS = 'mathematical lemma: Cauchy-Schwarz, <x,y>^2 <= |x|^2 |y|^2'
ASSUMPTIONS += ['mathematical lemma: every w in the interior of a second-order cone is s o s with s interior, so that contracts quantified over s cover all w',
                LEMMA_CS,
                'functions: exp is used with the axioms exp(0)=1, exp(x)>0, exp(x)exp(-x)=1 only',
                'precondition of PrepareStep for the second-order, quadratic and matrix cones: not the affine step, e_weight = 1 (the only values Solve uses before TakeStep)']


def spin_big(x0, nrm):
    return T.Max(T.fn('abs', x0 + nrm), T.fn('abs', x0 - nrm))


@contract('C06', 'SOC.PrepareStep', [SOC])
def soc_prepare(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    s0, W0, W1 = soc_param(ex, n)
    o, w0 = soc(ex, n, m, W0, W1)
    i = info(ex)
    ex.contracts['conex::Sqrt'] = sqrt_contract(s0, W0, W1, n)

    def norminf(ex, this, args):
        x0, x1 = ex.rv(args[0]), ex.rv(args[1])
        ex.oblige_eq('norm of d: d0', x0, d(None))
        ex.oblige_eq('norm of d: d1', x1, Mat(n, 1, lambda k, _: d(k)))
        return var('normd')
    ex.contracts['conex::NormInf'] = norminf
    y = ex.new(ex.vec('y', m), 'y')
    f = lambda k: Sum(0, m, lambda j: A(k, j) * Y(j)) - cw * c(k)
    d = lambda k: soc_q(s0, lambda a: s1(a), n, f, k) + (1 if k is None else 0)
    r = ex.run(step_fn(ex, 'PrepareStep', '(SOCConstraint *'), [ptr(o), options(ex, False, e_weight=const(1)), y, ptr(i)])
    ex.oblige('does not throw', r[0] == 'ret')
    ws = o / ('f', 'workspace_')
    ex.oblige_eq('d0', ex.rv(ws / ('f', 'd0')), d(None))
    ex.oblige_eq('d1', ex.rv(ws / ('f', 'temp1_1')), Mat(n, 1, lambda k, _: d(k)))
    ex.oblige_eq('norminfd', ex.rv(i / ('f', 'norminfd')), var('normd'))
    ex.oblige_eq('normsqrd = 2 |d|^2', ex.rv(i / ('f', 'normsqrd')), 2 * (d(None) * d(None) + Sum(0, n, lambda k: d(k) * d(k))))
    ex.oblige_eq('square root handed to TakeStep: 0', ex.rv(w0), s0)
    ex.oblige_eq('square root handed to TakeStep: 1', ex.rv(ws / ('f', 'W1')), ex.vec('s1', n))


@contract('C06', 'SOC.affine', [SOC])
def soc_affine(ex):
    """no affine updates: the interior point is kept"""
    n, m = ex.int('n', 1), ex.int('m', 1)
    o, w0 = soc(ex, n, m)
    ex.contracts['conex::Sqrt'] = lambda ex_, this, args: Mat(iadd(n, 1), 1, lambda i, j: var('sq', i))
    ex.contracts['conex::NormInf'] = lambda ex_, this, args: var('normd')
    kept(ex, o, w0, n, m, '(SOCConstraint *')


def kept(ex, o, w0, n, m, sig):
    ws = o / ('f', 'workspace_')
    a, b = ex.rv(w0), ex.rv(ws / ('f', 'W1'))
    r = ex.run(step_fn(ex, 'PrepareStep', sig), [ptr(o), options(ex, True), ex.new(ex.vec('y', m), 'y'), ptr(info(ex))])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('w0 is kept', ex.rv(w0), a)
    ex.oblige_eq('w1 is kept', ex.rv(ws / ('f', 'W1')), b)


def soc_x(ex, n):
    zero = ex.choose('x1 = 0')     # |x1| = 0 exactly when x1 = 0 (mathematical lemma)
    x0, x1 = ex.real('x0'), Mat(n, 1, lambda i, j: ZERO if zero else var('x', i))
    nrm = norm_(Sum(0, n, lambda k: x1.at(k, I(0)) * x1.at(k, I(0))))
    if not zero:
        ex.assume(cmp_real(ex.ctx, '>', nrm, ZERO))
    return x0, x1, ZERO if zero else nrm, zero


@contract('C06', 'SOC.NormInf', [SOC])
def soc_norminf(ex):
    n = ex.int('n', 1)
    x0, x1, nrm, _ = soc_x(ex, n)
    r = ex.run('conex::NormInf', [x0, x1])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('max |eigenvalue|', ex.rv(r[1]), spin_big(x0, nrm))


def spin_exp(ex, z0, z1, x0, x1, nrm, zero, n):
    a, b = T.fn('exp', x0 + nrm), T.fn('exp', x0 - nrm)
    ex.oblige_eq('exp(x)_0', z0, (a + b) / 2)
    ex.oblige_eq('exp(x)_1', Mat(n, 1, lambda i, j: z1(i)),
                 Mat(n, 1, lambda i, j: ZERO if zero else (a - b) / 2 / nrm * x1.at(i, I(0))))
    # interior of the cone: trace and determinant positive
    ex.oblige('exp(x)_0 > 0', cmp_real(ex.ctx, '>', z0, ZERO))
    ex.oblige_eq('det exp(x) = product of the exponentials of the eigenvalues',
                 z0 * z0 - Sum(0, n, lambda k: z1(k) * z1(k)), a * b)


@contract('C06', 'SOC.Exp', [SOC])
def soc_exp(ex):
    n = ex.int('n', 1)
    x0, x1, nrm, zero = soc_x(ex, n)
    r = ex.run('conex::Exp', [x0, x1])
    ex.oblige('does not throw', r[0] == 'ret')
    z = ex.rv(r[1])
    ex.oblige('dimension', land(cmpi('==', z.rows, iadd(n, 1)), cmpi('==', z.cols, 1)))
    spin_exp(ex, z.at(I(0), I(0)), lambda k: z.at(iadd(k, 1), I(0)), x0, x1, nrm, zero, n)


e1 = lambda k: var('e1', k)


@contract('C06', 'SOC.TakeStep', [SOC])
def soc_take(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    s0 = ex.real('s0')
    o, w0 = soc(ex, n, m, s0, ex.vec('s1', n), d0=ex.real('d0'))
    e0 = ex.real('e0')

    def exp_(ex, this, args):
        x0, x1 = ex.rv(args[0]), ex.rv(args[1])
        ex.oblige_eq('exponential of step d: 0', x0, step * var('d0'))
        ex.oblige_eq('exponential of step d: 1', x1, Mat(n, 1, lambda k, _: step * var('t1', k)))
        return Mat(iadd(n, 1), 1, lambda i, j: T.ite(cmpi('==', i, 0), e0, e1(isubt(i, 1))))
    ex.contracts['conex::Exp'] = exp_
    r = ex.run(step_fn(ex, 'TakeStep', '(SOCConstraint *'), [ptr(o), options(ex, False)])
    ex.oblige('does not throw', r[0] == 'ret')
    f = lambda k: T.ite(cmpi('==', k, 0), e0, e1(isubt(k, 1)))
    W0, W1 = ex.rv(w0), ex.rv(o / ('f', 'workspace_') / ('f', 'W1'))
    ex.oblige_eq('w0 = (Q(s) exp(step d))_0', W0, soc_q(s0, s1, n, f, None))
    ex.oblige_eq('w1 = (Q(s) exp(step d))_1', W1, Mat(n, 1, lambda k, _: soc_q(s0, s1, n, f, k)))
    interior(ex, W0, lambda k: W1.at(k, I(0)), s0, s1, e0, e1, lambda a, b: Sum(0, n, lambda k: a(k) * b(k)))


def interior(ex, W0, W1, s0, s1, e0, e1, dot):
    det = lambda a, b: a * a - dot(b, b)
    ex.oblige_eq('det w = det(s)^2 det(exp(step d))', det(W0, W1), det(s0, s1) * det(s0, s1) * det(e0, e1))


@contract('C06', 'SpinFactorInterior', [SOC])
def spin_interior(ex):
    """lemma over the contracts above: s, e interior imply Q(s)e interior (trace part)"""
    n = ex.int('n', 1)
    s0, e0 = ex.real('s0'), ex.real('e0')
    ss, ee, se = ex.real('ss'), ex.real('ee'), ex.real('se')     # |s1|^2, |e1|^2, <s1,e1>
    z = ZERO
    for f in (ss, ee, s0, e0, s0 * s0 - ss, e0 * e0 - ee):
        ex.assume(cmp_real(ex.ctx, '>=', f, z) if f in (ss, ee) else cmp_real(ex.ctx, '>', f, z))
    ex.assume(cmp_real(ex.ctx, '<=', se * se, ss * ee))           # Cauchy-Schwarz
    det = s0 * s0 - ss
    ex.oblige('(Q(s)e)_0 > 0', cmp_real(ex.ctx, '>', 2 * (s0 * e0 + se) * s0 - det * e0, z))


# ---------------------------------------------------------------- quadratic cone: the metric of Q in place of the identity
from c05 import quad  # noqa: E402


def qc_q(s0, dot, s1, f0, f1, k):
    """Q(s)f in the spin factor of the metric"""
    det = s0 * s0 - dot(s1, s1)
    ip = s0 * f0 + dot(s1, f1)
    return 2 * ip * s0 - det * f0 if k is None else 2 * ip * s1(k) + det * f1(k)


def mnorm(q):
    return T.fn('sqrt', T.fn('abs', q))


def quad_pre(ex, n, m, useQ):
    s0 = ex.real('s0')
    o, w0, dot, _ = quad(ex, n, m, useQ, ZERO)
    w = lambda k: 2 * s0 * s1(k)
    W0 = s0 * s0 + dot(s1, s1)
    ex.store(w0, W0)
    ex.store(o / ('f', 'workspace_') / ('f', 'W1'), Mat(n, 1, lambda k, _: w(k)))
    return o, w0, dot, s0, W0, w


def quad_sqrt(n, W0, w, dot, s0):
    def f(ex, this, args):
        ex.oblige_eq('precondition of Sqrt: norm', ex.rv(args[0]), mnorm(dot(w, w)))
        ex.oblige_eq('precondition of Sqrt: x0', ex.rv(deref(ex, args[1])), W0)
        ex.oblige_eq('precondition of Sqrt: x1', ex.rv(deref(ex, args[2])), Mat(n, 1, lambda k, _: w(k)))
        ex.store(deref(ex, args[1]), s0)
        ex.store(deref(ex, args[2]), Mat(n, 1, lambda k, _: s1(k)))
    return f


def deref(ex, p):
    p = ex.rv(p)
    return p.lv if isinstance(p, Ptr) else p


@contract('C06', 'Quadratic.PrepareStep', [QC])
def quad_prepare(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    useQ = ex.choose('Q given')
    o, w0, dot, s0, W0, w = quad_pre(ex, n, m, useQ)
    ex.contracts['conex::Sqrt'] = quad_sqrt(n, W0, w, dot, s0)
    i = info(ex)
    y = ex.new(ex.vec('y', m), 'y')
    f0 = Sum(0, m, lambda j: var('A0', j) * Y(j)) - cw * var('c0')
    f1 = lambda k: Sum(0, m, lambda j: var('A1', k, j) * Y(j)) - cw * var('c1', k)
    d = lambda k: qc_q(s0, dot, s1, f0, f1, k) + (1 if k is None else 0)
    D = {}

    def eigenvalues(ex_, this, args):
        D['norm'], D['d0'] = const(ex.rv(args[0])), const(ex.rv(args[1]))
        return Mat(2, 1, lambda i, j: T.ite(cmpi('==', i, 0), var('eva'), var('evb')))
    ex.contracts['conex::Eigenvalues'] = eigenvalues
    r = ex.run(step_fn(ex, 'PrepareStep', '(QuadraticConstraintBase *'), [ptr(o), options(ex, False, e_weight=const(1)), y, ptr(i)])
    ex.oblige('does not throw', r[0] == 'ret')
    ws = o / ('f', 'workspace_')
    d0, d1 = ex.rv(ws / ('f', 'd0')), ex.rv(ws / ('f', 'temp2_1'))
    ex.oblige_eq('d0', d0, d(None))
    ex.oblige_eq('d1', d1, Mat(n, 1, lambda k, _: d(k)))
    ex.oblige('the eigenvalues of d are computed', 'd0' in D)
    ex.oblige_eq('eigenvalues of d: d0', D['d0'], d(None))
    ex.oblige_eq('eigenvalues of d: |d1|', D['norm'], mnorm(dot(lambda k: d1.at(k, I(0)), lambda k: d1.at(k, I(0)))))
    ev = (var('eva'), var('evb'))
    ex.oblige_eq('norminfd = max |eigenvalue|', ex.rv(i / ('f', 'norminfd')), T.Max(*[T.fn('abs', x) for x in ev]))
    ex.oblige_eq('normsqrd = sum of the squared eigenvalues', ex.rv(i / ('f', 'normsqrd')), ev[0] * ev[0] + ev[1] * ev[1])
    ex.oblige_eq('square root handed to TakeStep: 0', ex.rv(w0), s0)
    ex.oblige_eq('square root handed to TakeStep: 1', ex.rv(ws / ('f', 'temp3_1')), Mat(n, 1, lambda k, _: s1(k)))
    ex.oblige_eq('square root handed to TakeStep: norm', ex.rv(ws / ('f', 'wsqrt_q1_norm_sqr')), dot(s1, s1))


@contract('C06', 'Quadratic.affine', [QC])
def quad_affine(ex):
    """no affine updates: the interior point is kept"""
    n, m = ex.int('n', 1), ex.int('m', 1)
    o, w0, dot, s0, W0, w = quad_pre(ex, n, m, ex.choose('Q given'))
    ex.contracts['conex::Sqrt'] = quad_sqrt(n, W0, w, dot, s0)
    ex.contracts['conex::Eigenvalues'] = lambda ex_, this, args: Mat(2, 1, lambda i, j: T.ite(cmpi('==', i, 0), var('eva'), var('evb')))
    kept(ex, o, w0, n, m, '(QuadraticConstraintBase *')


@contract('C06', 'Quadratic.Eigenvalues', [QC])
def quad_eig(ex):
    r = ex.run('conex::Eigenvalues', [ex.real('k'), ex.real('x0')])
    v = value(ex, r[1])
    ex.oblige_eq('x0 + k, x0 - k', v, Mat(2, 1, lambda i, j: var('x0') + T.ite(cmpi('==', i, 0), var('k'), -var('k'))))


@contract('C06', 'Quadratic.TakeStep', [QC])
def quad_take(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    useQ = ex.choose('Q given')
    o, w0, dot, _ = quad(ex, n, m, useQ, ex.real('s0'))
    s0, e0 = ex.real('s0'), ex.real('e0')
    ws = o / ('f', 'workspace_')
    s_ = lambda k: var('t3', k)
    ex.store(ws / ('f', 'd0'), ex.real('d0'))
    ex.store(ws / ('f', 'wsqrt_q1_norm_sqr'), dot(s_, s_))

    def exp_(ex, this, args):
        D = lambda k: step * var('t2', k)
        ex.oblige_eq('exponential of step d: norm', ex.rv(args[0]), mnorm(dot(D, D)))
        ex.oblige_eq('exponential of step d: 0', ex.rv(deref(ex, args[1])), step * var('d0'))
        ex.oblige_eq('exponential of step d: 1', ex.rv(deref(ex, args[2])), Mat(n, 1, lambda k, _: D(k)))
        ex.store(deref(ex, args[1]), e0)
        ex.store(deref(ex, args[2]), Mat(n, 1, lambda k, _: e1(k)))
    ex.contracts['conex::Exp'] = exp_
    r = ex.run(step_fn(ex, 'TakeStep', '(QuadraticConstraintBase *'), [ptr(o), options(ex, False)])
    ex.oblige('does not throw', r[0] == 'ret')
    W0, W1 = ex.rv(w0), ex.rv(ws / ('f', 'W1'))
    ex.oblige_eq('w0 = (Q(s) exp(step d))_0', W0, qc_q(s0, dot, s_, e0, e1, None))
    ex.oblige_eq('w1 = (Q(s) exp(step d))_1', W1, Mat(n, 1, lambda k, _: qc_q(s0, dot, s_, e0, e1, k)))
    interior(ex, W0, lambda k: W1.at(k, I(0)), s0, s_, e0, e1, dot)


@contract('C06', 'Quadratic.Exp', [QC])
def quad_exp(ex):
    """instances of the helper template: exp and square root in terms of the norm"""
    n = ex.int('n', 1)
    k = ex.real('k')
    zero = ex.choose('norm = 0')
    x1 = Mat(n, 1, lambda i, j: ZERO if zero else var('x', i))
    ex.assume(cmp_real(ex.ctx, '==' if zero else '>', k, ZERO))
    x0 = ex.new(ex.real('x0'), 'x0')
    v = ex.new(x1, 'x1')
    ex.run(tmpl(ex, 'conex::Exp'), [k, ptr(x0), ptr(v)])
    a, b = T.fn('exp', var('x0') + k), T.fn('exp', var('x0') - k)
    ex.oblige_eq('exp(x)_0', ex.rv(x0), (a + b) / 2)
    ex.oblige_eq('exp(x)_1', ex.rv(v), Mat(n, 1, lambda i, j: ZERO if zero else (a - b) / 2 / k * var('x', i)))
    ex.oblige('exp(x)_0 > 0', cmp_real(ex.ctx, '>', ex.rv(x0), ZERO))


@contract('C06', 'Quadratic.Sqrt', [QC])
def quad_sqrt_(ex):
    n = ex.int('n', 1)
    k = ex.real('k')
    zero = ex.choose('norm = 0')
    x1 = Mat(n, 1, lambda i, j: ZERO if zero else var('x', i))
    ex.assume(cmp_real(ex.ctx, '==' if zero else '>', k, ZERO))
    x0 = ex.new(ex.real('x0'), 'x0')
    ex.assume(cmp_real(ex.ctx, '>', var('x0'), k))      # interior of the cone
    v = ex.new(x1, 'x1')
    ex.run(tmpl(ex, 'conex::Sqrt'), [k, ptr(x0), ptr(v)])
    z0, z1 = ex.rv(x0), ex.rv(v)
    ex.oblige('in the interior', cmp_real(ex.ctx, '>', z0, ZERO))
    ex.oblige_eq('2 z0 z1 = x1', Mat(n, 1, lambda i, j: 2 * z0 * z1.at(i, I(0))), x1)
    # z1 = t x1, so |z1|^2 = t^2 k^2
    i = ex.int('i', 0)
    ex.assume(i < n)
    ex.oblige_eq('z0^2 + |z1|^2 = x0', (z0 * z0 - var('x0')) * x1.at(i, I(0)) * x1.at(i, I(0)) + z1.at(i, I(0)) * z1.at(i, I(0)) * k * k, ZERO)


def tmpl(ex, q):
    for tu in ex.tus:
        for f in tu.funcs.get(q, []):
            if cast.has_body(f):
                f['_tu'] = tu
                return f
    raise cast.ExtractError('no %s' % q)


# ---------------------------------------------------------------- positive semidefinite cone
from common import lmi, symmetric  # noqa: E402
PADE = 'conex/exponential_map_pade.cc'
w_ = lambda i, j: T.ite(cmpi('>=', i, j), var('w', i, j), var('w', j, i))
S_ = lambda i, j: var('S~', i, j)                       # the negative slack A y - c_weight c (symmetric)


def mm(n, f, g):
    return lambda i, j: Sum(0, n, lambda k: f(i, k) * g(k, j))


def delta(i, j):
    return T.ite(cmpi('==', i, j), const(1), ZERO)


def slack_contract(ex, n, m):
    """ComputeNegativeSlack by its contract: S = sum y_i A_i - k c"""
    def f(ex_, this, args):
        ex.oblige_eq('weight of the affine term', ex.rv(args[0]), cw)
        ex.oblige_eq('point of the slack', ex.rv(args[1]), ex.vec('y', m))
        ex.store(deref(ex, args[2]), Mat(n, n, S_))
    ex.contracts['ComputeNegativeSlack'] = f


def eig_contract(ex, n, letters=None):
    def f(ex_, this, args):
        ws, w = ex.rv(args[0]), ex.rv(args[1])
        ex.oblige_eq('spectrum of W S', ws, Mat(n, n, mm(n, w_, S_)))
        ex.oblige_eq('metric of the spectrum', w, Mat(n, n, w_))
        return ex.vec('ev', ex.int('nev', 1))
    return f


@contract('C06', 'Lmi.ComputeNegativeSlack', [LMI])
def lmi_slack(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = lmi(ex, n, m)
    s = ex.new(ex.mat('s0', n, n), 's')
    y = ex.new(ex.vec('y', m), 'y')
    r = ex.run('conex::DenseLMIConstraint::ComputeNegativeSlack', [ex.real('cw'), y, ptr(s)], this=o)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('sum y_i A_i - k c', ex.rv(s), Mat(n, n, lambda i, j: Sum(0, m, lambda k: Y(k) * A(k, i, j)) - cw * c(i, j)))


@contract('C06', 'Psd.PrepareStep', [LMI, PSD])
def psd_prepare(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = lmi(ex, n, m)
    i = info(ex)
    y = ex.new(ex.vec('y', m), 'y')
    slack_contract(ex, n, m)
    ex.contracts['conex::ApproximateEigenvalues'] = eig_contract(ex, n)
    r = ex.run(step_fn(ex, 'PrepareStep', '(PsdConstraint *'), [ptr(o), options(ex, False), y, ptr(i)])
    ex.oblige('does not throw', r[0] == 'ret')
    ws = o / ('f', 'workspace_')
    WS = mm(n, w_, S_)
    ex.oblige_eq('W S handed to TakeStep', ex.rv(ws / ('f', 'temp_1')), Mat(n, n, WS))
    ex.oblige_eq('the scaling point is kept', ex.rv(ws / ('f', 'W')), Mat(n, n, w_))
    nev = z3.Int('nev')
    lo, hi = T.Big('min', 0, nev, lambda k: var('ev', k)), T.Big('max', 0, nev, lambda k: var('ev', k))
    ex.oblige_eq('norminfd = max |e_weight + eigenvalue|', ex.rv(i / ('f', 'norminfd')), T.Max(T.fn('abs', ew + lo), T.fn('abs', ew + hi)))
    ex.assume(cmp_real(ex.ctx, '==', ew, const(1)))
    ex.oblige_eq('normsqrd = tr (e + WS)^2', ex.rv(i / ('f', 'normsqrd')),
                 Sum(0, n, lambda a: Sum(0, n, lambda b: (delta(a, b) + WS(a, b)) * (delta(b, a) + WS(b, a)))))


@contract('C06', 'Psd.affine', [LMI, PSD])
def psd_affine(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = lmi(ex, n, m)
    y = ex.new(ex.vec('y', m), 'y')
    slack_contract(ex, n, m)
    r = ex.run(step_fn(ex, 'PrepareStep', '(PsdConstraint *'), [ptr(o), options(ex, True), y, ptr(info(ex))])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('(1 + e_weight) w + Q(w) (A y - c_weight c)', ex.rv(o / ('f', 'workspace_') / ('f', 'W')),
                 Mat(n, n, lambda i, j: (1 + ew) * w_(i, j) + mm(n, mm(n, w_, S_), w_)(i, j)))


E_ = lambda i, j: var('E', i, j)


@contract('C06', 'Psd.TakeStep', [LMI, PSD])
def psd_take(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = lmi(ex, n, m)

    def exp_(ex_, this, args):
        ex.oblige_eq('exponential of step (WS + e_weight e)', value(ex, args[0]),
                     Mat(n, n, lambda i, j: step * (var('t1', i, j) + ew * delta(i, j))))
        ex.store(deref(ex, args[1]), Mat(n, n, E_))
    ex.contracts['conex::ExponentialMapPadeApproximation'] = exp_
    r = ex.run(step_fn(ex, 'TakeStep', '(PsdConstraint *'), [ptr(o), options(ex, False)])
    ex.oblige('does not throw', r[0] == 'ret')
    p = mm(n, E_, w_)
    ex.oblige_eq('symmetric part of exp(step d) W', ex.rv(o / ('f', 'workspace_') / ('f', 'W')),
                 Mat(n, n, lambda i, j: (p(i, j) + p(j, i)) / 2))


@contract('C06', 'Psd.Exp', [PADE])
def pade(ex):
    """the (3,3) rational approximation of exp: D X = N"""
    n = ex.int('n', 1)
    x = lambda i, j: var('x', i, j)
    x2, x3 = mm(n, x, x), mm(n, x, mm(n, x, x))
    r = ex.new(ex.mat('r0', n, n), 'r')
    z = ex.run('conex::ExponentialMapPadeApproximation', [ex.mat('x', n, n), ptr(r)])
    ex.oblige('does not throw', z[0] == 'ret')
    sv = getattr(ex, 'solves', [])
    ex.solves = []
    if len(sv) != 1:
        raise Unsupported('rational approximation by %d linear systems' % len(sv))
    D, N, X = sv[0][:3]
    p = lambda s: Mat(n, n, lambda i, j: 120 * delta(i, j) + s * 60 * x(i, j) + 12 * x2(i, j) + s * x3(i, j))
    ex.oblige_eq('numerator 120 + 60 x + 12 x^2 + x^3', N, p(1))
    ex.oblige_eq('denominator 120 - 60 x + 12 x^2 - x^3', D, p(-1))
    ex.oblige_eq('the result solves D X = N', ex.rv(r), X)


@contract('C06', 'Psd.interior', [PADE])
def pade_positive(ex):
    """lemma: r(t) = p(t)/p(-t) > 0 for |t| <= 4, so the update of a positive definite w is positive definite
    (r(WS) W = W^{1/2} r(W^{1/2} S W^{1/2}) W^{1/2})"""
    t = ex.real('t')
    ex.assume(cmp_real(ex.ctx, '<=', t, const(4)))
    ex.assume(cmp_real(ex.ctx, '>=', t, const(-4)))
    for s in (1, -1):
        ex.oblige('120 %s 60 t + 12 t^2 %s t^3 > 0' % (('+', '+') if s > 0 else ('-', '-')),
                  cmp_real(ex.ctx, '>', 120 + s * 60 * t + 12 * t * t + s * t * t * t, ZERO))


# ---------------------------------------------------------------- Hermitian matrices over R, C, H, O
from c05 import herm, herm_fn, hcomp  # noqa: E402
from hyper import opaque_products, hvec, comps, comp, hyper  # noqa: E402
EXPM = 'conex/exponential_map.cc'


def hm(ms, n):
    return [Mat(n, n, f) for f in ms]


def eq_h(ex, name, v, N, n, fs):
    for k, m in enumerate(comps(ex, v, N)):
        ex.oblige_eq('%s: component %d' % (name, k), m, Mat(n, n, fs[k]))


def hslack(ex, N, n, m):
    def f(ex_, this, args):
        ex.oblige_eq('weight of the affine term', ex.rv(args[0]), cw)
        ex.oblige_eq('point of the slack', value(ex, args[1]), ex.vec('y', m))
        ex.store(deref(ex, args[2]), ex.rv(hvec(ex, hm(hcomp('S', N), n))))
    ex.contracts['ComputeNegativeSlack'] = f


def conj(N, fs):
    return [(lambda i, j, k=k: fs[k](j, i) if k == 0 else -fs[k](j, i)) for k in range(N)]


def tr_ip(N, n, x, y):
    return add(*[Sum(0, n, lambda b: Sum(0, n, lambda a: x[k](a, b) * y[k](a, b))) for k in range(N)])


def setup(ex, N):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = herm(ex, N, n, m)
    y = ex.new(ex.vec('y', m), 'y')
    W, S = hcomp('w', N), hcomp('S', N)
    return n, m, o, y, W, S


def herm_assoc(N):
    P = lambda log, w: log.get(w) or [(lambda i, j: var('missing'))] * N

    @contract('C06', 'HermitianPsd<%d>.ComputeNegativeSlack' % N, [HERM, JORDAN])
    def slack(ex):
        n, m, o, y, W, S = setup(ex, N)
        s = hyper(ex, 'old', N, n, n)
        f = herm_method(ex, N, 'ComputeNegativeSlack')
        r = ex.run(f, [ex.real('cw'), y, ptr(s)], this=o)
        ex.oblige('does not throw', r[0] == 'ret')
        C = hcomp('c', N)
        eq_h(ex, 'sum y_i A_i - k c', s, N, n, [
            (lambda i, j, k=k: Sum(0, m, lambda t: Y(t) * hcomp('A', N, (t,))[k](i, j)) - cw * C[k](i, j)) for k in range(N)])

    if N == 8:
        return

    @contract('C06', 'HermitianPsd<%d>.PrepareStep' % N, [HERM, JORDAN])
    def prep(ex):
        n, m, o, y, W, S = setup(ex, N)
        hslack(ex, N, n, m)
        log = opaque_products(ex, N, n, {'W': W, 'S': S})
        i = info(ex)

        def eigs(ex_, this, args):
            eq_h(ex, 'spectrum of W S', args[0], N, n, log.get('WS') or [None])
            eq_h(ex, 'metric of the spectrum', args[1], N, n, W)
            return ex.vec('ev', ex.int('nev', 1))
        ex.contracts['ApproximateEigenvalues'] = eigs
        ex.contracts['Random'] = lambda ex_, this, args: ex.rv(hyper(ex, 'random', N, ex.rv(args[0]), ex.rv(args[1])))
        ex.abstract = True
        r = ex.run(herm_fn(ex, N, '::PrepareStep'), [ptr(o), options(ex, False), y, ptr(i)])
        ex.oblige('does not throw', r[0] == 'ret')
        eq_h(ex, 'W S handed to TakeStep', o / ('f', 'WS'), N, n, P(log, 'WS'))
        eq_h(ex, 'the scaling point is kept', o / ('f', 'W'), N, n, W)
        nev = z3.Int('nev')
        lo, hi = T.Big('min', 0, nev, lambda k: var('ev', k)), T.Big('max', 0, nev, lambda k: var('ev', k))
        ex.oblige_eq('norminfd = max |e_weight + eigenvalue|', ex.rv(i / ('f', 'norminfd')), T.Max(T.fn('abs', ew + lo), T.fn('abs', ew + hi)))
        tr = lambda w: Sum(0, n, lambda t: P(log, w)[0](t, t))
        ex.oblige_eq('normsqrd = Re tr (WSWS) + 2 Re tr (WS) + n = |e + Q(w^1/2) s|^2', ex.rv(i / ('f', 'normsqrd')),
                     tr('WSWS') + 2 * tr('WS') + T.toreal(n))

    @contract('C06', 'HermitianPsd<%d>.affine' % N, [HERM, JORDAN])
    def affine(ex):
        n, m, o, y, W, S = setup(ex, N)
        hslack(ex, N, n, m)
        log = opaque_products(ex, N, n, {'W': W, 'S': S})
        ex.abstract = True
        r = ex.run(herm_fn(ex, N, '::PrepareStep'), [ptr(o), options(ex, True), y, ptr(info(ex))])
        ex.oblige('does not throw', r[0] == 'ret')
        eq_h(ex, '(1 + e_weight) w + Q(w)(A y - c_weight c)', o / ('f', 'W'), N, n,
             [(lambda i, j, k=k: (1 + ew) * W[k](i, j) + P(log, 'WSW')[k](i, j)) for k in range(N)])

    @contract('C06', 'HermitianPsd<%d>.TakeStep' % N, [HERM, JORDAN])
    def take(ex):
        n, m, o, y, W, S = setup(ex, N)
        E = comp('E', N)
        log = opaque_products(ex, N, n, {'W': W, 'E': E})
        ws = comp('ws', N)

        def exp_(ex_, this, args):
            eq_h(ex, 'exponential of step (WS + e_weight e)', args[0], N, n,
                 [(lambda i, j, k=k: step * (ws[k](i, j) + (ew * delta(i, j) if k == 0 else 0))) for k in range(N)])
            ex.store(deref(ex, args[1]), ex.rv(hvec(ex, hm(E, n))))
        ex.contracts['conex::ExponentialMap'] = exp_
        ex.abstract = True
        r = ex.run(herm_fn(ex, N, '::TakeStep'), [ptr(o), options(ex, False)])
        ex.oblige('does not throw', r[0] == 'ret')
        p = P(log, 'EW')
        q = conj(N, p)
        eq_h(ex, 'Hermitian part of exp(step d) W', o / ('f', 'W'), N, n, [(lambda i, j, k=k: (p[k](i, j) + q[k](i, j)) / 2) for k in range(N)])

    @contract('C06', 'HermitianPsd<%d>.Exp' % N, [EXPM, JORDAN])
    def exp(ex):
        """((I + x/4 + x^2/32)^2)^2"""
        n = ex.int('n', 1)
        X = comp('x', N)
        log = {}

        def Yf():
            if 'XX' not in lg:
                return None
            return [(lambda i, j, k=k: (delta(i, j) if k == 0 else 0) + X[k](i, j) / 4 + lg['XX'][k](i, j) / 32) for k in range(N)]
        lg = opaque_products(ex, N, n, {'X': X, 'Y': Yf})
        z = hyper(ex, 'z', N, n, n)
        ex.abstract = True
        r = ex.run('conex::ExponentialMap', [hyper(ex, 'x', N, n, n), ptr(z)])
        ex.oblige('does not throw', r[0] == 'ret')
        eq_h(ex, '(I + x/4 + x^2/32)^4', z, N, n, P(lg, 'YYYY'))


def herm_method(ex, N, name):
    for tu in ex.tus:
        for q, l in tu.funcs.items():
            if q.endswith('::' + name) and 'HermitianPsdConstraint' in q and ('MatrixAlgebra<%d>' % N in q or (N == 8 and 'MatrixAlgebra<>' in q)):
                for f in l:
                    if cast.has_body(f):
                        f['_tu'] = tu
                        return f
    raise cast.ExtractError('no %s of HermitianPsdConstraint over MatrixAlgebra<%d>' % (name, N))


for N_ in (1, 2, 4, 8):
    herm_assoc(N_)


@contract('C06', 'HermitianPsd.interior', [EXPM])
def herm_positive(ex):
    """lemma: the polynomials replacing exp are positive on the real line, so the updates of a positive definite w are
    positive definite: 1 + t/4 + t^2/32 > 0, and (c + k t)^2 >= 0"""
    t = ex.real('t')
    ex.oblige('1 + t/4 + t^2/32 > 0', cmp_real(ex.ctx, '>', 1 + t / 4 + t * t / 32, ZERO))
    a = Fraction(3, 2) + t / 2
    ex.oblige('(3/2 + t/2)^2 >= 0', cmp_real(ex.ctx, '>=', a * a, ZERO))


# octonions: no spectral calculus; the update Q(w^1/2)(c e + k Q(w^1/2) s)^2 in terms of Q(w), Q(s)
@contract('C06', 'HermitianPsd<8>.PrepareStep', [HERM, JORDAN])
def oct_prepare(ex):
    N = 8
    n, m, o, y, W, S = setup(ex, N)
    hslack(ex, N, n, m)
    log = opaque_products(ex, N, n, {'W': W, 'S': S})
    i = info(ex)
    ex.abstract = True
    r = ex.run(herm_fn(ex, N, '::PrepareStep'), [ptr(o), options(ex, False), y, ptr(i)])
    ex.oblige('does not throw', r[0] == 'ret')
    eq_h(ex, 'negative slack handed to TakeStep', o / ('f', 'minus_s'), N, n, S)
    eq_h(ex, 'the scaling point is kept', o / ('f', 'W'), N, n, W)
    q = log.get('Q(W)S') or [lambda i, j: var('missing')] * N
    ex.oblige_eq('normsqrd = <Q(w)s,s> + 2 <w,s> + n = |e + Q(w^1/2) s|^2', ex.rv(i / ('f', 'normsqrd')),
                 tr_ip(N, n, q, S) + 2 * tr_ip(N, n, W, S) + T.toreal(n))


@contract('C06', 'HermitianPsd<8>.TakeStep', [HERM, JORDAN])
def oct_take(ex):
    N = 8
    n, m, o, y, W, S = setup(ex, N)
    ms = comp('ms', N)
    E = comp('E', N)

    def upd(ex_, this, args):
        eq_h(ex, 'update from w', args[0], N, n, W)
        eq_h(ex, 'update along step s', args[1], N, n, [(lambda i, j, k=k: step * ms[k](i, j)) for k in range(N)])
        return ex.rv(hvec(ex, hm(E, n)))
    ex.contracts['conex::GeodesicUpdateScaled'] = upd
    r = ex.run(herm_fn(ex, N, '::TakeStep'), [ptr(o), options(ex, False)])
    ex.oblige('does not throw', r[0] == 'ret')
    eq_h(ex, 'w is replaced by the update', o / ('f', 'W'), N, n, E)


@contract('C06', 'HermitianPsd<8>.GeodesicUpdateScaled', [EXPM, JORDAN])
def oct_update(ex):
    N = 8
    n = ex.int('n', 1)
    W, S = comp('w', N, True), comp('s', N, True)
    log = opaque_products(ex, N, n, {'W': W, 'S': S})
    ex.abstract = True
    r = ex.run('conex::GeodesicUpdateScaled', [hvec(ex, hm(W, n)), hvec(ex, hm(S, n))])
    ex.oblige('does not throw', r[0] == 'ret')
    miss = [lambda i, j: var('missing')] * N
    a, b = log.get('Q(W)S', miss), log.get('Q(W)Q(S)W', miss)
    u = [(lambda i, j, k=k: Fraction(9, 4) * W[k](i, j) + Fraction(3, 2) * a[k](i, j) + Fraction(1, 4) * b[k](i, j)) for k in range(N)]
    for k, mk in enumerate(comps(ex, r[1], N)):
        # MakeHermitian keeps the lower triangle
        ex.oblige_eq('9/4 w + 3/2 Q(w)s + 1/4 Q(w)Q(s)w: component %d' % k, mk, Mat(n, n, u[k]), rng=lambda i, j: B(cmpi('>', i, j)))


# ---------------------------------------------------------------- all constraints of a program
@contract('C06', 'Program.PrepareStep', [CP])
def all_prepare(ex):
    N = ex.int('N', 0)
    man, L, cl, S = manager(ex, N)
    opt = options(ex, False)

    def prep(ex_, this, args):
        k = constraint_id(ex, args[0])
        if k is None:
            return NotImplemented
        z = value(ex, args[2])
        ex.oblige_eq('each constraint gets the values of its own variables', z, Mat(L(I(k)), 1, lambda j, _: var('y', cl(I(k), I(j)))))
        o = value(ex, args[1])
        ex.oblige('each constraint gets the step options', o is value(ex, opt) or all(o.fs[f] is value(ex, opt).fs[f] for f in o.fs))
        inf = args[3].lv
        ex.store(inf / ('f', 'normsqrd'), var('ns', k))
        ex.store(inf / ('f', 'norminfd'), var('nd', k))
        return None
    ex.contracts['conex::PrepareStep'] = prep
    y = ex.new(ex.vec('y', S), 'y')
    i = info(ex)
    r = ex.run(step_fn(ex, 'PrepareStep', '(ConstraintManager<Container> *'), [ptr(man), opt, y, ptr(i)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('normsqrd is the sum over all constraints', ex.rv(i / ('f', 'normsqrd')), Sum(0, N, lambda k: var('ns', k)))
    want = T.ite(cmpi('>', N, 0), T.Max(const(-1), T.Big('max', 0, N, lambda k: var('nd', k))), const(-1))
    ex.oblige_eq('norminfd is the maximum over all constraints (at least -1)', ex.rv(i / ('f', 'norminfd')), want)


@contract('C06', 'Program.TakeStep', [CP])
def all_take(ex):
    N = ex.int('N', 0)
    man, L, cl, S = manager(ex, N)
    opt = options(ex, False)
    ghost = ex.new(ex.vec('taken', N), 'ghost: number of steps taken')
    lst = ex.new(Vec(N, lambda k: Ptr(man / ('f', 'eqs') / ('at', k) / ('f', 'constraint'), False), 'conex::Constraint *'), 'constraints')

    def take(ex_, this, args):
        k = constraint_id(ex, args[0])
        if k is None:
            return NotImplemented
        o = value(ex, args[1])
        ex.oblige('each constraint gets the step options', o is value(ex, opt) or all(o.fs[f] is value(ex, opt).fs[f] for f in o.fs))
        c = ghost / ('el', k, 0)
        ex.store(c, ex.rv(c) + 1)
        return ex.bool('taken')
    ex.contracts['conex::TakeStep'] = take
    r = ex.run(step_fn(ex, 'TakeStep', '(std::vector<Constraint *> *'), [ptr(lst), opt])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('every constraint takes exactly one step', ex.rv(ghost), Mat(N, 1, lambda k, _: var('taken', k) + 1))


def zero_norms(name, src, t):
    @contract('C06', name + '.PrepareStep', [src])
    def prep(ex):
        """no cone: contributes nothing to the norms (info starts at 0 / 0)"""
        m, k = ex.int('m', 0), ex.int('k', 0)
        over = dict(A_=ex.mat('A', k, m), b_=ex.mat('b', k, 1)) if name == 'Equality' else {}
        o = ex.new(fresh_struct(ex, t, 'o', **over), 'o')
        i = ex.new(fresh_struct(ex, 'conex::StepInfo', 'info', normsqrd=ex.real('ns0'), norminfd=ex.real('ni0')), 'info')
        y = ex.new(ex.vec('y', iadd(m, k) if over else m), 'y')
        r = ex.run(step_fn(ex, 'PrepareStep', '(%s *' % t.split('::')[-1]), [ptr(o), options(ex, False), y, ptr(i)])
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige_eq('normsqrd = 0', ex.rv(i / ('f', 'normsqrd')), ZERO)
        ex.oblige_eq('norminfd = 0', ex.rv(i / ('f', 'norminfd')), ZERO)


zero_norms('Equality', EQ, 'conex::EqualityConstraints')
zero_norms('QuadraticCost', COST, 'conex::QuadraticFunction')


# ---------------------------------------------------------------- the initial scaling point
def identity_fn(ex, t):
    return step_fn(ex, 'SetIdentity', '(%s *' % t)


@contract('C06', 'Linear.SetIdentity', [LC])
def lp_identity(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = linear(ex, n, m)
    r = ex.run(identity_fn(ex, 'LinearConstraint'), [ptr(o)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('w = e', ex.rv(o / ('f', 'workspace_') / ('f', 'W')), Mat(n, 1, lambda i, j: const(1)))


@contract('C06', 'SOC.SetIdentity', [SOC])
def soc_identity(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o, w0 = soc(ex, n, m)
    r = ex.run(identity_fn(ex, 'SOCConstraint'), [ptr(o)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('w0 = 1', ex.rv(w0), const(1))
    ex.oblige_eq('w1 = 0', ex.rv(o / ('f', 'workspace_') / ('f', 'W1')), Mat(n, 1, lambda i, j: ZERO))


@contract('C06', 'Quadratic.SetIdentity', [QC])
def quad_identity(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o, w0, dot, _ = quad(ex, n, m, ex.choose('Q given'), ex.real('w0'))
    r = ex.run(identity_fn(ex, 'QuadraticConstraintBase'), [ptr(o)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('w0 = 1', ex.rv(w0), const(1))
    ex.oblige_eq('w1 = 0', ex.rv(o / ('f', 'workspace_') / ('f', 'W1')), Mat(n, 1, lambda i, j: ZERO))


@contract('C06', 'Psd.SetIdentity', [LMI, PSD])
def psd_identity(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = lmi(ex, n, m)
    r = ex.run(identity_fn(ex, 'PsdConstraint'), [ptr(o)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('w = e', ex.rv(o / ('f', 'workspace_') / ('f', 'W')), Mat(n, n, delta))


@contract('C06', 'SetIdentity', [CP])
def identity_all(ex):
    """every constraint is set to the identity, once"""
    N = ex.int('N', 0)
    man, L, cl, S = manager(ex, N)
    ghost = ex.new(ex.vec('set', N), 'ghost: number of calls')
    lst = ex.new(Vec(N, lambda k: Ptr(man / ('f', 'eqs') / ('at', k) / ('f', 'constraint'), False), 'conex::Constraint *'), 'constraints')

    def one(ex_, this, args):
        k = constraint_id(ex, args[0])
        if k is None:
            return NotImplemented
        g = ghost / ('el', k, 0)
        ex.store(g, ex.rv(g) + 1)
    ex.contracts['conex::SetIdentity'] = one
    r = ex.run(step_fn(ex, 'SetIdentity', '(std::vector<Constraint *> *'), [ptr(lst)])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq('every constraint, once', ex.rv(ghost), Mat(N, 1, lambda k, _: var('set', k) + 1))
