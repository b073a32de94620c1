"""C05: every constraint type contributes the exact Newton-system coefficients."""
from common import *

ASSUMPTIONS = ['mathematical lemma: |x| = 0 exactly when x = 0 (case split of SOCSqrt)',
               'mathematical lemma: every w in the interior of a second-order cone is s o s with s interior, so that contracts quantified over s cover all w']

FN = 'conex::ConstructSchurComplementSystem'
A = lambda *i: var('A', *i)
c = lambda *i: var('c', *i)


@contract('C05', 'LinearConstraint', [LC])
def lp(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    M = ex.int('M')
    ex.assume(M >= m)
    o = linear(ex, n, m)
    s = schur_sys(ex, M)
    init = ex.bool('initialize')
    ex.decide(init)
    # callers hand systems of the constraint's size unless they start from zero
    w = lambda i: var('w', i)
    r = ex.run(FN, [ptr(o), init, ptr(s)], pred=by_type('LinearConstraint *'))
    ex.oblige('does not throw', r[0] == 'ret')
    check_schur(ex, s, M, m, init,
                lambda i, j: Sum(0, n, lambda k: w(k) * w(k) * A(k, i) * A(k, j)),
                lambda i: Sum(0, n, lambda k: w(k) * A(k, i)),
                lambda i: Sum(0, n, lambda k: w(k) * w(k) * A(k, i) * c(k)),
                Sum(0, n, lambda k: w(k) * c(k)), Sum(0, n, lambda k: w(k) * w(k) * c(k) * c(k)))


@contract('C05', 'EqualityConstraints', [EQ])
def equality(ex):
    n, m = ex.int('n', 0), ex.int('m', 0)     # n equations, m variables
    M = isimp(n + m)
    s = schur_sys(ex, M)
    o = ex.new(fresh_struct(ex, 'conex::EqualityConstraints', 'o', A_=ex.mat('A', n, m), b_=ex.vec('b', n), lambda_=ex.vec('l', n)), 'o')
    init = ex.bool('initialize')
    ex.decide(init)
    r = ex.run(FN, [ptr(o), init, ptr(s)], pred=by_type('EqualityConstraints *'))
    ex.oblige('does not throw', r[0] == 'ret')

    def G(i, j):
        return T.ite(land(cmpi('>=', i, m), cmpi('<', j, m)), A(isubt(i, m), j),
                     T.ite(land(cmpi('<', i, m), cmpi('>=', j, m)), A(isubt(j, m), i), ZERO))
    check_schur(ex, s, M, M, init, G, lambda i: ZERO,
                lambda i: T.ite(cmpi('>=', i, m), var('b', isubt(i, m)), ZERO), ZERO, ZERO)


@contract('C05', 'QuadraticFunction', [COST])
def cost(ex):
    M = ex.int('M', 0)
    s = schur_sys(ex, M)
    o = ex.new(fresh_struct(ex, 'QuadraticFunction', 'o', A_=ex.mat('A', M, M)), 'o')
    init = ex.bool('initialize')
    ex.decide(init)
    r = ex.run(ex_fn(ex, 'QuadraticFunction *'), [ptr(o), init, ptr(s)])
    ex.oblige('does not throw', r[0] == 'ret')
    check_schur(ex, s, M, M, init, lambda i, j: A(i, j), lambda i: ZERO, lambda i: ZERO, ZERO, ZERO)


def ex_fn(ex, t):
    for tu in ex.tus:
        for q, l in tu.funcs.items():
            if q.endswith('::ConstructSchurComplementSystem'):
                for f in l:
                    if cast.has_body(f) and t in cast.sig(f):
                        f['_tu'] = tu
                        return f
    raise cast.ExtractError('no definition for %s' % t)


@contract('C05', 'DenseLMIConstraint', [LMI])
def lmi_(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    o = lmi(ex, n, m)
    s = schur_sys(ex, m)
    init = ex.bool('initialize')
    ex.decide(init)
    w = lambda i, j: T.ite(cmpi('>=', i, j), var('w', i, j), var('w', j, i))
    r = ex.run(ex_fn(ex, 'DenseLMIConstraint *'), [ptr(o), init, ptr(s)])
    ex.oblige('does not throw', r[0] == 'ret')

    def waw(f, a, b):
        return Sum(0, n, lambda k: Sum(0, n, lambda l: w(a, k) * f(k, l) * w(l, b)))

    def ip(f, g):
        return Sum(0, n, lambda b: Sum(0, n, lambda a: f(a, b) * g(a, b)))
    check_schur(ex, s, m, m, init,
                lambda i, j: ip(lambda a, b: waw(lambda k, l: A(i, k, l), a, b), lambda a, b: A(j, a, b)),
                lambda i: ip(lambda a, b: w(a, b), lambda a, b: A(i, b, a)),
                lambda i: ip(lambda a, b: waw(lambda k, l: A(i, k, l), a, b), c),
                ip(w, c), ip(c, lambda a, b: waw(c, a, b)), lower=True)


# ---------------------------------------------------------------- second-order cone
s1 = lambda i: var('s1', i)


def soc_param(ex, n):
    """interior scaling point w, parametrised by its square root s: W0 = s0^2+|s1|^2, W1 = 2 s0 s1
    (surjective on the interior; contract SOCSqrt)"""
    s0 = ex.real('s0')
    q = Sum(0, n, lambda k: s1(k) * s1(k))
    return s0, s0 * s0 + q, Mat(n, 1, lambda i, j: 2 * s0 * s1(i))


def sqrt_contract(s0, W0, W1, n):
    def f(ex, this, args):
        x0, x = ex.rv(args[0]), ex.rv(args[1])
        ex.oblige_eq('precondition of Sqrt: x0', x0, W0)
        ex.oblige_eq('precondition of Sqrt: x1', x, W1)
        return Mat(iadd(n, 1), 1, lambda i, j: T.ite(cmpi('==', i, 0), s0, s1(isubt(i, 1))))
    return f


def soc_q(W0, W1, n, f, k):
    """Q(w)f = 2 <w,f> w - det(w) R f (Alizadeh, example 11.12), f = (f(0), f(1..n))"""
    det = W0 * W0 - Sum(0, n, lambda a: W1(a) * W1(a))
    ip = W0 * f(0) + Sum(0, n, lambda a: W1(a) * f(iadd(a, 1)))
    if k is None:
        return 2 * ip * W0 - det * f(0)
    return 2 * ip * W1(k) + det * f(iadd(k, 1))


def soc_ip(n, f, W0, W1, g):
    """2 <f, Q(w) g>"""
    return 2 * (f(0) * soc_q(W0, W1, n, g, None)
                + Sum(0, n, lambda k: f(iadd(k, 1)) * soc_q(W0, W1, n, g, k)))


@contract('C05', 'SOCConstraint', [SOC])
def soc_(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    s0, W0, W1 = soc_param(ex, n)
    o, _ = soc(ex, n, m, W0, W1)
    s = schur_sys(ex, m)
    init = ex.bool('initialize')
    ex.decide(init)
    ex.contracts['conex::Sqrt'] = sqrt_contract(s0, W0, W1, n)
    r = ex.run(ex_fn(ex, '(SOCConstraint *'), [ptr(o), init, ptr(s)])
    ex.oblige('does not throw', r[0] == 'ret')
    w1 = lambda i: W1.at(i, I(0))
    col = lambda i: (lambda k: A(k, i))
    cc = lambda k: c(k)
    check_schur(ex, s, m, m, init,
                lambda i, j: soc_ip(n, col(i), W0, w1, col(j)),
                lambda i: 2 * (W0 * A(0, i) + Sum(0, n, lambda k: w1(k) * A(iadd(k, 1), i))),
                lambda i: soc_ip(n, col(i), W0, w1, cc),
                2 * (W0 * c(0) + Sum(0, n, lambda k: w1(k) * c(iadd(k, 1)))),
                soc_ip(n, cc, W0, w1, cc))


@contract('C05', 'SOCSqrt', [SOC])
def soc_sqrt(ex):
    """Sqrt returns z with z o z = x, for every x in the cone"""
    n = ex.int('n', 1)
    x0 = ex.real('x0')
    zero = ex.choose('x1 = 0')     # |x1| = 0 exactly when x1 = 0 (mathematical lemma)
    x1 = Mat(n, 1, lambda i, j: ZERO if zero else var('x', i))
    nrm = T.fn('sqrt', Sum(0, n, lambda k: x1.at(k, I(0)) * x1.at(k, I(0))))
    if not zero:
        ex.assume(cmp_real(ex.ctx, '>', nrm, ZERO))
    ex.assume(cmp_real(ex.ctx, '>=', x0, nrm))       # x in the cone
    r = ex.run('conex::Sqrt', [x0, x1])
    ex.oblige('does not throw', r[0] == 'ret')
    z = ex.rv(r[1])
    ex.oblige('dimension', land(cmpi('==', z.rows, iadd(n, 1)), cmpi('==', z.cols, 1)))
    z0 = z.at(I(0), I(0))
    z1 = lambda k: z.at(iadd(k, 1), I(0))
    ex.oblige_eq('z0^2 + |z1|^2 = x0', z0 * z0 + Sum(0, n, lambda k: z1(k) * z1(k)), x0)
    ex.oblige_eq('2 z0 z1 = x1', Mat(n, 1, lambda i, j: 2 * z0 * z1(i)), x1)


# ---------------------------------------------------------------- quadratic cone  x0^2 >= x1' Q x1
def quad(ex, n, m, useQ, w0, gram=True):
    q = lambda i, j: var('Q~', i, j)         # symmetric
    A1 = lambda i, j: var('A1', i, j)
    Qm = Mat(n, n, q) if useQ else Mat(0, 0, lambda i, j: ZERO)
    w0lv = ex.new(w0, 'W0')
    ws = fresh_struct(ex, 'conex::WorkspaceSOC', 'ws', W0=Ptr(w0lv, False), W1=ex.vec('w1', n),
                      temp1_1=ex.vec('t1', n), temp2_1=ex.vec('t2', n), temp3_1=ex.vec('t3', n), n_=n,
                      W=ex.vec('Wd', iadd(n, 1)))
    dot = (lambda f, g: qdot(n, q if useQ else None, f, g))
    g = Mat(m, m, lambda i, j: dot(lambda k: A1(k, i), lambda k: A1(k, j)))
    over = dict(Q_=Qm, n_=n, workspace_=ws, A0_=ex.vec('A0', m), A1_=ex.mat('A1', n, m), C0_=ex.real('c0'),
                C1_=ex.vec('c1', n), A_dot_x_=ex.mat('adx', ex.int('adr', 0), ex.int('adc', 0)))
    if gram:
        over['A_gram_'] = g
    o = ex.new(fresh_struct(ex, 'conex::QuadraticConstraintBase', 'o', **over), 'o')
    return o, w0lv, dot, g


def qdot(n, q, f, g):
    """<f, Q g> (Q = identity when no matrix is given)"""
    if q is None:
        return Sum(0, n, lambda k: f(k) * g(k))
    return Sum(0, n, lambda a: Sum(0, n, lambda b: f(a) * q(a, b) * g(b)))


@contract('C05', 'QuadraticConstraint', [QC])
def quad_(ex):
    n, m = ex.int('n', 1), ex.int('m', 1)
    useQ = ex.choose('Q given')
    W0 = ex.real('w0')
    o, _, dot, _ = quad(ex, n, m, useQ, W0)
    s = schur_sys(ex, m)
    init = ex.bool('initialize')
    ex.decide(init)
    r = ex.run(ex_fn(ex, '(QuadraticConstraintBase *'), [ptr(o), init, ptr(s)])
    ex.oblige('does not throw', r[0] == 'ret')
    w1 = lambda k: var('w1', k)
    A0, C0 = (lambda i: var('A0', i)), var('c0')
    A1 = lambda i: (lambda k: var('A1', k, i))
    c1 = lambda k: var('c1', k)
    det = W0 * W0 - dot(w1, w1)

    def ip(f0, f, g0, g):
        # 2 <f, Q(w) g> in the metric of Q
        t = W0 * g0 + dot(w1, g)
        return 2 * (f0 * (2 * t * W0 - det * g0) + 2 * t * dot(f, w1) + det * dot(f, g))
    check_schur(ex, s, m, m, init,
                lambda i, j: ip(A0(i), A1(i), A0(j), A1(j)),
                lambda i: 2 * (W0 * A0(i) + dot(A1(i), w1)),
                lambda i: ip(A0(i), A1(i), C0, c1),
                2 * (W0 * C0 + dot(w1, c1)),
                ip(C0, c1, C0, c1))


@contract('C05', 'QuadraticConstraintGram', [QC])
def quad_gram(ex):
    """class invariant A_gram = A1' Q A1, established by Initialize"""
    n, m = ex.int('n', 1), ex.int('m', 1)
    o, _, dot, g = quad(ex, n, m, ex.choose('Q given'), ex.real('w0'), gram=False)
    ex.store(o / ('f', 'A_gram_'), ex.mat('gr', 0, 0))
    r = ex.run('conex::QuadraticConstraintBase::Initialize', [], this=o)
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige_eq("A_gram = A1' Q A1", ex.rv(o / ('f', 'A_gram_')), g)


# ---------------------------------------------------------------- Hermitian cones over R, C, H, O
from hyper import *  # noqa: E402


def hcomp(name, N, pre=()):
    """Hermitian matrix B + B^*, for arbitrary B"""
    def f(k):
        nm = '%s%d' % (name, k)
        if k == 0:
            return lambda i, j: var(nm + '~', *pre, i, j)
        return lambda i, j: var(nm, *pre, i, j) - var(nm, *pre, j, i)
    return [f(k) for k in range(N)]


def herm(ex, N, n, m):
    t = 'conex::HermitianPsdConstraint<conex::MatrixAlgebra<%d>>' % N
    HT = 'Eigen::Matrix<double, -1, -1>'

    def H(fs):
        return Vec(N, lambda k: Mat(n, n, fs[k]) if isinstance(k, int) else (_ for _ in ()).throw(Unsupported('component')), HT)
    mats = Vec(m, lambda i: H(hcomp('A', N, (i,))), 'conex::HyperComplexMatrix')
    return ex.new(fresh_struct(ex, t, 'o', rank_=n, constraint_matrices_=mats, constraint_affine_=H(hcomp('c', N)),
                               W=H(hcomp('w', N)), WS=H(comp('ws', N)), minus_s=H(comp('ms', N))), 'o')


def herm_contract(N):
    T_ = 'HermitianPsdConstraint<MatrixAlgebra<%d>>' % N

    @contract('C05', 'HermitianPsd<%d>' % N, [HERM, JORDAN], budget=400)
    def h(ex):
        n, m = ex.int('n', 1), ex.int('m', 1)
        o = herm(ex, N, n, m)
        s = schur_sys(ex, m)
        init = ex.bool('initialize')
        ex.decide(init)
        r = ex.run(herm_fn(ex, N, '::ConstructSchurComplementSystem'), [ptr(o), init, ptr(s)])
        ex.oblige('does not throw', r[0] == 'ret')
        tab = table(ex, N)
        w, c = hcomp('w', N), hcomp('c', N)
        Ai = lambda i: hcomp('A', N, (i,))
        ip = lambda x, y: add(*[Sum(0, n, lambda b: Sum(0, n, lambda a: x[k](a, b) * y[k](a, b))) for k in range(N)])
        qr = lambda x: hmul(N, tab, w, hmul(N, tab, x, w, n), n)
        check_schur(ex, s, m, m, init,
                    lambda i, j: ip(Ai(i), qr(Ai(j))), lambda i: ip(Ai(i), w), lambda i: ip(c, qr(Ai(i))),
                    ip(w, c), ip(c, qr(c)), lower=True)


def herm_fn(ex, N, suffix):
    for tu in ex.tus:
        for q, l in tu.funcs.items():
            if q.endswith(suffix):
                for f in l:
                    if cast.has_body(f) and ('MatrixAlgebra<%d>' % N in cast.sig(f) or N == 8 and ('MatrixAlgebra<>' in cast.sig(f) or 'Octonions' in cast.sig(f))):
                        f['_tu'] = tu
                        return f
    raise cast.ExtractError('no %s over MatrixAlgebra<%d>' % (suffix, N))


for N in (1, 2):
    herm_contract(N)


# ---- quaternions, octonions: products by the contracts of C09 (associative for N=4, Multiply / QuadraticRepresentation
# as functions of their arguments); the identity Re tr(xy) = <x,y> for Hermitian x, y is contract TraceHermitian
def word_of(ex, N, ms, letters, log):
    """(word, indices) of a factor: one of the letters or an earlier product"""
    R, C = z3.Int('?r'), z3.Int('?c')
    cands = []
    for mono in Normalizer(ex.ctx).normal(ms[0].at(R, C)).values():
        for a in mono.atoms:
            if a.op == 'v':
                cands.append((a.a[0], a.a[1:]))
    if not cands:
        return None
    for w, fam in list(letters.items()) + list(log.items()):
        for nm, ix in cands:
            base = nm[:-1] if nm.endswith('~') else nm
            if base != fam.base + '0':
                continue
            ix = list(ix[0]) if len(ix) == 1 and isinstance(ix[0], tuple) else list(ix)
            pre = tuple(ix[:len(ix) - 2])
            fs = fam(pre)
            if all(prove_same(ex, m, Mat(m.rows, m.cols, f)) for m, f in zip(ms, fs)):
                return w, pre
    return None


class Fam:
    def __init__(self, base, fn):
        self.base, self.fn = base, fn

    def __call__(self, pre):
        return self.fn(pre)


def prove_same(ex, a, b):
    i, j = z3.Int('?i'), z3.Int('?j')
    return bool(T.prove_eq(ex.ctx, a.at(i, j), b.at(i, j)))


def plain(name, N, pre):
    return [(lambda i, j, k=k: var('%s%d' % (name, k), *pre, i, j)) for k in range(N)]


def products(ex, N, n, letters):
    """install contracts of Multiply (N=4) and QuadraticRepresentation; returns the log of words"""
    log = {}

    def fam(w):
        if w not in log:
            nm = 'P[%s]' % w
            log[w] = Fam(nm, lambda pre, nm=nm: plain(nm, N, pre))
        return log[w]

    def factor(a):
        r = word_of(ex, N, comps(ex, a, N), letters, log)
        if r is None:
            raise Unsupported('factor of a hypercomplex product is not recognised')
        return r

    def mult(ex_, this, args):
        (u, p), (v, q) = factor(args[0]), factor(args[1])
        return ex.rv(hvec(ex, [Mat(n, n, f) for f in fam(u + v)(tuple(p) + tuple(q))]))

    def quad(ex_, this, args):
        (u, p), (v, q) = factor(args[0]), factor(args[1])
        w = u + v + u if N == 4 else 'Q(%s)%s' % (u, v)
        pre = tuple(p) + tuple(q) + tuple(p) if N == 4 else tuple(p) + tuple(q)
        return ex.rv(hvec(ex, [Mat(n, n, f) for f in fam(w)(pre)]))
    a = 'MatrixAlgebra<%d>::' % N
    if N == 4:
        ex.contracts[a + 'Multiply'] = mult
    ex.contracts[a + 'QuadraticRepresentation'] = quad
    return log


def letters_of(N):
    return {'W': Fam('w', lambda pre: hcomp('w', N)), 'A': Fam('A', lambda pre: hcomp('A', N, pre)),
            'C': Fam('c', lambda pre: hcomp('c', N))}


def herm_modular(N):
    @contract('C05', 'HermitianPsd<%d>' % N, [HERM, JORDAN], budget=400)
    def h(ex):
        n, m = ex.int('n', 1), ex.int('m', 1)
        o = herm(ex, N, n, m)
        s = schur_sys(ex, m)
        init = ex.bool('initialize')
        ex.decide(init)
        ex.abstract = True
        log = products(ex, N, n, letters_of(N))
        r = ex.run(herm_fn(ex, N, '::ConstructSchurComplementSystem'), [ptr(o), init, ptr(s)])
        ex.oblige('does not throw', r[0] == 'ret')
        w, c = hcomp('w', N), hcomp('c', N)
        Ai = lambda i: hcomp('A', N, (i,))
        ip = lambda x, y: add(*[Sum(0, n, lambda b: Sum(0, n, lambda a: x[k](a, b) * y[k](a, b))) for k in range(N)])
        wd = (lambda x: 'W%sW' % x) if N == 4 else (lambda x: 'Q(W)%s' % x)
        P = lambda x, pre=(): plain('P[%s]' % x, N, pre)
        # A^T w: either <A_i, w> or the equal Re tr(A_i w)
        tr = [x for x in ('AW', 'WA') if x in log]
        aw = (lambda i: Sum(0, n, lambda t: P(tr[0], (i,))[0](t, t))) if tr else (lambda i: ip(Ai(i), w))
        check_schur(ex, s, m, m, init,
                    lambda i, j: ip(Ai(i), P(wd('A'), (j,))), aw, lambda i: ip(c, P(wd('A'), (i,))),
                    ip(w, c), ip(c, P(wd('C'))), lower=True)


for N in (4, 8):
    herm_modular(N)


from ctors import constructors  # noqa: E402
constructors('C05')
