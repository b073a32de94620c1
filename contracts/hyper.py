"""Hypercomplex matrices: specification side."""
from common import *
from terms import Normalizer


def alg(n):
    return 'conex::MatrixAlgebra<%d>::' % n


def hyper(ex, name, n, r, c, herm=False):
    """symbolic n-component matrix (an lvalue)"""
    fs = comp(name, n, herm)
    return hvec(ex, [Mat(r, c, f) for f in fs])


def hvec(ex, mats):
    def el(k):
        if isinstance(k, int):
            return mats[k]
        raise Unsupported('symbolic component index')
    return ex.new(Vec(len(mats), el, 'Eigen::Matrix<double, -1, -1>'), 'h')


def comps(ex, v, n):
    v = ex.rv(v)
    return [ex.rv(v.at(k)) for k in range(n)]


def entries(ex, v, n):
    return [m.at for m in comps(ex, v, n)]


def comp(name, n, herm=False):
    """entry functions of the components"""
    if not herm:
        return [(lambda i, j, k=k: var('%s%d' % (name, k), i, j)) for k in range(n)]
    out = [lambda i, j: var(name + '0~', i, j)]
    for k in range(1, n):
        def f(i, j, k=k):
            s = '%s%d' % (name, k)
            return T.ite(cmpi('>', i, j), var(s, i, j), T.ite(cmpi('<', i, j), -var(s, j, i), ZERO))
        out.append(f)
    return out


def table(ex, n):
    """structure constants c[i][j] = list over k of the coefficient of e_k in e_i e_j, read off the
    code's own product of symbolic 1x1 matrices; None if the product is not bilinear"""
    x, y = hyper(ex, 'tx', n, 1, 1), hyper(ex, 'ty', n, 1, 1)
    z = ex.run(alg(n) + 'Multiply', [x, y])
    if z[0] != 'ret':
        return None
    out = [[[Fraction(0)] * n for _ in range(n)] for _ in range(n)]
    for k, m in enumerate(comps(ex, z[1], n)):
        for mono in Normalizer(ex.ctx).normal(m.at(0, 0)).values():
            nm = sorted(a.a[0] for a in mono.atoms) if all(a.op == 'v' for a in mono.atoms) else []
            if len(nm) != 2 or not nm[0].startswith('tx') or not nm[1].startswith('ty') or mono.binders or mono.guards:
                return None
            out[int(nm[0][2:])][int(nm[1][2:])][k] += mono.coef
    return out


def hmul(n, c, x, y, q):
    """entries of the matrix product over the algebra with structure constants c"""
    def comp_k(k):
        ts = [(i, j, c[i][j][k]) for i in range(n) for j in range(n) if c[i][j][k] != 0]
        return lambda a, b: add(*[mul(s, Sum(0, q, lambda t: x[i](a, t) * y[j](t, b))) for i, j, s in ts])
    return [comp_k(k) for k in range(n)]


# ---- laws of the algebra, decided on the structure constants
def tmul(c, x, y):
    n = len(c)
    z = [Fraction(0)] * n
    for i in range(n):
        if x[i]:
            for j in range(n):
                if y[j]:
                    for k in range(n):
                        if c[i][j][k]:
                            z[k] += x[i] * y[j] * c[i][j][k]
    return z


def unit(n, i):
    return [Fraction(int(i == k)) for k in range(n)]


def tconj(x):
    return [x[0]] + [-a for a in x[1:]]


def laws(c):
    """(name, holds)"""
    n = len(c)
    e = [unit(n, i) for i in range(n)]
    E = range(n)
    yield 'e_0 is the unit', all(tmul(c, e[0], e[i]) == e[i] == tmul(c, e[i], e[0]) for i in E)
    # |xy|^2 = |x|^2 |y|^2, as a polynomial identity: coefficients of x_i x_a y_j y_b
    dot = lambda u, v: sum(p * q for p, q in zip(u, v))
    ok = True
    for i in E:
        for a in range(i, n):
            for j in E:
                for b in range(j, n):
                    s = sum(dot(c[p][r], c[q][t]) for p, q in {(i, a), (a, i)} for r, t in {(j, b), (b, j)})
                    ok = ok and s == (1 if i == a and j == b else 0)
    yield 'the norm is multiplicative', ok
    yield 'conjugation reverses products', all(tconj(tmul(c, e[i], e[j])) == tmul(c, tconj(e[j]), tconj(e[i])) for i in E for j in E)
    yield 'x conj(x) is real', all([u + v for u, v in zip(tmul(c, e[i], tconj(e[j])), tmul(c, e[j], tconj(e[i])))][1:] == [0] * (n - 1) for i in E for j in E)
    asc = lambda i, j, k: [u - v for u, v in zip(tmul(c, tmul(c, e[i], e[j]), e[k]), tmul(c, e[i], tmul(c, e[j], e[k])))]
    if n <= 4:
        yield 'multiplication is associative', all(not any(asc(i, j, k)) for i in E for j in E for k in E)
    # alternative: the associator alternates
    yield 'multiplication is alternative', all(
        not any(u + v for u, v in zip(asc(i, j, k), asc(j, i, k))) and
        not any(u + v for u, v in zip(asc(i, j, k), asc(i, k, j))) for i in E for j in E for k in E)


def opaque_products(ex, N, n, letters, quad=False):
    """contract of Multiply (and QuadraticRepresentation for N = 8): the product of two recognised factors
    (scalar multiples of the letters or of earlier products) is an arbitrary matrix named by the word; words
    concatenate, which uses associativity (N <= 4) or, for N = 8, only names the products.
    letters: name -> component functions.  Returns the log word -> component functions."""
    log = {}
    R, C = z3.Int('?r'), z3.Int('?c')

    def fam(w):
        if w not in log:
            # Q(x)y is Hermitian for Hermitian x, y (consequence of the laws of C09)
            log[w] = comp('P[%s]' % w, N, herm=w.startswith('Q('))
        return log[w]

    def scaled(ms, fs):
        nz = Normalizer(ex.ctx)
        r = None
        for m, f in zip(ms, fs):
            p, q = nz.normal(m.at(R, C)), nz.normal(f(R, C))
            if set(p) != set(q):
                return None
            for k in p:
                t = p[k].coef / q[k].coef
                if r is None:
                    r = t
                if r != t:
                    return None
        return r

    def factor(a):
        ms = comps(ex, a, N)
        for w, f in list(letters.items()) + list(log.items()):
            fs = f() if callable(f) else f
            t = scaled(ms, fs) if fs is not None else None
            if t is not None:
                return t, w
        for w, f in list(letters.items()) + list(log.items()):
            fs = f() if callable(f) else f
            if fs is not None and all(T.prove_eq(ex.ctx, m.at(R, C), g(R, C)) for m, g in zip(ms, fs)):
                return const(1), w
        raise Unsupported('factor of a hypercomplex product is not recognised')

    def result(t, w):
        fs = fam(w)
        return ex.rv(hvec(ex, [Mat(n, n, lambda i, j, f=f: t * f(i, j)) for f in fs]))

    def mult(ex_, this, args):
        (s, u), (t, v) = factor(args[0]), factor(args[1])
        return result(s * t, u + v)

    def qrep(ex_, this, args):
        (s, u), (t, v) = factor(args[0]), factor(args[1])
        return result(s * s * t, 'Q(%s)%s' % (u, v))
    a = 'MatrixAlgebra<%d>::' % N
    if N <= 4:
        ex.contracts[a + 'Multiply'] = mult
    else:
        ex.contracts[a + 'QuadraticRepresentation'] = qrep
    return log
