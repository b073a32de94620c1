"""C09: hypercomplex matrix arithmetic obeys the algebra laws."""
from common import *
from hyper import *

ASSUMPTIONS = ['the laws of the scalar algebra are decided on its structure constants, read off the code\'s product of '
               'symbolic 1x1 matrices; lifting them to matrices uses bilinearity (contract Multiply)']


def expect(ex, name, r, n, rows, cols, want):
    ex.oblige(name + ': does not throw', r[0] == 'ret')
    v = ex.rv(r[1])
    ex.oblige('%s: %d components' % (name, n), cmpi('==', v.n, n))
    for k, m in enumerate(comps(ex, r[1], n)):
        ex.oblige_eq('%s, component %d' % (name, k), m, Mat(rows, cols, want[k]))


def per_dim(N):
    def c09(name, **kw):
        return contract('C09', '%s<%d>' % (name, N), [JORDAN], **kw)
    A = alg(N)

    @c09('Multiply')
    def mult(ex):
        c = table(ex, N)
        ex.oblige('the product of scalars is bilinear', c is not None)
        for nm, ok in laws(c):
            ex.oblige(nm, ok)
        p, q, r = ex.int('p', 1), ex.int('q', 1), ex.int('r', 1)
        z = ex.run(A + 'Multiply', [hyper(ex, 'x', N, p, q), hyper(ex, 'y', N, q, r)])
        expect(ex, 'matrix product', z, N, p, r, hmul(N, c, comp('x', N), comp('y', N), q))

    @c09('ConjugateTranspose')
    def conj(ex):
        p, q = ex.int('p', 0), ex.int('q', 0)
        x = comp('x', N)
        z = ex.run(A + 'ConjugateTranspose', [hyper(ex, 'x', N, p, q)])
        expect(ex, 'conjugate transpose', z, N, q, p,
               [(lambda i, j, k=k: x[k](j, i) if k == 0 else -x[k](j, i)) for k in range(N)])

    @c09('Linear')
    def lin(ex):
        p, q = ex.int('p', 0), ex.int('q', 0)
        x, y = comp('x', N), comp('y', N)
        s = ex.real('s')
        z = ex.run(A + 'Add', [hyper(ex, 'x', N, p, q), hyper(ex, 'y', N, p, q)])
        expect(ex, 'sum', z, N, p, q, [(lambda i, j, k=k: x[k](i, j) + y[k](i, j)) for k in range(N)])
        z = ex.run(A + 'ScalarMultiply', [hyper(ex, 'x', N, p, q), s])
        expect(ex, 'scalar multiple', z, N, p, q, [(lambda i, j, k=k: s * x[k](i, j)) for k in range(N)])
        z = ex.run(A + 'Zero', [p, q])
        expect(ex, 'zero', z, N, p, q, [lambda i, j: ZERO] * N)
        z = ex.run(A + 'Identity', [p])
        expect(ex, 'identity', z, N, p, p, [lambda i, j: T.ite(cmpi('==', i, j), ONE, ZERO)] + [lambda i, j: ZERO] * (N - 1))
        z = ex.run(A + 'MakeHermitian', [hyper(ex, 'x', N, p, p)])
        h = Fraction(1, 2)
        expect(ex, 'Hermitian part', z, N, p, p,
               [(lambda i, j, k=k: h * (x[k](i, j) + x[k](j, i)) if k == 0 else h * (x[k](i, j) - x[k](j, i))) for k in range(N)])

    @c09('TraceInnerProduct')
    def tip(ex):
        """Re tr(x^* y)"""
        p, q = ex.int('p', 1), ex.int('q', 1)
        x, y = comp('x', N), comp('y', N)
        z = ex.run(A + 'TraceInnerProduct', [hyper(ex, 'x', N, p, q), hyper(ex, 'y', N, p, q)])
        ex.oblige('does not throw', z[0] == 'ret')
        c = table(ex, N)
        ct = [(lambda i, j, k=k: x[k](j, i) if k == 0 else -x[k](j, i)) for k in range(N)]
        re = hmul(N, c, ct, y, p)[0]
        ex.oblige_eq('Re tr(x^* y)', z[1], Sum(0, q, lambda t: re(t, t)))

    @c09('JordanMultiply')
    def jor(ex):
        n = ex.int('n', 1)
        x, y = comp('x', N), comp('y', N)
        c = table(ex, N)
        z = ex.run(A + 'JordanMultiply', [hyper(ex, 'x', N, n, n), hyper(ex, 'y', N, n, n)])
        a, b = hmul(N, c, x, y, n), hmul(N, c, y, x, n)
        expect(ex, '(xy+yx)/2', z, N, n, n, [(lambda i, j, k=k: Fraction(1, 2) * (a[k](i, j) + b[k](i, j))) for k in range(N)])

    @c09('TraceHermitian')
    def trh(ex):
        """Re tr(xy) = <x,y> for Hermitian x, y (used by C05, C06)"""
        n = ex.int('n', 1)
        c = table(ex, N)

        def h(nm):
            return [(lambda i, j, k=k: var(nm + '0~', i, j) if k == 0 else var('%s%d' % (nm, k), i, j) - var('%s%d' % (nm, k), j, i))
                    for k in range(N)]
        x, y = h('x'), h('y')
        X, Y = (hvec(ex, [Mat(n, n, f) for f in u]) for u in (x, y))
        z = ex.run(A + 'Multiply', [X, Y])
        re = comps(ex, z[1], N)[0]
        ex.oblige_eq('Re tr(xy) = <x,y>', Sum(0, n, lambda t: re.at(t, t)),
                     add(*[Sum(0, n, lambda a: Sum(0, n, lambda b: x[k](a, b) * y[k](a, b))) for k in range(N)]))

    @c09('QuadraticRepresentation', budget=400)
    def quad(ex):
        n = ex.int('n', 1)
        x, y = comp('x', N), comp('y', N)
        c = table(ex, N)
        if N <= 2:
            z = ex.run(A + 'QuadraticRepresentation', [hyper(ex, 'x', N, n, n), hyper(ex, 'y', N, n, n)])
            expect(ex, 'x y x', z, N, n, n, hmul(N, c, hmul(N, c, x, y, n), x, n))
            return
        # modular: JordanMultiply by its contract, a bilinear commutative product
        log = []

        def jordan(ex, this, args):
            k = len(log)
            log.append(tuple(tuple(comps(ex, a, N)) for a in args[:2]))
            r = [Mat(n, n, f) for f in comp('jm%d_' % k, N)]
            return ex.rv(hvec(ex, r))
        ex.contracts['MatrixAlgebra<%d>::JordanMultiply' % N] = jordan
        X, Y = hyper(ex, 'x', N, n, n), hyper(ex, 'y', N, n, n)
        z = ex.run(A + 'QuadraticRepresentation', [X, Y])
        ex.oblige('does not throw', z[0] == 'ret')
        # identify the products by their arguments
        name = {}

        def val(ms):
            for nm, fs in known:
                if all(prove_same(ex, m, Mat(n, n, f)) for m, f in zip(ms, fs)):
                    return nm
            return None
        known = [('x', x), ('y', y)]
        for k, (a, b) in enumerate(log):
            u, v = val(a), val(b)
            ex.oblige('arguments of Jordan products are x, y or earlier products', u is not None and v is not None)
            known.append(('(%s)' % '*'.join(sorted([str(u), str(v)])), comp('jm%d_' % k, N)))
        d = dict(known)
        pxy, pxx = d.get('(x*y)'), d.get('(x*x)')
        p1 = d.get('(%s)' % '*'.join(sorted(['x', '(x*y)'])))
        p2 = d.get('(%s)' % '*'.join(sorted(['(x*x)', 'y'])))
        if p1 is None or p2 is None:
            raise Unsupported('quadratic representation computed differently')
        expect(ex, '2 x.(x.y) - (x.x).y', z, N, n, n, [(lambda i, j, k=k: 2 * p1[k](i, j) - p2[k](i, j)) for k in range(N)])


def prove_same(ex, a, b):
    from terms import prove_eq
    i, j = z3.Int('?i'), z3.Int('?j')
    return bool(prove_eq(ex.ctx, a.at(i, j), b.at(i, j)))


for N in (1, 2, 4, 8):
    per_dim(N)
