"""Trusted model of the Eigen operations conex uses: every expression denotes the
mathematical matrix over the reals; every access carries the bounds obligation that
Eigen checks only in debug builds."""
import re
import z3
from terms import *
import terms as T
from values import *
import exec as X
from exec import strip_cv, ALIASES, eigen_dims, is_map_t, targs, is_one


class Comma:
    def __init__(self, lv, rows, cols):
        self.lv = lv
        self.rows = rows
        self.cols = cols
        self.r = 0
        self.c = 0
        self.h = None


METHODS = {'value', 'eval'}


def ends_plain(lv):
    return not lv.path or lv.path[-1][0] in ('f', 'at')


def mlv(ex, base, v):
    """lvalue of the matrix (resolves maps)"""
    if isinstance(v, MapVal):
        return ex.map_lv(v)
    return base if isinstance(base, LV) else None


def srckey(lv):
    return tuple(X.__dict__['pkey'](p) if False else p for p in ())


def lvkey(lv):
    return LV(lv.loc, [p for p in lv.path if p[0] not in ('T', 'arr')]).key()


def operand(ex, a):
    """value of an operand, remembering where it is read from"""
    v = ex.load(a)
    lv = a if isinstance(a, LV) else None
    if isinstance(v, MapVal):
        lv = ex.map_lv(v)
        v = ex.rv(v)
    if isinstance(v, Mat) and lv is not None:
        kinds = 'perm' if any(p[0] == 'T' for p in lv.path) else 'elem'
        v = v.copy(deps={(lvkey(lv), kinds)})
    return v


def dimeq(ex, what, *prs):
    ex.bounds('dimensions of %s' % what, land(*[cmpi('==', x, y) for x, y in prs]))


def transpose(v):
    pr = None
    if v.pair:
        pr = v.pair[:3] if len(v.pair) == 4 else v.pair + ('T',)
    return Mat(v.cols, v.rows, lambda i, j: v.at(j, i), v.arr, {(l, 'perm' if k == 'elem' else k) for l, k in v.deps}, pr)


# ------------------------------------------------------------------ construction
def ptr_view(ex, p, r, c):
    if isinstance(p, Uninit):
        raise Unsupported('map of an uninitialised pointer')
    if not isinstance(p, Ptr):
        raise Unsupported('map of %r' % (p,))
    if p.lv is None:
        return MapVal(LV('null#'), r, c)
    path = p.lv.path
    if path and path[-1][0] == 'lin':
        base = LV(p.lv.loc, path[:-1])
        if ikey(path[-1][1]) == '0':
            return MapVal(base, r, c)
        m = ex.rv(base)
        # start of a column
        off = path[-1][1]
        raise Unsupported('map at an offset into a matrix')
    return MapVal(p.lv, r, c)


def construct(ex, n, t, d, args):
    args = [a for a in args if a is not X.DEFAULT_ARG]
    if is_map_t(t):
        inner = strip_cv(targs(t)[0])
        di = eigen_dims(inner) or (-1, -1, False)
        if args and isinstance(ex.load(args[0]), (MapVal, Mat)) and len(args) == 1:
            v = ex.load(args[0])
            return v if isinstance(v, MapVal) else (ex.view_of(args[0], v) if isinstance(args[0], LV) else v)
        p = ex.load(args[0])
        dims = [ex.rv(a) for a in args[1:] if is_int(ex.rv(a))]
        if len(dims) >= 2:
            r, c = dims[0], dims[1]
        elif len(dims) == 1:
            r, c = (dims[0], 1) if di[1] == 1 else (1, dims[0])
        else:
            r, c = max(di[0], 0), max(di[1], 0)
        return ptr_view(ex, p, r, c)
    vals = [ex.load(a) for a in args]
    if not vals:
        return ex.default_of(t, 'm')
    if len(vals) == 1:
        v = ex.rv(vals[0])
        if isinstance(v, Mat):
            return ex.to_plain(v.copy(deps=frozenset()), d)
        if is_int(v) or is_bool(v):
            nm = fresh_name('uninit')
            if d[1] == 1:
                return ex.mat(nm, v, 1)
            if d[0] == 1:
                return ex.mat(nm, 1, v)
            raise Unsupported('matrix from one integer')
        if isinstance(v, Uninit):
            return v
        if isinstance(v, Vec):
            return Mat(v.n, 1, lambda i, j: const(v.at(i)), d[2])
        if isinstance(v, (Opaque, Struct)):
            raise Unsupported('matrix from %r' % (v,))
    if len(vals) >= 2 and (d[0], d[1]) in ((2, 1), (3, 1), (4, 1)):
        es = [const(ex.rv(v)) for v in vals]
        return Mat(d[0], 1, lambda i, j: X.const_vec(es).at(i), d[2])
    if len(vals) == 2:
        r, c = ex.rv(vals[0]), ex.rv(vals[1])
        if is_int(r) and is_int(c):
            ex.bounds('matrix size', land(cmpi('>=', r, 0), cmpi('>=', c, 0)))
            return ex.mat(fresh_name('uninit'), r, c)
    raise Unsupported('construction of %s from %r' % (t, vals))


def construct_other(ex, n, t, args):
    if not args:
        return Opaque(t)
    if t.startswith('Eigen::Ref'):
        v = ex.load(args[0])
        if isinstance(v, (MapVal, Mat)):
            return v if isinstance(v, MapVal) else (ex.view_of(args[0], v) if isinstance(args[0], LV) else v)
    if re.match(r'^(?:const )?Eigen::PermutationMatrix<', t):
        v = ex.rv(args[0])
        if isinstance(v, Struct) and v.t == '$perm':
            return v
        if isinstance(v, Struct) and v.t == '$transpositions' and getattr(ex, 'perm_of', None):
            return ex.perm_of(v)
        if is_int(v):
            return Struct('$perm', {'idx': ex.mat(fresh_name('uninit'), v, 1), 'tr': False})
    # solver objects: LLT, SelfAdjointEigenSolver, ...
    return Struct('$' + re.sub(r'<.*', '', t), {'arg%d' % i: ex.rv(a) for i, a in enumerate(args)})


# ------------------------------------------------------------------ methods
VIEW = {'block', 'topLeftCorner', 'topRightCorner', 'bottomLeftCorner', 'bottomRightCorner', 'topRows',
        'bottomRows', 'leftCols', 'rightCols', 'middleRows', 'middleCols', 'col', 'row', 'segment', 'head',
        'tail', 'diagonal', 'transpose', 'array', 'matrix', 'adjoint', 'conjugate', 'real'}


def view_items(ex, m, nm, a):
    R, C = m.rows, m.cols

    def blk(r0, c0, r, c):
        ex.bounds('block', land(cmpi('>=', r0, 0), cmpi('>=', c0, 0), cmpi('>=', r, 0), cmpi('>=', c, 0),
                                cmpi('<=', iadd(r0, r), R), cmpi('<=', iadd(c0, c), C)))
        return [('blk', isimp(r0), isimp(c0), isimp(r), isimp(c))]
    if nm == 'block':
        return blk(*a)
    if nm == 'topLeftCorner':
        return blk(0, 0, a[0], a[1])
    if nm == 'topRightCorner':
        return blk(0, isubt(C, a[1]), a[0], a[1])
    if nm == 'bottomLeftCorner':
        return blk(isubt(R, a[0]), 0, a[0], a[1])
    if nm == 'bottomRightCorner':
        return blk(isubt(R, a[0]), isubt(C, a[1]), a[0], a[1])
    if nm == 'topRows':
        return blk(0, 0, a[0], C)
    if nm == 'bottomRows':
        return blk(isubt(R, a[0]), 0, a[0], C)
    if nm == 'middleRows':
        return blk(a[0], 0, a[1], C)
    if nm == 'leftCols':
        return blk(0, 0, R, a[0])
    if nm == 'rightCols':
        return blk(0, isubt(C, a[0]), R, a[0])
    if nm == 'middleCols':
        return blk(0, a[0], R, a[1])
    if nm == 'col':
        return blk(0, a[0], R, 1)
    if nm == 'row':
        return blk(a[0], 0, 1, C)
    if nm in ('segment', 'head', 'tail'):
        row = m.is_row
        N = C if row else R
        if nm == 'segment':
            s, l = a
        elif nm == 'head':
            s, l = 0, a[0]
        else:
            s, l = isubt(N, a[0]), a[0]
        if not row and not is_one(C):
            raise Unsupported('%s of a matrix' % nm)
        return blk(0, s, 1, l) if row else blk(s, 0, l, 1)
    if nm == 'diagonal':
        return [('diag',)]
    if nm in ('transpose', 'adjoint'):
        return [('T',)]
    if nm == 'array':
        return [('arr', True)]
    if nm == 'matrix':
        return [('arr', False)]
    return []


def vsize(m):
    if is_one(m.cols):
        return m.rows
    if is_one(m.rows):
        return m.cols
    raise Unsupported('vector operation on a matrix')


def entry(m, k):
    return m.vat(k)


def total(m, g):
    """sum over all entries"""
    if is_one(m.cols):
        return Sum(0, m.rows, lambda i: g(m.at(i, 0)))
    if is_one(m.rows):
        return Sum(0, m.cols, lambda j: g(m.at(0, j)))
    return Sum(0, m.cols, lambda j: Sum(0, m.rows, lambda i: g(m.at(i, j))))


def big(ex, op, m):
    if is_one(m.cols):
        return Big(op, 0, m.rows, lambda i: m.at(i, 0))
    if is_one(m.rows):
        return Big(op, 0, m.cols, lambda j: m.at(0, j))
    return Big(op, 0, m.cols, lambda j: Big(op, 0, m.rows, lambda i: m.at(i, j)))


def ew(m, g):
    return Mat(m.rows, m.cols, lambda i, j: g(m.at(i, j)), m.arr, m.deps)


def inner(ex, a, b):
    """sum_k a_k b_k of two vectors"""
    pa = a.pair[:3] if a.pair else None
    pb = b.pair[:3] if b.pair else None
    n = vsize(a)
    ra = a if is_one(a.cols) else None
    if pa and pb and ex.same(pa[0], pb[0]) and ex.same(pa[1], pb[1]) and pair_ok(a) and pair_ok(b):
        return Sum(0, pa[1], lambda c: Sum(0, pa[0], lambda r: mul(pa[2](r, c, 0), pb[2](r, c, 0))))
    return Sum(0, n, lambda k: mul(a.vat(k), b.vat(k)))


def pair_ok(v):
    """pair information describes the vector's running index"""
    return (is_one(v.cols) and len(v.pair) == 3) or (is_one(v.rows) and len(v.pair) == 4)


def method(ex, base, v, nm, argnodes, n, me):
    if isinstance(v, E):
        return v
    if nm == 'noalias':
        lv = mlv(ex, base, v)
        return LV(lv.loc, lv.path, True)
    if nm in ('eval', 'const_cast_derived', 'derived', 'operator()', 'cast'):
        if nm == 'operator()':
            raise Unsupported('operator()')
        m = ex.rv(base)
        return m.copy(deps=frozenset())
    if nm == 'operator const double' or nm.startswith('operator const') or nm in ('value', 'operator double'):
        m = ex.rv(base)
        return m.at(0, 0)
    if nm == 'rows':
        return (v if isinstance(v, MapVal) else v).rows
    if nm == 'cols':
        return v.cols
    if nm in ('size',):
        return imul(v.rows, v.cols)
    if nm == 'data':
        lv = mlv(ex, base, v)
        if lv is None:
            raise Unsupported('data() of a temporary')
        if isinstance(v, MapVal):
            if v.lv.path and v.lv.path[-1][0] == 'at':
                return Ptr(v.lv, False)
            return Ptr(v.lv / ('lin', 0), False)
        return Ptr(lv / ('lin', 0), False)
    if nm == 'operator=':
        return ex.assign(base, ex.ev(argnodes[0]), n)
    m = ex.rv(base)
    if not isinstance(m, Mat):
        raise Unsupported('%s of %r' % (nm, m))
    if ex.opaque_reductions and nm in ('norm', 'dot', 'sum', 'squaredNorm'):
        # an arbitrary value (of the right sign)
        for x in argnodes:
            ex.ev(x)
        v = var(fresh_name(nm))
        return v if nm in ('dot', 'sum') else T.fn('abs', v)
    if nm in ('maxCoeff', 'minCoeff'):
        ps = [ex.load(ex.ev(x)) for x in argnodes if x.get('kind') != 'CXXDefaultArgExpr']
        ps = [p for p in ps if isinstance(p, Ptr)]
        ex.bounds(nm + ' of a non-empty vector', land(cmpi('>', m.rows, 0), cmpi('>', m.cols, 0)))
        if not ps:
            return big(ex, nm[:3], m)
        nsz = vsize(m)
        k = z3.Int(fresh_name('arg' + nm[:3]))
        ex.ctx.add(z3.And(k >= 0, k < I(nsz)))
        val = entry(m, k)
        ex.store(ps[0].lv, k)
        r = big(ex, nm[:3], m)
        ex.argfacts = getattr(ex, 'argfacts', [])
        ex.argfacts.append((k, m, r))
        return val
    if nm in ('triangularView', 'selfadjointView'):
        mode = view_mode(n)
        return tri_view(ex, base, v, m, nm, mode)
    a = [ex.val(x) for x in argnodes if x.get('kind') != 'CXXDefaultArgExpr']
    if nm in VIEW:
        if not a and nm in ('topRows', 'head', 'tail', 'leftCols', 'topLeftCorner', 'bottomRows', 'rightCols', 'segment', 'block'):
            raise Unsupported('fixed-size %s' % nm)
        items = view_items(ex, m, nm, a)
        lv = mlv(ex, base, v)
        if lv is not None:
            for it in items:
                lv = lv / it
            return lv
        r = m
        for it in items:
            r = transpose(r) if it[0] == 'T' else ex.proj(r, it)
            if r.deps != m.deps:
                pass
        return r
    if nm == 'sum':
        return total(m, lambda x: x)
    if nm == 'trace':
        return Sum(0, ex.imin(m.rows, m.cols), lambda i: m.at(i, i))
    if nm == 'squaredNorm':
        return total(m, lambda x: mul(x, x))
    if nm == 'norm':
        return T.fn('sqrt', total(m, lambda x: mul(x, x)))
    if nm == 'lpNorm':
        raise Unsupported('lpNorm')
    if nm == 'dot':
        b = ex.rv(ex.ev(argnodes[0])) if not isinstance(a[0], Mat) else a[0]
        dimeq(ex, 'dot', (vsize(m), vsize(b)))
        return inner(ex, m, b)
    if nm in ('abs', 'cwiseAbs'):
        return ew(m, lambda x: T.fn('abs', x))
    if nm in ('exp', 'log', 'sqrt'):
        return ew(m, lambda x: T.fn(nm, x))
    if nm in ('cwiseSqrt',):
        return ew(m, lambda x: T.fn('sqrt', x))
    if nm in ('square', 'cwiseAbs2', 'abs2'):
        return ew(m, lambda x: mul(x, x))
    if nm == 'cwiseInverse' or (nm == 'inverse' and (m.arr or m.diagw)):
        return ew(m, T.inv).copy(diagw=m.diagw)
    if nm in ('cwiseProduct', 'cwiseMax', 'cwiseMin', 'cwiseQuotient'):
        b = a[0]
        dimeq(ex, nm, (m.rows, b.rows), (m.cols, b.cols))
        f = {'cwiseProduct': mul, 'cwiseMax': T.Max, 'cwiseMin': T.Min, 'cwiseQuotient': lambda x, y: mul(x, T.inv(y))}[nm]
        return Mat(m.rows, m.cols, lambda i, j: f(m.at(i, j), b.at(i, j)), m.arr, m.deps | b.deps)
    if nm == 'asDiagonal':
        return m.copy(diagw=True)
    if nm in ('setZero', 'setOnes', 'setConstant', 'setIdentity', 'setRandom', 'fill'):
        lv = mlv(ex, base, v)
        args = list(a)
        c = ZERO
        if nm in ('setConstant', 'fill'):
            c = const(args.pop())
        if nm == 'setOnes':
            c = ONE
        r, k = m.rows, m.cols
        if len(args) == 1:
            r, k = (args[0], 1) if not m.is_row else (1, args[0])
        elif len(args) == 2:
            r, k = args
        if nm == 'setIdentity':
            nv = Mat(r, k, lambda i, j: T.ite(cmpi('==', i, j), ONE, ZERO), m.arr)
        elif nm == 'setRandom':
            nv = ex.mat(fresh_name('rand'), r, k)
        else:
            nv = Mat(r, k, lambda i, j: c, m.arr)
        ex.store(lv, nv)
        return lv
    if nm in ('resize', 'conservativeResize'):
        lv = mlv(ex, base, v)
        if len(a) == 1:
            r, k = (a[0], 1) if not m.is_row else (1, a[0])
        else:
            r, k = a
        ex.bounds('%s size' % nm, land(cmpi('>=', r, 0), cmpi('>=', k, 0)))
        u = fresh_name('uninit')
        old = m
        if nm == 'resize':
            if ex.same(r, m.rows) and ex.same(k, m.cols):
                return None
            nv = ex.mat(u, r, k)
        else:
            one = is_one(k)
            nv = Mat(r, k, lambda i, j: T.ite(land(cmpi('<', i, old.rows), cmpi('<', j, old.cols)), old.at(i, j),
                                              var(u, i) if one else var(u, i, j)), m.arr)
        ex.store(lv, nv)
        return None
    if nm in ('partialPivLu', 'colPivHouseholderQr', 'llt', 'ldlt', 'fullPivLu', 'lu', 'householderQr'):
        return Struct('$solver', {'mat': m, 'kind': Opaque(nm)})
    if nm == 'isApprox':
        raise Unsupported('isApprox')
    if nm == 'swap':
        b = ex.ev(argnodes[0])
        vb = ex.rv(b)
        ex.store(mlv(ex, base, v), vb)
        ex.store(b, m)
        return None
    if nm == 'colwise' or nm == 'rowwise':
        return Struct('$' + nm, {'mat': m})
    raise Unsupported('Eigen method %s' % nm)


def view_mode(n):
    t = X.ty(n)
    t = ((n.get('type') or {}).get('desugaredQualType') or t)
    m = re.search(r'(TriangularView|SelfAdjointView)<', t)
    if m:
        a = targs(t[m.start():])
        if not a or not re.match(r'^\d+U?$', a[-1].strip()):
            raise Unsupported('view mode %s' % t)
        return int(a[-1].strip().rstrip('U'))
    if not m:
        # ConstTriangularViewReturnType<Mode>
        m2 = re.search(r'<\s*(?:Eigen::)?(Lower|Upper|\d+)\w*\s*>', t)
        if not m2:
            raise Unsupported('view mode %s' % t)
        g = m2.group(1)
        return {'Lower': 1, 'Upper': 2}.get(g) or int(g)
    return int(m.group(2))


def tri_view(ex, base, v, m, nm, mode):
    if nm == 'selfadjointView':
        if mode == 1:
            f = lambda i, j: T.ite(cmpi('>=', i, j), m.at(i, j), m.at(j, i))
        else:
            f = lambda i, j: T.ite(cmpi('<=', i, j), m.at(i, j), m.at(j, i))
        if isinstance(base, LV):
            return Mat(m.rows, m.cols, f)
        return Mat(m.rows, m.cols, f)
    ok = {1: '>=', 2: '<='}.get(mode & 3)
    if mode not in (1, 2):
        raise Unsupported('triangular view mode %d' % mode)
    r = Mat(m.rows, m.cols, lambda i, j: T.ite(cmpi(ok, i, j), m.at(i, j), ZERO))
    return Struct('$tri', {'mat': r, 'mode': mode})


# ------------------------------------------------------------------ permutations
def perm_method(ex, base, v, nm, argnodes):
    n = v.fs['idx'].rows
    if nm == 'indices' and not v.fs['tr']:
        return base / ('f', 'idx') if isinstance(base, LV) else v.fs['idx']
    if nm in ('transpose', 'inverse'):
        return Struct('$perm', {'idx': v.fs['idx'], 'tr': not v.fs['tr']})
    if nm in ('rows', 'cols', 'size'):
        return n
    raise Unsupported('%s of a permutation' % nm)


def int_entry(ex, m, i):
    """integer entry i (in range) of a column of integers"""
    ctx = ex.ctx.child([z3.And(I(i) >= 0, I(i) < I(m.rows))])

    def go(e):
        if e.op == 'ite':
            if ctx.entails(e.a[0]):
                return go(e.a[1])
            if ctx.entails(z3.Not(e.a[0])):
                return go(e.a[2])
            return z3.If(e.a[0], go(e.a[1]), go(e.a[2]))
        r = X.to_integer(e)
        if r is None:
            raise Unsupported('not an integer: %r' % (e,))
        return r
    return isimp(go(m.at(i, 0)))


def perm_index(ex, p, i, left):
    """index read by a product with a permutation matrix: (P^T M)(i,j) = M(idx(i),j), (M P)(i,j) = M(i,idx(j));
    the other two cases use the inverse of the index map, registered by the contract"""
    if p.fs['tr'] == left:
        return int_entry(ex, p.fs['idx'], i)
    f = getattr(ex, 'perm_inverse', None)
    if f is None:
        raise Unsupported('inverse of a permutation')
    return f(p.fs['idx'], i)


def perm_times(ex, x, y):
    if isinstance(x, Mat):
        n = y.fs['idx'].rows
        dimeq(ex, 'product', (x.cols, n))
        return Mat(x.rows, n, lambda i, j: x.at(i, perm_index(ex, y, j, False)), False, {(l, 'perm') for l, _ in x.deps})
    if isinstance(y, Mat):
        n = x.fs['idx'].rows
        dimeq(ex, 'product', (n, y.rows))
        # Eigen permutes in place when the destination is the operand
        return Mat(n, y.cols, lambda i, j: y.at(perm_index(ex, x, i, True), j), False, y.deps)
    raise Unsupported('product of permutations')


# ------------------------------------------------------------------ operators
def times(ex, a, b):
    if a.diagw and b.diagw:
        dimeq(ex, 'product', (vsize(a), vsize(b)))
        return Mat(a.rows, a.cols, lambda i, j: mul(a.at(i, j), b.at(i, j)), False, (), None, True)
    if a.diagw:
        dimeq(ex, 'product', (vsize(a), b.rows))
        return Mat(b.rows, b.cols, lambda i, j: mul(a.vat(i), b.at(i, j)), False, b.deps | a.deps)
    if b.diagw:
        dimeq(ex, 'product', (vsize(b), a.cols))
        return Mat(a.rows, a.cols, lambda i, j: mul(a.at(i, j), b.vat(j)), False, a.deps | b.deps)
    dimeq(ex, 'product', (a.cols, b.rows))
    n = a.cols
    deps = {(l, 'prod') for l, _ in a.deps | b.deps}
    pa = a.pair if a.pair and len(a.pair) == 4 else None
    pb = b.pair if b.pair and len(b.pair) == 3 else None
    if pa and pb and ex.same(pa[0], pb[0]) and ex.same(pa[1], pb[1]):
        return Mat(a.rows, b.cols,
                   lambda i, j: Sum(0, pa[1], lambda c: Sum(0, pa[0], lambda r: mul(pa[2](r, c, i), pb[2](r, c, j)))),
                   False, deps)
    if is_one(n):
        return Mat(a.rows, b.cols, lambda i, j: mul(a.at(i, 0), b.at(0, j)), False, deps)
    return Mat(a.rows, b.cols, lambda i, j: Sum(0, n, lambda k: mul(a.at(i, k), b.at(k, j))), False, deps)


def addm(ex, a, b, s):
    if a.diagw or b.diagw:
        raise Unsupported('sum of diagonal matrices')
    dimeq(ex, 'sum', (a.rows, b.rows), (a.cols, b.cols))
    return Mat(a.rows, a.cols, lambda i, j: add(a.at(i, j), mul(s, b.at(i, j))), a.arr, a.deps | b.deps)


def scal(a, c):
    return Mat(a.rows, a.cols, lambda i, j: mul(a.at(i, j), c), a.arr, a.deps, scale_pair(a, c), a.diagw)


def scale_pair(a, c):
    if not a.pair:
        return None
    g = a.pair[2]
    return (a.pair[0], a.pair[1], lambda r, k, j: mul(g(r, k, j), c)) + a.pair[3:]


def arith(ex, op, x, y):
    if isinstance(x, Mat) and isinstance(y, Mat):
        if op == '+':
            return addm(ex, x, y, ONE)
        if op == '-':
            return addm(ex, x, y, const(-1))
        if op == '*':
            if x.arr and y.arr:
                dimeq(ex, 'cwise product', (x.rows, y.rows), (x.cols, y.cols))
                return Mat(x.rows, x.cols, lambda i, j: mul(x.at(i, j), y.at(i, j)), True, x.deps | y.deps)
            return times(ex, x, y)
        if op == '/' and x.arr and y.arr:
            dimeq(ex, 'cwise quotient', (x.rows, y.rows), (x.cols, y.cols))
            return Mat(x.rows, x.cols, lambda i, j: mul(x.at(i, j), T.inv(y.at(i, j))), True, x.deps | y.deps)
    if isinstance(x, Mat):
        c = const(y)
        if op == '*':
            return scal(x, c)
        if op == '/':
            return scal(x, T.inv(c))
        if x.arr and op == '+':
            return ew(x, lambda e: add(e, c))
        if x.arr and op == '-':
            return ew(x, lambda e: add(e, mul(-1, c)))
    else:
        c = const(x)
        if op == '*':
            return scal(y, c)
        if op == '+' and y.arr:
            return ew(y, lambda e: add(e, c))
        if op == '-' and y.arr:
            return ew(y, lambda e: add(c, mul(-1, e)))
        if op == '/' and y.arr:
            return ew(y, lambda e: mul(c, T.inv(e)))
    raise Unsupported('%r %s %r' % (x, op, y))


def alias_check(ex, lv, v):
    if not isinstance(v, Mat):
        return
    k = lvkey(lv)
    for l, kind in v.deps:
        if l == k and ((lv.noalias and kind == 'prod') or kind == 'perm'):
            ex.oblige('%s: the assigned expression does not read the matrix it overwrites (aliasing)' %
                      ex.frames[-1].fn.get('name'), False, 'bounds')


def operator(ex, op, a, vs, n, d):
    if op in ('()', '[]'):
        m = ex.rv(vs[0])
        idx = [ex.rv(x) for x in a[1:]]
        lv = mlv(ex, a[0], vs[0])
        if len(idx) == 2:
            i, j = idx
            ex.bounds('matrix element', land(cmpi('>=', i, 0), cmpi('<', i, m.rows), cmpi('>=', j, 0), cmpi('<', j, m.cols)))
        else:
            k = idx[0]
            if is_one(m.cols):
                i, j = k, 0
                ex.bounds('vector element', land(cmpi('>=', k, 0), cmpi('<', k, m.rows)))
            elif is_one(m.rows):
                i, j = 0, k
                ex.bounds('vector element', land(cmpi('>=', k, 0), cmpi('<', k, m.cols)))
            else:
                raise Unsupported('linear index')
        if lv is None:
            return m.at(i, j)
        return lv / ('el', i, j)
    if op == '<<':
        lv = mlv(ex, a[0], vs[0])
        m = ex.rv(vs[0])
        c = Comma(lv, m.rows, m.cols)
        return comma(ex, c, a[1])
    if op == ',':
        return comma(ex, vs[0], a[1])
    if op in ('+=', '-=', '*=', '/='):
        lv = mlv(ex, a[0], vs[0])
        if lv is None:
            raise Unsupported('%s of a temporary' % op)
        cur = ex.rv(vs[0])
        y = operand(ex, a[1])
        if not isinstance(y, Mat):
            y = const(ex.rv(y))
        cur0 = cur.copy(deps=frozenset())
        nv = arith(ex, op[0], cur0, y)
        if isinstance(y, Mat):
            alias_check(ex, a[0] if isinstance(a[0], LV) and a[0].noalias else lv, y)
        if not isinstance(nv, Mat):
            raise Unsupported(op)
        if op == '*=' and isinstance(y, Mat):
            ex.bounds('shape of product', land(cmpi('==', nv.rows, cur.rows), cmpi('==', nv.cols, cur.cols)))
        ex.store(lv, nv.copy(deps=frozenset()))
        return lv
    if len(a) == 1 and op == '-':
        return scal(operand(ex, a[0]), const(-1))
    if op in ('+', '-', '*', '/'):
        x, y = operand(ex, a[0]), operand(ex, a[1])
        if op == '*' and any(isinstance(z, Struct) and z.t == '$perm' for z in (x, y)):
            return perm_times(ex, x, y)
        if isinstance(x, Struct) or isinstance(y, Struct):
            raise Unsupported('operator on solver object')
        return arith(ex, op, ex.rv(x), ex.rv(y))
    if op in ('==', '!=') and len(a) == 2:
        x, y = ex.rv(operand(ex, a[0])), ex.rv(operand(ex, a[1]))
        if isinstance(x, Mat) and isinstance(y, Mat) and isinstance(x.rows, int) and isinstance(x.cols, int) and x.rows * x.cols <= 16:
            ex.bounds('shape of comparison', land(cmpi('==', x.rows, y.rows), cmpi('==', x.cols, y.cols)))
            e = land(*[cmp_real(ex.ctx, '==', x.at(i, j), y.at(i, j)) for i in range(x.rows) for j in range(x.cols)])
            return e if op == '==' else lnot(e)
    if op in ('==', '!=', '<', '>', '<=', '>=') and len(a) == 2:
        x, y = ex.rv(operand(ex, a[0])), ex.rv(operand(ex, a[1]))
        if isinstance(x, Mat) and x.arr and not isinstance(y, Mat):
            y = const(y)
            if op in ('!=', '=='):
                nz, ze = (ONE, ZERO) if op == '!=' else (ZERO, ONE)
                return ew(x, lambda e: T.ite(B(cmp_real(ex.ctx, '==', e, y)), ze, nz))
            return ew(x, lambda e: T.ite(B(cmp_real(ex.ctx, op, e, y)), ONE, ZERO))
    raise Unsupported('Eigen operator %s' % op)


def comma(ex, c, x):
    v = ex.rv(x)
    if isinstance(v, Mat):
        h, w = v.rows, v.cols
    else:
        v = const(v)
        h, w = 1, 1
    if c.h is not None and ex.same(c.c, c.cols):
        c.r = iadd(c.r, c.h)
        c.c = 0
        c.h = None
    if c.h is None:
        c.h = h
    ex.bounds('comma initialiser', land(cmpi('<=', iadd(c.r, h), c.rows), cmpi('<=', iadd(c.c, w), c.cols), cmpi('==', h, c.h)))
    if isinstance(v, Mat):
        ex.store(c.lv / ('blk', c.r, c.c, h, w), v.copy(deps=frozenset()))
    else:
        ex.store(c.lv / ('el', c.r, c.c), v)
    c.c = iadd(c.c, w)
    return c


def assign(ex, lv, cur, v, n):
    tn = n['inner'][1] if n['kind'] == 'CXXOperatorCallExpr' else None
    t = ALIASES.get(strip_cv(X.deref_t(X.ty(tn))), strip_cv(X.deref_t(X.ty(tn)))) if tn else ''
    if re.match(r'^(?:Eigen::)?NoAlias<', t):
        t = strip_cv(targs(t)[0])
    d = eigen_dims(t)
    if isinstance(v, Struct) and v.t == '$tri':
        v = v.fs['mat']
    if isinstance(v, Uninit):
        ex.store(lv, v)
        return lv
    if not isinstance(v, Mat):
        raise Unsupported('assignment of %r to a matrix' % (v,))
    if n['kind'] == 'CXXOperatorCallExpr' and len(n['inner']) > 2:
        rv = ex_last(ex, n)
    plain = d is not None and ends_plain(lv) and not isinstance(cur, MapVal)
    tgt = ex.map_lv(cur) if isinstance(cur, MapVal) else lv
    alias_check(ex, LV(tgt.loc, tgt.path, lv.noalias), v)
    if isinstance(cur, Uninit):
        ex.store(lv, ex.to_plain(v.copy(deps=frozenset()), d or (-1, -1, False)))
        return lv
    if plain:
        ex.store(lv, ex.to_plain(v.copy(deps=frozenset(), arr=False), d))
        return lv
    if v.diagw:
        v = ex.to_plain(v, (-1, -1, False))
    c = ex.rv(cur)
    if is_one(c.cols) and is_one(v.rows) and not is_one(v.cols) and not is_one(c.rows):
        w = v
        v = Mat(w.cols, 1, lambda i, j: w.at(0, i))
    elif is_one(c.rows) and is_one(v.cols) and not is_one(v.rows) and not is_one(c.cols):
        w = v
        v = Mat(1, w.rows, lambda i, j: w.at(j, 0))
    ex.bounds('shape of assigned expression', land(cmpi('==', c.rows, v.rows), cmpi('==', c.cols, v.cols)))
    ex.store(tgt, v.copy(deps=frozenset(), arr=c.arr))
    return lv


def ex_last(ex, n):
    return None
