"""Values of the symbolic executor: integers (z3 Int), booleans (z3 Bool),
reals (terms.E), matrices and vectors as functions of their indices, structs,
pointers and lvalues."""
import z3
from terms import *
import terms as T


class Unsupported(Undecided):
    pass


def is_int(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (z3.is_expr(v) and z3.is_int(v))


def is_bool(v):
    return isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v))


def B(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def bsimp(b):
    if isinstance(b, bool):
        return b
    b = z3.simplify(b)
    if z3.is_true(b):
        return True
    if z3.is_false(b):
        return False
    return b


def land(*bs):
    out = []
    for b in bs:
        if b is True:
            continue
        if b is False:
            return False
        out.append(b)
    if not out:
        return True
    return bsimp(z3.And(*out)) if len(out) > 1 else bsimp(out[0])


def lor(*bs):
    out = []
    for b in bs:
        if b is False:
            continue
        if b is True:
            return True
        out.append(b)
    if not out:
        return False
    return bsimp(z3.Or(*out)) if len(out) > 1 else bsimp(out[0])


def lnot(b):
    if isinstance(b, bool):
        return not b
    return bsimp(z3.Not(b))


def cmpi(op, a, b):
    if isinstance(a, int) and isinstance(b, int):
        return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op]
    a, b = I(a), I(b)
    return bsimp({'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b, '==': a == b, '!=': a != b}[op])


def iadd(a, b):
    return isimp(I(a) + I(b))


def isubt(a, b):
    return isimp(I(a) - I(b))


def imul(a, b):
    return isimp(I(a) * I(b))


# ---- comparisons of reals; kept with their terms for numeric evaluation
CMP = {}
OPAQUE = {}


def cmp_real(ctx, op, a, b):
    a, b = const(a), const(b)
    if a.op == 'c' and b.op == 'c':
        x, y = a.a[0], b.a[0]
        return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    nz = Normalizer(ctx)
    x = nz.to_z3(a)
    y = nz.to_z3(b)
    f = {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': x == y, '!=': x != y}[op]
    f = z3.simplify(f)
    if z3.is_true(f):
        return True
    if z3.is_false(f):
        return False
    CMP[f.get_id()] = (f, op, a, b)
    return f


class Mat:
    """rows x cols, entry (i,j) -> E; arr: Eigen array semantics"""
    __slots__ = ('rows', 'cols', 'f', 'arr', 'deps', 'pair', 'diagw', '_c')

    def __init__(self, rows, cols, f, arr=False, deps=(), pair=None, diagw=False):
        self.rows = isimp(rows)
        self.cols = isimp(cols)
        self.f = f
        self.arr = arr
        self.deps = frozenset(deps)
        self.pair = pair          # (a, b, g(r, c, j)): row index r + a*c
        self.diagw = diagw        # diagonal wrapper of a vector
        self._c = {}

    def at(self, i, j=0):
        k = (ikey(i), ikey(j))
        r = self._c.get(k)
        if r is None:
            r = self._c[k] = const(self.f(isimp(i), isimp(j)))
        return r

    def vat(self, k):
        """entry k of a vector"""
        if isinstance(self.cols, int) and self.cols == 1:
            return self.at(k, 0)
        if isinstance(self.rows, int) and self.rows == 1:
            return self.at(0, k)
        raise Unsupported('linear index of a matrix')

    @property
    def is_row(self):
        return isinstance(self.rows, int) and self.rows == 1 and not (isinstance(self.cols, int) and self.cols == 1)

    def size(self):
        return imul(self.rows, self.cols)

    def copy(self, **kw):
        m = Mat(self.rows, self.cols, self.f, self.arr, self.deps, self.pair, self.diagw)
        for k, v in kw.items():
            setattr(m, k, v)
        return m

    def __repr__(self):
        return 'Mat(%s,%s)' % (self.rows, self.cols)


class Vec:
    """std::vector / std::array / heap arrays: n elements, f(k) -> value"""
    __slots__ = ('n', 'f', 'et', '_c', 'app', 'mod')

    def __init__(self, n, f, et=None, app=None, mod=None):
        self.app = app          # (vector before, appended element)
        self.mod = mod          # (vector before, index, element): one element replaced
        self.n = isimp(n)
        self.f = f
        self.et = et
        self._c = {}

    def at(self, k):
        kk = ikey(k)
        r = self._c.get(kk)
        if r is None:
            r = self._c[kk] = self.f(isimp(k))
        return r

    def __repr__(self):
        return 'Vec(%s)' % (self.n,)


class Struct:
    __slots__ = ('t', 'fs')

    def __init__(self, t, fs):
        self.t = t
        self.fs = fs

    def set(self, k, v):
        d = dict(self.fs)
        d[k] = v
        return Struct(self.t, d)

    def __repr__(self):
        return 'Struct(%s)' % self.t


class LV:
    """lvalue: heap location and access path"""
    __slots__ = ('loc', 'path', 'noalias')

    def __init__(self, loc, path=(), noalias=False):
        self.loc = loc
        self.path = tuple(path)
        self.noalias = noalias

    def __truediv__(self, item):
        return LV(self.loc, self.path + (item,), self.noalias)

    def key(self):
        return (self.loc,) + tuple(pkey(p) for p in self.path)

    def __repr__(self):
        return 'LV(%s,%s)' % (self.loc, self.path)


def pkey(p):
    return tuple(ikey(x) if is_int(x) else x for x in p)


class Ptr:
    """pointer to an lvalue (None: null)"""
    __slots__ = ('lv', 'null')

    def __init__(self, lv, null=None):
        self.lv = lv
        self.null = (lv is None) if null is None else null   # bool or z3 Bool

    def __repr__(self):
        return 'Ptr(%s)' % (self.lv,)


class MapVal:
    """value of an Eigen::Map member: a view on memory"""
    __slots__ = ('lv', 'rows', 'cols')

    def __init__(self, lv, rows, cols):
        self.lv = lv
        self.rows = isimp(rows)
        self.cols = isimp(cols)

    def __repr__(self):
        return 'Map(%s,%s,%s)' % (self.lv, self.rows, self.cols)


class Opaque:
    def __init__(self, what):
        self.what = what

    def __repr__(self):
        return 'Opaque(%s)' % self.what


class Uninit:
    """value of an uninitialised variable"""
    def __init__(self, what=''):
        self.what = what

    def __repr__(self):
        return 'Uninit(%s)' % self.what


def vite(c, a, b):
    """generic case distinction"""
    c = bsimp(c)
    if c is True:
        return a
    if c is False:
        return b
    if a is b:
        return a
    if isinstance(a, Uninit):
        return b if isinstance(b, Uninit) else b
    if isinstance(b, Uninit):
        return a
    if is_bool(a) and is_bool(b):
        return bsimp(z3.If(c, B(a), B(b)))
    if is_int(a) and is_int(b):
        return isimp(z3.If(c, I(a), I(b)))
    if isinstance(a, E) or isinstance(b, E):
        return T.ite(c, const(a), const(b))
    if isinstance(a, Mat) and isinstance(b, Mat):
        r = vite(c, a.rows, b.rows)
        k = vite(c, a.cols, b.cols)
        return Mat(r, k, lambda i, j: T.ite(c, a.at(i, j), b.at(i, j)), a.arr)
    if isinstance(a, Vec) and isinstance(b, Vec):
        v = Vec(vite(c, a.n, b.n), lambda k: vite(c, a.at(k), b.at(k)), a.et or b.et)
        if a.app is not None and b.app is not None:
            # the same number of elements appended to the same vector
            base = a.app[0] if a.app[0] is b.app[0] else vite(c, a.app[0], b.app[0]) if a.app[0].app and b.app[0].app else None
            if base is not None and (base is a.app[0] or base.app is not None):
                v.app = (base, vite(c, a.app[1], b.app[1]))
        return v
    if isinstance(a, Struct) and isinstance(b, Struct) and a.t == b.t:
        return Struct(a.t, {k: vite(c, a.fs[k], b.fs[k]) for k in a.fs if k in b.fs})
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        if a.lv is not None and b.lv is not None and a.lv.key() == b.lv.key():
            return Ptr(a.lv, vite(c, B(a.null), B(b.null)) if (a.null is not False or b.null is not False) else False)
        if a.lv is None and b.lv is None:
            return a
        if a.lv is None:
            return Ptr(b.lv, lor(c, b.null))
        if b.lv is None:
            return Ptr(a.lv, lor(lnot(c), a.null))
        # pointers to elements of the same array
        pa, pb = a.lv, b.lv
        if pa.loc == pb.loc and len(pa.path) == len(pb.path) and all(
                x[0] == y[0] and (x[0] in ('at', 'el') or x == y) for x, y in zip(pa.path, pb.path)):
            its = [x if x[0] not in ('at', 'el') else (x[0],) + tuple(vite(c, u, v) for u, v in zip(x[1:], y[1:])) for x, y in zip(pa.path, pb.path)]
            return Ptr(LV(pa.loc, tuple(its)), vite(c, B(a.null), B(b.null)) if (a.null is not False or b.null is not False) else False)
    if isinstance(a, MapVal) and isinstance(b, MapVal):
        p = vite(c, Ptr(a.lv, False), Ptr(b.lv, False))
        return MapVal(p.lv, vite(c, a.rows, b.rows), vite(c, a.cols, b.cols))
    if isinstance(a, Opaque) and isinstance(b, Opaque):
        return a
    raise Unsupported('cannot merge %r and %r' % (a, b))


def mentions(v, names, probe=None):
    """does the value depend on any of the variables (names: set of str)?"""
    if isinstance(v, E):
        return e_mentions(v, names)
    if isinstance(v, bool) or isinstance(v, int):
        return False
    if z3.is_expr(v):
        return z_mentions(v, names)
    if isinstance(v, Mat):
        if mentions(v.rows, names) or mentions(v.cols, names):
            return True
        return mentions(v.at(z3.Int('?r'), z3.Int('?c')), names)
    if isinstance(v, Vec):
        if isinstance(v.n, int) and v.n <= 16:
            return any(mentions(v.at(k), names) for k in range(v.n))
        return mentions(v.n, names) or mentions(v.at(z3.Int('?k')), names)
    if isinstance(v, Struct):
        return any(mentions(x, names) for x in v.fs.values())
    if isinstance(v, Ptr):
        if z3.is_expr(v.null) and z_mentions(v.null, names):
            return True
        return v.lv is not None and lv_mentions(v.lv, names)
    if isinstance(v, MapVal):
        return lv_mentions(v.lv, names) or mentions(v.rows, names) or mentions(v.cols, names)
    if isinstance(v, LV):
        return lv_mentions(v, names)
    return False


def lv_mentions(lv, names):
    return any(mentions(x, names) for p in lv.path for x in p if is_int(x))


_zm = {}


def z_syms(b):
    """names of all uninterpreted symbols (constants and functions)"""
    k = b.get_id()
    r = _zm.get(k)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    st = [b]
    while st:
        t = st.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            st.append(t.body())
            continue
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                nm = t.decl().name()
                out.add(nm)
                d = T.FNS.get(nm)
                if d:
                    st.extend(d[1])
                m = T.SUMS.get(nm)
                if m is not None:
                    for a in m.atoms:
                        out |= e_syms(a)
                bb = T.BIGS.get(nm)
                if bb is not None:
                    out |= e_syms(bb)
            st.extend(t.children())
    c = CMP.get(k)
    if c:
        out |= e_syms(c[2]) | e_syms(c[3])
    r = frozenset(out)
    _zm[k] = (b, r)
    return r


_es = {}


def e_syms(e):
    r = _es.get(id(e))
    if r is not None and r[0] is e:
        return r[1]
    o = e.op
    s = frozenset()
    if o == 'v':
        s = frozenset([e.a[0]])
        for x in e.a[1]:
            if not isinstance(x, int):
                s |= z_syms(x)
    elif o == 'i':
        s = z_syms(e.a[0]) if not isinstance(e.a[0], int) else s
    elif o in ('+', '*'):
        for x in e.a[0]:
            s |= e_syms(x)
    elif o == 'ite':
        s = z_syms(e.a[0]) | e_syms(e.a[1]) | e_syms(e.a[2])
    elif o in ('sum', 'big'):
        k, lo, hi, b = e.a[-4:]
        s = e_syms(b) - {k.decl().name()}
        for x in (lo, hi):
            if not isinstance(x, int):
                s |= z_syms(x)
    elif o == 'fn':
        for x in e.a[1]:
            s |= e_syms(x)
    _es[id(e)] = (e, s)
    return s


def e_mentions(e, names):
    return bool(e_syms(e) & names)


def z_mentions(b, names):
    return bool(z_syms(b) & names)


# ---- numeric evaluation (concrete counterexamples)
import hashlib
import math


class EvalError(Exception):
    pass


class Num:
    """evaluates terms for concrete dimensions and pseudo-random entries"""

    def __init__(self, ints, seed=0, reals=None):
        self.ints = ints          # name -> int
        self.seed = seed
        self.reals = reals or {}
        self.cache = {}
        self.used = {}

    def rnd(self, name, idx):
        k = (name, idx)
        if k in self.reals:
            return self.reals[k]
        h = hashlib.sha256(('%s|%s|%d' % (name, idx, self.seed)).encode()).digest()
        v = int.from_bytes(h[:6], 'big') / 2.0 ** 48
        v = round(v * 4 - 2, 3)
        if abs(v) < 0.1:
            v += 0.5
        self.used[k] = v
        return v

    def int(self, x, env):
        if isinstance(x, int):
            return x
        sub = []
        for nm in int_vars(x):
            if nm in env:
                sub.append((z3.Int(nm), z3.IntVal(env[nm])))
            elif nm in self.ints:
                sub.append((z3.Int(nm), z3.IntVal(self.ints[nm])))
        r = z3.simplify(z3.substitute(x, *sub)) if sub else z3.simplify(x)
        if not z3.is_int_value(r):
            raise EvalError('int %s' % r)
        return r.as_long()

    def bool(self, b, env):
        if isinstance(b, bool):
            return b
        c = CMP.get(b.get_id())
        if c:
            x, y = self.ev(c[2], env), self.ev(c[3], env)
            if abs(x - y) < 1e-9 * (1 + abs(x)):
                if c[1] in ('<', '>', '!='):
                    return False
                return True
            return {'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y, '==': False, '!=': True}[c[1]]
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        if z3.is_not(b):
            return not self.bool(b.arg(0), env)
        if z3.is_and(b):
            return all(self.bool(x, env) for x in b.children())
        if z3.is_or(b):
            return any(self.bool(x, env) for x in b.children())
        if z3.is_implies(b):
            return (not self.bool(b.arg(0), env)) or self.bool(b.arg(1), env)
        sub = []
        for nm in int_vars(b):
            if nm in env:
                sub.append((z3.Int(nm), z3.IntVal(env[nm])))
            elif nm in self.ints:
                sub.append((z3.Int(nm), z3.IntVal(self.ints[nm])))
        r = z3.simplify(z3.substitute(b, *sub))
        if z3.is_true(r):
            return True
        if z3.is_false(r):
            return False
        raise EvalError('bool %s' % r)

    def ev(self, e, env):
        o = e.op
        if o == 'c':
            return float(e.a[0])
        if o == 'v':
            ix = tuple(self.int(x, env) for x in e.a[1])
            if e.a[0].endswith('~') and ix[-2] > ix[-1]:
                ix = ix[:-2] + (ix[-1], ix[-2])
            return self.rnd(e.a[0], ix)
        if o == 'i':
            return float(self.int(e.a[0], env))
        if o == '+':
            return sum(self.ev(x, env) for x in e.a[0])
        if o == '*':
            r = 1.0
            for x in e.a[0]:
                r *= self.ev(x, env)
            return r
        if o == 'ite':
            return self.ev(e.a[1] if self.bool(e.a[0], env) else e.a[2], env)
        if o == 'sum':
            k, lo, hi, b = e.a
            lo, hi = self.int(lo, env), self.int(hi, env)
            if hi - lo > 40:
                raise EvalError('range')
            nm = k.decl().name()
            return sum(self.ev(b, dict(env, **{nm: t})) for t in range(lo, hi))
        if o == 'big':
            op, k, lo, hi, b = e.a
            lo, hi = self.int(lo, env), self.int(hi, env)
            if hi <= lo:
                raise EvalError('empty big')
            nm = k.decl().name()
            return (max if op == 'max' else min)(self.ev(b, dict(env, **{nm: t})) for t in range(lo, hi))
        if o == 'fn':
            a = [self.ev(x, env) for x in e.a[1]]
            n = e.a[0]
            try:
                if n == 'sqrt':
                    return math.sqrt(a[0])
                if n == 'exp':
                    return math.exp(a[0])
                if n == 'log':
                    return math.log(a[0])
                if n == 'abs':
                    return abs(a[0])
                if n == 'inv':
                    return 1.0 / a[0]
                if n == 'max':
                    return max(a)
                if n == 'min':
                    return min(a)
            except (ValueError, ZeroDivisionError, OverflowError):
                raise EvalError(n)
        raise EvalError(o)
