"""Trusted model of the standard library (and Eigen factory functions) conex uses."""
import sys
import re
import z3
from terms import *
import terms as T
from values import *
import exec as X
from exec import strip_cv, deref_t, targs, eigen_dims, ALIASES, is_one, ty, REAL_T, INT_T


def elem_default(ex, t):
    t = strip_cv(t)
    if t in INT_T:
        return 0
    if t in REAL_T:
        return ZERO
    if t == 'bool':
        return False
    if X.is_ptrty(t):
        return Ptr(None)
    return ex.default_of(t, 'elem')


def construct(ex, n, t, args):
    args = [a for a in args if a is not X.DEFAULT_ARG]
    vals = [ex.load(a) for a in args]
    if re.match(r'^(?:std::)?stack<', t) and not args:
        return ex.default_of(t, 'stack')
    if re.match(r'^(?:std::)?vector<', t):
        et = strip_cv(targs(t)[0])
        vals = [v for v in vals if not (isinstance(v, Opaque) or (isinstance(v, Struct) and 'alloc' in v.t))]
        if not vals:
            return Vec(0, lambda k: Uninit(), et)
        v = vals[0]
        if isinstance(v, Vec):
            return Vec(v.n, v.f, et)
        if is_int(v):
            ex.bounds('vector size', cmpi('>=', v, 0))
            d = ex.rv(vals[1]) if len(vals) > 1 else None
            if d is None:
                return Vec(v, lambda k: elem_default(ex, et), et)
            return Vec(v, lambda k: d, et)
        if isinstance(v, Ptr) and len(vals) == 2 and isinstance(vals[1], Ptr):
            return ptr_range(ex, v, vals[1])
        raise Unsupported('vector from %r' % (v,))
    if len(vals) == 1:
        return args[0]
    if t.startswith('std::unique_ptr') and not vals:
        return Ptr(None)
    if t.startswith('std::pair') or 'pair<' in t:
        a = targs(t)
        if len(vals) == 2:
            return Struct('std::pair', {'first': ex.rv(vals[0]), 'second': ex.rv(vals[1])})
        return ex.default_of(t, 'pair')
    if not vals:
        return ex.default_of(t, 'obj')
    raise Unsupported('construction of %s' % t)


def ptr_range(ex, p, q):
    a, b = p.lv, q.lv
    if a is None or b is None or a.loc != b.loc or a.path[-1][0] != 'at' or b.path[-1][0] != 'at':
        raise Unsupported('iterator range')
    src = ex.load(LV(a.loc, a.path[:-1]))
    o = a.path[-1][1]
    return Vec(isubt(b.path[-1][1], o), lambda k: src.at(iadd(k, o)), src.et)


REALFN = {'sqrt': 'sqrt', 'exp': 'exp', 'fabs': 'abs', 'log': 'log'}


def call(ex, n, name, argnodes, t, d):
    hook = getattr(ex, 'std_hooks', {}).get(name)
    if hook is not None:
        r = hook(ex, n, argnodes)
        if r is not NotImplemented:
            return r
    if name in ('set_is_malloc_allowed', 'assert', '__assert_fail'):
        for x in argnodes:
            pass
        return None
    if name in ('move', 'forward', 'ref', 'cref'):
        return ex.ev(argnodes[0])
    if name == 'any_cast':
        # std::any is modelled as the value it holds (its held type is the type it was constructed from)
        p = ex.val(argnodes[0])
        if isinstance(p, Ptr) and p.lv is not None:
            return p
        raise Unsupported('any_cast')
    if name in REALFN:
        v = ex.val(argnodes[0])
        if isinstance(v, Mat):
            return Mat(v.rows, v.cols, lambda i, j: T.fn(REALFN[name], v.at(i, j)), v.arr)
        return T.fn(REALFN[name], const(v))
    if name == 'abs':
        v = ex.val(argnodes[0])
        if is_int(v):
            return isimp(z3.If(I(v) >= 0, I(v), -I(v)))
        return T.fn('abs', const(v))
    if name == 'pow':
        v, p = ex.val(argnodes[0]), ex.val(argnodes[1])
        p = const(p)
        if p.op == 'c' and p.a[0].denominator == 1 and 0 <= p.a[0] <= 6:
            return mul(*([const(v)] * int(p.a[0]))) if p.a[0] > 0 else ONE
        if p.op == 'c' and p.a[0] == Fraction(1, 2):
            return T.fn('sqrt', const(v))
        raise Unsupported('pow')
    if name in ('max', 'min'):
        a = [ex.val(x) for x in argnodes]
        if len(a) == 0:
            if t.strip() in REAL_T:
                return const(Fraction(sys.float_info.max if name == 'max' else sys.float_info.min))
            return (2 ** 31 - 1) if name == 'max' else -(2 ** 31)
        if len(a) == 2 and all(is_int(x) for x in a):
            c = cmpi('>=' if name == 'max' else '<=', a[0], a[1])
            c = True if ex.ctx.entails(B(c)) else (False if ex.ctx.entails(B(lnot(c))) else c)
            return vite(c, a[0], a[1])
        if len(a) == 2:
            return T.fn(name, const(a[0]), const(a[1]))
        if len(a) == 1 and isinstance(a[0], Vec) and isinstance(a[0].n, int):
            r = const(a[0].at(0)) if not is_int(a[0].at(0)) else a[0].at(0)
            for k in range(1, a[0].n):
                y = a[0].at(k)
                r = T.fn(name, r, const(y)) if isinstance(r, E) else vite(cmpi('>=' if name == 'max' else '<=', r, y), r, y)
            return r
        raise Unsupported(name)
    if name == 'infinity':
        return var('INFINITY')
    if name in ('Zero', 'Ones', 'Constant', 'Identity', 'Random'):
        a = [ex.val(x) for x in argnodes if x.get('kind') != 'CXXDefaultArgExpr']
        c = ZERO if name == 'Zero' else ONE
        if name == 'Constant':
            c = const(a.pop())
        if len(a) == 0:
            tt = t + ' ' + ((n.get('type') or {}).get('desugaredQualType') or '')
            m = re.search(r'Matrix<double, (-?\d+), (-?\d+)', tt)
            if not m:
                raise Unsupported('fixed-size %s' % name)
            r, k = int(m.group(1)), int(m.group(2))
        elif len(a) == 1:
            r, k = a[0], 1
            tt = t + ' ' + ((n.get('type') or {}).get('desugaredQualType') or '')
            if 'Matrix<double, 1, -1' in tt:
                r, k = 1, a[0]
        else:
            r, k = a
        if name == 'Identity':
            return Mat(r, k, lambda i, j: T.ite(cmpi('==', i, j), ONE, ZERO))
        if name == 'Random':
            return ex.mat(fresh_name('rand'), r, k)
        return Mat(r, k, lambda i, j: c)
    if name == 'make_unique':
        return make_unique(ex, n, argnodes, t)
    if name == 'memcpy':
        return memcpy(ex, argnodes)
    if name in ('begin', 'end'):
        b = ex.ev(argnodes[0])
        return it(ex, b, name)
    if name == 'accumulate':
        a, b, z = [ex.load(ex.ev(x)) for x in argnodes[:3]]
        v = ptr_range(ex, a, b)
        z = ex.rv(z)
        if isinstance(z, E):
            return add(z, Sum(0, v.n, lambda k: const(v.at(k))))
        raise Unsupported('integer accumulate')
    if name == 'find' and len(argnodes) == 3:
        a, b = [ex.load(ex.ev(x)) for x in argnodes[:2]]
        x = ex.val(argnodes[2])
        v = ptr_range(ex, a, b)
        if not is_int(x):
            raise Unsupported('find')
        p, k = ex.int(T.fresh_name('found'), 0), z3.Int('?k')
        el = lambda k: I(v.at(k))
        ex.assume(z3.And(p <= I(v.n), z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < p), el(k) != I(x))), z3.Or(p == I(v.n), el(p) == I(x))))
        return Ptr(LV(a.lv.loc, a.lv.path[:-1] + (('at', iadd(a.lv.path[-1][1], p)),)), False)
    if name == 'distance':
        a, b = [ex.load(ex.ev(x)) for x in argnodes[:2]]
        return ptr_range(ex, a, b).n
    if name == 'make_pair':
        a = [ex.val(x) for x in argnodes]
        return Struct('std::pair', {'first': a[0], 'second': a[1]})
    if name == 'swap':
        x, y = ex.ev(argnodes[0]), ex.ev(argnodes[1])
        vx, vy = ex.load(x), ex.load(y)
        ex.store(x, vy)
        ex.store(y, vx)
        return None
    if name == 'isnan' or name == 'isinf' or name == '__builtin_isnan':
        return False
    raise Unsupported('call of %s' % name)


def it(ex, b, name):
    v = ex.load(b)
    if not isinstance(v, Vec):
        raise Unsupported('%s of %r' % (name, v))
    lv = ex.as_lv(b)
    return Ptr(lv / ('at', 0 if name in ('begin', 'cbegin') else v.n), False)


def make_unique(ex, n, argnodes, t):
    m = re.search(r'unique_ptr<(.*)>', t)
    tt = targs(t[t.find('unique_ptr'):])[0] if m else None
    args = [ex.ev(x) for x in argnodes]
    if tt and eigen_dims(ALIASES.get(tt, tt)):
        import eig
        v = eig.construct(ex, n, tt, eigen_dims(ALIASES.get(tt, tt)), args)
        return Ptr(ex.new(v, 'heap'), False)
    rec = ex.find_rec(tt) if tt else None
    if rec is None:
        raise Unsupported('make_unique %s' % t)
    cs = ex.contracts.get('ctor ' + rec['qual'])
    if cs is not None:
        ex.used_contracts.add('ctor ' + rec['qual'])
        return Ptr(ex.new(cs(ex, None, args), 'heap'), False)
    # constructor by arity
    cands = []
    for c in ex.all_ctors(rec):
        ps = [p for p in X.cast.params(c)]
        req = [p for p in ps if not any('kind' in x and x['kind'].endswith(('Expr', 'Literal', 'Operator')) for x in p.get('inner', []))]
        if len(req) <= len(args) <= len(ps) and not c.get('isImplicit'):
            if ex.resolve(c) is not None:
                cands.append(c)
    cands = [c for c in cands if not is_copy(c, rec)] or cands
    if len(cands) == 1:
        return Ptr(ex.new(ex.construct(rec, args, X.cast.sig(cands[0])), 'heap'), False)
    if not args:
        return Ptr(ex.new(ex.construct(rec, args, None), 'heap'), False)
    raise Unsupported('make_unique: %d constructors of %s' % (len(cands), tt))


def is_copy(c, rec):
    ps = X.cast.params(c)
    return len(ps) == 1 and rec['name'] in ty(ps[0]) and '&' in ty(ps[0])


def memcpy(ex, argnodes):
    dst, src = [ex.load(ex.ev(x)) for x in argnodes[:2]]
    nb = ex.val(argnodes[2])
    if not (isinstance(dst, Ptr) and isinstance(src, Ptr)):
        raise Unsupported('memcpy')
    cnt = isimp(I(nb) / 8) if not isinstance(nb, int) else nb // 8
    cnt = div8(nb)

    def view(p):
        path = p.lv.path
        if path[-1][0] == 'el':
            m = ex.rv(LV(p.lv.loc, path[:-1]))
            i, j = path[-1][1:]
            return LV(p.lv.loc, path[:-1]), m, i, j
        if path[-1][0] == 'lin' and ikey(path[-1][1]) == '0':
            return LV(p.lv.loc, path[:-1]), ex.rv(LV(p.lv.loc, path[:-1])), 0, 0
        if path[-1][0] == 'at':
            return None
        raise Unsupported('memcpy pointer')
    a, b = view(dst), view(src)
    if a is None and b is None:
        # arrays of doubles
        da, k = LV(dst.lv.loc, dst.lv.path[:-1]), dst.lv.path[-1][1]
        va, q = ex.load(da), src.lv.path[-1][1]
        vb = ex.load(LV(src.lv.loc, src.lv.path[:-1]))
        if isinstance(va, Vec) and isinstance(vb, Vec):
            for what, x, o in (('memcpy: destination', va, k), ('memcpy: source', vb, q)):
                ex.bounds(what, lor(cmpi('<=', cnt, 0), land(cmpi('>=', o, 0), cmpi('<=', iadd(o, cnt), x.n))))
            ex.store(da, Vec(va.n, lambda t: vite(land(cmpi('>=', t, k), cmpi('<', t, iadd(k, cnt))), vb.at(iadd(q, isubt(t, k))), va.at(t)), va.et))
            return None
    if a is None or b is None:
        raise Unsupported('memcpy of raw memory')
    (la, ma, ia, ja), (lb, mb, ib, jb) = a, b
    # source: whole columns / a vector
    whole_src = ikey(ib) == '0' and ex.same(mb.rows, cnt) and (is_one(mb.cols) or ikey(jb) == '0' or True)
    if ikey(ia) == '0' and ex.same(ma.rows, cnt) and whole_src:
        ex.bounds('memcpy', land(cmpi('>=', ja, 0), cmpi('<', ja, ma.cols), cmpi('>=', jb, 0), cmpi('<', jb, mb.cols)))
        ex.store(la / ('blk', 0, ja, ma.rows, 1), Mat(cnt, 1, lambda i, j: mb.at(i, jb)))
        return None
    # a matrix of the same total size
    if ikey(ia) == '0' and ikey(ib) == '0' and ex.same(cnt, mb.size()) and ikey(jb) == '0':
        n, m = mb.rows, mb.cols
        if ex.same(ma.rows, cnt):
            ex.bounds('memcpy', land(cmpi('>=', ja, 0), cmpi('<', ja, ma.cols)))
            ex.store(la / ('blk', 0, ja, ma.rows, 1), ex.reshape(mb, cnt, 1))
            return None
        if ex.same(ma.rows, n) and ikey(ja) == '0':
            ex.bounds('memcpy', cmpi('<=', m, ma.cols))
            ex.store(la / ('blk', 0, 0, n, m), mb.copy(deps=frozenset()))
            return None
    raise Unsupported('memcpy shape')


def div8(nb):
    if isinstance(nb, int):
        return nb // 8
    r = z3.simplify(nb / 8)
    # divide syntactically
    d = isimp(nb)
    from terms import split_const
    def div(t):
        if z3.is_int_value(t):
            v = t.as_long()
            return z3.IntVal(v // 8) if v % 8 == 0 else None
        if z3.is_add(t):
            ps = [div(c) for c in t.children()]
            return None if any(p is None for p in ps) else sum(ps[1:], ps[0])
        if z3.is_mul(t):
            cs = list(t.children())
            for q, c in enumerate(cs):
                p = div(c)
                if p is not None:
                    rest = cs[:q] + cs[q + 1:]
                    r = p
                    for x in rest:
                        r = r * x
                    return r
            return None
        return None
    q = div(d) if z3.is_expr(d) else None
    return isimp(q) if q is not None else r


# ------------------------------------------------------------------ methods
def method(ex, base, v, nm, argnodes, n, me):
    hook = getattr(ex, 'std_hooks', {}).get('.' + nm)
    if hook is not None:
        r = hook(ex, base, v, argnodes, n)
        if r is not NotImplemented:
            return r
    if isinstance(v, Vec):
        return vec_method(ex, base, v, nm, argnodes, n)
    if isinstance(v, Ptr):
        if nm == 'get':
            return v
        if nm == 'operator bool':
            return lnot(v.null)
        if nm == 'reset':
            a = [ex.load(ex.ev(x)) for x in argnodes if x.get('kind') != 'CXXDefaultArgExpr']
            ex.store(base, a[0] if a else Ptr(None))
            return None
        if nm == 'operator*':
            return ex.deref(v)
    if isinstance(v, Struct) and v.t == '$solver' and nm == 'solve':
        b = ex.rv(ex.ev(argnodes[0]))
        A = v.fs['mat']
        X_ = ex.mat(fresh_name('solve'), A.cols, b.cols)
        ex.solves = getattr(ex, 'solves', [])
        ex.solves.append((A, b, X_, v.fs['kind'].what))
        return X_
    if isinstance(v, Struct) and v.t == '$factor' and nm in v.fs:
        return v.fs[nm]
    if isinstance(v, Struct) and v.t == '$tri' and nm in ('transpose', 'adjoint'):
        m = v.fs['mat']
        return Struct('$tri', dict(v.fs, mat=Mat(m.cols, m.rows, lambda i, j: m.at(j, i)), mode=3 - v.fs['mode']))
    if isinstance(v, Struct) and v.t == '$tri' and nm == 'solveInPlace':
        lv = ex.ev(argnodes[0])
        b = ex.rv(lv)
        if not isinstance(lv, LV) or not isinstance(b, Mat):
            raise Unsupported('in-place solve')
        A = v.fs['mat']
        ex.bounds('dimensions of a triangular solve', cmpi('==', A.cols, b.rows))
        ex.tri_solves = getattr(ex, 'tri_solves', [])
        X_ = ex.mat('tri%d' % len(ex.tri_solves), b.rows, b.cols)
        ex.tri_solves.append((A, b, X_))
        cur = ex.load(lv)
        ex.store(ex.map_lv(cur) if isinstance(cur, MapVal) else lv, X_)
        return None
    if isinstance(v, Struct) and v.t == '$solver' and nm == 'compute':
        ex.store(base, Struct('$solver', {'mat': ex.rv(ex.ev(argnodes[0])), 'kind': v.fs['kind']}))
        return base
    if isinstance(v, Struct) and v.t == '$colwise' and nm == 'sum':
        m = v.fs['mat']
        return Mat(1, m.cols, lambda i, j: Sum(0, m.rows, lambda r: m.at(r, j)), m.arr)
    if isinstance(v, Struct) and v.t == '$rowwise' and nm == 'sum':
        m = v.fs['mat']
        return Mat(m.rows, 1, lambda i, j: Sum(0, m.cols, lambda c: m.at(i, c)), m.arr)
    if isinstance(v, Opaque):
        return Opaque(v.what)
    raise Unsupported('method %s of %r' % (nm, v))


def vec_method(ex, base, v, nm, argnodes, n):
    nm = {'push': 'push_back', 'pop': 'pop_back', 'top': 'back'}.get(nm, nm)      # std::stack
    if nm == 'size':
        return v.n
    if nm == 'empty':
        return cmpi('==', v.n, 0)
    if nm in ('reserve', 'shrink_to_fit'):
        return None
    lv = ex.as_lv(base)
    if nm in ('at', 'operator[]'):
        i = ex.val(argnodes[0])
        ex.bounds('vector element', land(cmpi('>=', i, 0), cmpi('<', i, v.n)))
        return lv / ('at', i)
    if nm in ('back', 'front'):
        ex.bounds(nm + '() of a non-empty vector', cmpi('>', v.n, 0))
        return lv / ('at', isubt(v.n, 1) if nm == 'back' else 0)
    if nm in ('push_back', 'emplace_back'):
        if nm == 'emplace_back':
            et = v.et or ''
            args = [ex.ev(x) for x in argnodes]
            x = emplace(ex, et, args, n)
        else:
            x = ex.ev(argnodes[0])
            xv = ex.load(x)
            if isinstance(xv, MapVal) and not X.is_map_t(v.et or ''):
                xv = ex.rv(xv)
            x = xv
            if isinstance(x, Mat):
                x = x.copy(deps=frozenset())
            if v.et:
                x = ex.coerce(x, v.et)
        old = v
        nn = v.n
        ex.store(lv, Vec(iadd(nn, 1), lambda k: vite(cmpi('==', k, nn), x, old.at(k)) if not same_idx(k, nn) else x, v.et, app=(old, x)))
        return lv / ('at', nn)
    if nm == 'pop_back':
        ex.bounds('pop_back of a non-empty vector', cmpi('>', v.n, 0))
        ex.store(lv, Vec(isubt(v.n, 1), v.f, v.et))
        return None
    if nm == 'clear':
        ex.store(lv, Vec(0, lambda k: Uninit(), v.et))
        return None
    if nm in ('resize', 'assign'):
        a = [ex.val(x) for x in argnodes if x.get('kind') != 'CXXDefaultArgExpr']
        sz = a[0]
        ex.bounds('vector size', cmpi('>=', sz, 0))
        fill = a[1] if len(a) > 1 else None
        old = v

        def f(k):
            d = fill if fill is not None else elem_default(ex, v.et or 'double')
            if nm == 'assign':
                return d
            c = cmpi('<', k, old.n)
            if c is True or ex.ctx.entails(B(c)):
                return old.at(k)
            if c is False or ex.ctx.entails(B(lnot(c))):
                return d
            return vite(c, old.at(k), d)
        ex.store(lv, Vec(sz, f, v.et))
        return None
    if nm in ('begin', 'cbegin', 'end', 'cend', 'data'):
        return Ptr(lv / ('at', v.n if nm in ('end', 'cend') else 0), False)
    if nm == 'operator=':
        x = ex.load(ex.ev(argnodes[0]))
        if isinstance(x, Vec):
            ex.store(lv, Vec(x.n, x.f, v.et))
            return lv
    raise Unsupported('vector method %s' % nm)


def same_idx(k, n):
    return ikey(k) == ikey(n)


def emplace(ex, et, args, n):
    if re.match(r'^(?:Eigen::)?R?LD?LT<', et) and getattr(ex, 'factor_hook', None):
        return ex.factor_hook(args[0])
    et = strip_cv(et)
    d = eigen_dims(ALIASES.get(et, et))
    import eig
    if d is not None or X.is_map_t(et):
        return eig.construct(ex, n, et, d, args)
    rec = ex.find_rec(et)
    if rec is not None:
        cs = ex.contracts.get('ctor ' + rec['qual'])
        if cs is not None:
            ex.used_contracts.add('ctor ' + rec['qual'])
            return cs(ex, None, args)
        cands = [c for c in ex.all_ctors(rec) if len(X.cast.params(c)) == len(args) and not is_copy(c, rec)]
        if len(cands) > 1:
            # overloads: the one whose class parameters are the classes of the arguments
            def fits(c):
                for p, a in zip(X.cast.params(c), args):
                    v = ex.load(a)
                    if isinstance(v, Struct) and strip_cv(X.deref_t(X.cast.qt(p))).split('::')[-1] != v.t.split('::')[-1]:
                        return False
                return True
            cands = [c for c in cands if fits(c)]
        if len(cands) == 1:
            return ex.construct(rec, args, X.cast.sig(cands[0]))
        if len(args) == 1:
            return ex.load(args[0])
        raise Unsupported('emplace_back of %s' % et)
    if len(args) == 1:
        return ex.coerce(ex.rv(args[0]), et)
    if 'pair' in et and len(args) == 2:
        return Struct('std::pair', {'first': ex.rv(args[0]), 'second': ex.rv(args[1])})
    if len(args) == 0:
        return elem_default(ex, et)
    raise Unsupported('emplace_back of %s' % et)


# ------------------------------------------------------------------ operators
def operator(ex, op, a, vs, n, argnodes):
    x = vs[0]
    if op == '[]' and isinstance(x, Vec):
        i = ex.rv(vs[1])
        ex.bounds('vector element', land(cmpi('>=', i, 0), cmpi('<', i, x.n)))
        return ex.as_lv(a[0]) / ('at', i)
    if op == '->' and isinstance(x, Ptr):
        return x
    if op == '*' and isinstance(x, Ptr) and len(a) == 1:
        return ex.deref(x)
    if op in ('==', '!=') and (isinstance(x, Ptr) or (len(vs) > 1 and isinstance(vs[1], Ptr))):
        return ex.ptrop(op, x, vs[1])
    if op in ('++', '--') and isinstance(x, Ptr):
        nv = ex.ptr_add(x, 1 if op == '++' else -1)
        ex.store(a[0], nv)
        return a[0] if len(a) == 1 else x
    if op in ('+', '-') and isinstance(x, Ptr):
        y = ex.rv(vs[1])
        if isinstance(y, Ptr):
            return isubt(x.lv.path[-1][1], y.lv.path[-1][1])
        return ex.ptrop(op, x, y)
    if op == '=':
        ex.store(a[0], vs[1])
        return a[0]
    if op == '()':
        hook = getattr(ex, 'std_hooks', {}).get('()')
        if hook:
            return hook(ex, a, vs, n)
    if op == '*=' and isinstance(x, E):
        pass
    raise Unsupported('operator %s on %r' % (op, x))
