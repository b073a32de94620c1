"""Real-valued terms over symbolic dimensions and their normal form.

E is the language of `double` values: constants, elements of matrices indexed by
integer terms, sums over symbolic ranges, products, functions, case distinctions.
Machine doubles are treated as real numbers (stated in the evidence).

normalize() rewrites a term to a sum of monomials
    coef * SUM_{k1 in [lo,hi)} ... [guards] * atoms
decides index facts with z3, eliminates delta functions, canonicalises bound
variables and ranges (prefix sums).  Two terms with the same normal form are
equal for every value of the symbols, hence for every matrix size.
"""
from fractions import Fraction
import itertools
import z3

z3.set_param('smt.random_seed', 1)

TIMEOUT = 4000


class Undecided(Exception):
    """The generator cannot reach this construct (never a violation)."""


# --------------------------------------------------------------------------
# integers

def I(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    return x


_simp_cache = {}


def isimp(x):
    """Canonical form of an integer term (python int when constant)."""
    if isinstance(x, int):
        return x
    k = x.get_id()
    r = _simp_cache.get(k)
    if r is not None:
        return r[1]
    s = z3.simplify(x, som=True, sort_sums=True)
    v = s.as_long() if z3.is_int_value(s) else s
    _simp_cache[k] = (x, v)
    return v


_key_cache = {}


def ikey(x):
    x = isimp(x)
    if isinstance(x, int):
        return str(x)
    k = x.get_id()
    r = _key_cache.get(k)
    if r is None:
        r = (x, x.sexpr())
        _key_cache[k] = r
    return r[1]




class Fresh:
    """counter of fresh names"""

    def __init__(self):
        self.n = 0

    def __next__(self):
        self.n += 1
        return self.n - 1


_fresh = Fresh()


def fresh_int(name='k'):
    return z3.Int('%s!%d' % (name, next(_fresh)))


def fresh_name(name):
    return '%s!%d' % (name, next(_fresh))


_fv_cache = {}


def int_vars(x):
    """names of the constants occurring in a z3 term"""
    if isinstance(x, int):
        return frozenset()
    k = x.get_id()
    r = _fv_cache.get(k)
    if r is not None:
        return r[1]
    out = set()
    seen = set()
    stack = [x]
    while stack:
        t = stack.pop()
        i = t.get_id()
        if i in seen:
            continue
        seen.add(i)
        if z3.is_quantifier(t):
            stack.append(t.body())
            continue
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out.add(t.decl().name())
            stack.extend(t.children())
    r = frozenset(out)
    _fv_cache[k] = (x, r)
    return r


def isub(x, pairs):
    if isinstance(x, int):
        return x
    return isimp(z3.substitute(x, *[(a, I(b)) for a, b in pairs]))


def bsub(x, pairs):
    return z3.substitute(x, *[(a, I(b)) for a, b in pairs])


# --------------------------------------------------------------------------
# terms

class E:
    __slots__ = ('op', 'a', '_fv', '_z', '__weakref__')

    def __init__(self, op, *a):
        self.op = op
        self.a = a
        self._fv = None
        self._z = None

    def __add__(self, o): return add(self, o)
    def __radd__(self, o): return add(o, self)
    def __sub__(self, o): return add(self, mul(-1, o))
    def __rsub__(self, o): return add(o, mul(-1, self))
    def __mul__(self, o): return mul(self, o)
    def __rmul__(self, o): return mul(o, self)
    def __truediv__(self, o): return mul(self, inv(o))
    def __rtruediv__(self, o): return mul(o, inv(self))
    def __neg__(self): return mul(-1, self)

    def fv(self):
        if self._fv is None:
            s = frozenset()
            o = self.op
            if o == 'v':
                for x in self.a[1]:
                    s |= int_vars(x)
            elif o == 'i':
                s = int_vars(self.a[0])
            elif o in ('+', '*'):
                for x in self.a[0]:
                    s |= x.fv()
            elif o == 'ite':
                s = int_vars(self.a[0]) | self.a[1].fv() | self.a[2].fv()
            elif o in ('sum', 'big'):
                k, lo, hi, b = self.a[-4:]
                s = (b.fv() - {k.decl().name()}) | int_vars(lo) | int_vars(hi)
            elif o == 'fn':
                for x in self.a[1]:
                    s |= x.fv()
            self._fv = s
        return self._fv

    def __repr__(self):
        return show(self)


def const(x):
    if isinstance(x, E):
        return x
    if isinstance(x, Fraction):
        return E('c', x)
    if isinstance(x, (int,)):
        return E('c', Fraction(x))
    if isinstance(x, float):
        # decimal literal semantics: 1e-9 means 10^-9
        return E('c', Fraction(repr(x)) if 'e' not in repr(x) and 'n' not in repr(x) else Fraction(repr(x)))
    if z3.is_expr(x) and z3.is_int(x):
        return toreal(x)
    raise Undecided('not a real value: %r' % (x,))


ZERO = E('c', Fraction(0))
ONE = E('c', Fraction(1))


def sym_idx(v):
    """indices of a variable; names ending in ~ denote symmetric matrices (last two indices)"""
    ix = v.a[1]
    if v.a[0].endswith('~') and ikey(ix[-2]) > ikey(ix[-1]):
        return ix[:-2] + (ix[-1], ix[-2])
    return ix


def toreal(x):
    x = isimp(x)
    if isinstance(x, int):
        return const(x)
    return E('i', x)


def var(name, *idx):
    return E('v', name, tuple(isimp(I(x)) for x in idx))


def is_c(e, v=None):
    return e.op == 'c' and (v is None or e.a[0] == v)


def add(*xs):
    out = []
    c = Fraction(0)
    for x in xs:
        x = const(x)
        if x.op == 'c':
            c += x.a[0]
        elif x.op == '+':
            for y in x.a[0]:
                if y.op == 'c':
                    c += y.a[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c != 0:
        out.append(const(c))
    if not out:
        return ZERO
    if len(out) == 1:
        return out[0]
    return E('+', tuple(out))


def mul(*xs):
    out = []
    c = Fraction(1)
    for x in xs:
        x = const(x)
        if x.op == 'c':
            c *= x.a[0]
        elif x.op == '*':
            for y in x.a[0]:
                if y.op == 'c':
                    c *= y.a[0]
                else:
                    out.append(y)
        else:
            out.append(x)
    if c == 0:
        return ZERO
    if c != 1:
        out.append(const(c))
    if not out:
        return ONE
    if len(out) == 1:
        return out[0]
    return E('*', tuple(out))


def fn(name, *args):
    args = tuple(const(a) for a in args)
    if name == 'inv' and args[0].op == 'c' and args[0].a[0] != 0:
        return const(1 / args[0].a[0])
    if name == 'sqrt' and args[0].op == 'c' and args[0].a[0] in (0, 1):
        return args[0]
    if name == 'exp' and is_c(args[0], 0):
        return ONE
    if name == 'abs' and args[0].op == 'c':
        return const(abs(args[0].a[0]))
    return E('fn', name, args)


def inv(x):
    return fn('inv', x)


def ite(c, a, b):
    if c is True:
        return const(a)
    if c is False:
        return const(b)
    a = const(a)
    b = const(b)
    c = z3.simplify(c)
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a is b:
        return a
    if a.op == 'c' and b.op == 'c' and a.a[0] == b.a[0]:
        return a
    return E('ite', c, a, b)


def Sum(lo, hi, f):
    """sum_{lo <= k < hi} f(k)"""
    lo, hi = isimp(I(lo)), isimp(I(hi))
    d = isimp(I(hi) - I(lo))
    if isinstance(d, int):
        if d <= 0:
            return ZERO
        if d <= 9:
            return add(*[f(isimp(I(lo) + t)) for t in range(d)])
    k = fresh_int('k')
    b = f(k)
    b = const(b)
    if is_c(b, 0):
        return ZERO
    return E('sum', k, lo, hi, b)


def Big(op, lo, hi, f):
    """max / min over a range (undefined on the empty range)"""
    lo, hi = isimp(I(lo)), isimp(I(hi))
    d = isimp(I(hi) - I(lo))
    if isinstance(d, int) and d == 1:
        return const(f(lo))
    if isinstance(d, int) and 1 < d <= 4:
        r = const(f(lo))
        for t in range(1, d):
            r = fn(op, r, const(f(isimp(I(lo) + t))))
        return r
    k = fresh_int('k')
    return E('big', op, k, lo, hi, const(f(k)))


def Max(a, b):
    return fn('max', a, b)


def Min(a, b):
    return fn('min', a, b)


def subst(e, pairs):
    """substitute integer variables by integer terms"""
    names = {a.decl().name() for a, _ in pairs}
    if not (e.fv() & names):
        return e
    o = e.op
    if o == 'v':
        return E('v', e.a[0], tuple(isub(x, pairs) for x in e.a[1]))
    if o == 'i':
        return toreal(isub(e.a[0], pairs))
    if o == '+':
        return add(*[subst(x, pairs) for x in e.a[0]])
    if o == '*':
        return mul(*[subst(x, pairs) for x in e.a[0]])
    if o == 'ite':
        return ite(bsub(e.a[0], pairs), subst(e.a[1], pairs), subst(e.a[2], pairs))
    if o == 'fn':
        return fn(e.a[0], *[subst(x, pairs) for x in e.a[1]])
    if o in ('sum', 'big'):
        k, lo, hi, b = e.a[-4:]
        ps = [(x, y) for x, y in pairs if x.decl().name() != k.decl().name()]
        # avoid capture
        if any((not isinstance(y, int)) and k.decl().name() in int_vars(y) for _, y in ps):
            k2 = fresh_int('k')
            b = subst(b, [(k, k2)])
            k = k2
        return E(o, *(e.a[:-4] + (k, isub(lo, ps), isub(hi, ps), subst(b, ps))))
    return e


def show(e):
    o = e.op
    if o == 'c':
        return str(e.a[0])
    if o == 'v':
        return e.a[0] + ('(%s)' % ','.join(str(x) for x in e.a[1]) if e.a[1] else '')
    if o == 'i':
        return 'real(%s)' % e.a[0]
    if o == '+':
        return '(' + ' + '.join(show(x) for x in e.a[0]) + ')'
    if o == '*':
        return '*'.join(show(x) for x in e.a[0])
    if o == 'ite':
        return 'ite(%s, %s, %s)' % (e.a[0], show(e.a[1]), show(e.a[2]))
    if o == 'sum':
        return 'sum_{%s in [%s,%s)} %s' % (e.a[0], e.a[1], e.a[2], show(e.a[3]))
    if o == 'big':
        return '%s_{%s in [%s,%s)} %s' % e.a[:4] + (show(e.a[4]),) if False else \
            '%s_{%s in [%s,%s)} %s' % (e.a[0], e.a[1], e.a[2], e.a[3], show(e.a[4]))
    if o == 'fn':
        return '%s(%s)' % (e.a[0], ', '.join(show(x) for x in e.a[1]))
    return '?'


# --------------------------------------------------------------------------
# proof context

class Stats:
    z3_queries = 0
    z3_time = 0.0
    norm_calls = 0


QUANT = {}


def quantified(f):
    if not z3.is_expr(f):
        return False
    k = f.get_id()
    r = QUANT.get(k)
    if r is None:
        r, st, seen = False, [f], set()
        while st:
            x = st.pop()
            if z3.is_quantifier(x):
                r = True
                break
            if z3.is_expr(x) and x.get_id() not in seen:
                seen.add(x.get_id())
                st += x.children()
        QUANT[k] = (r, f)
        return r
    return r[0]


class Ctx:
    """A set of facts; entails() asks z3."""

    def __init__(self, facts=(), parent=None):
        self.facts = list(facts)
        self.cache = {}
        self.solver = None
        self.nsolved = 0
        self.plain = None       # solver for the facts without quantifiers
        self.nplain = 0
        self.nquant = 0

    def add(self, f):
        self.facts.append(f)
        self.cache = {k: v for k, v in self.cache.items() if v is True}

    def child(self, facts):
        c = Ctx(self.facts + list(facts))
        c.cache = {k: v for k, v in self.cache.items() if v is True}
        return c

    def _solver(self):
        if self.solver is None:
            self.solver = z3.Solver()
            self.solver.set('timeout', TIMEOUT)
            self.nsolved = 0
        while self.nsolved < len(self.facts):
            self.solver.add(self.facts[self.nsolved])
            self.nsolved += 1
        return self.solver

    def _plain(self):
        if self.plain is None:
            self.plain = z3.Solver()
            self.plain.set('timeout', 1000)
        while self.nplain < len(self.facts):
            f = self.facts[self.nplain]
            if quantified(f):
                self.nquant += 1
            else:
                self.plain.add(f)
            self.nplain += 1
        return self.plain

    QUERIES = {}      # results of queries: the same facts come up on every path through a common prefix

    def key(self, extra, kind):
        ids = self.__dict__.setdefault('ids', [])
        if len(ids) > len(self.facts):
            del ids[:]
        for f in self.facts[len(ids):]:
            ids.append(f.get_id() if z3.is_expr(f) else f)
        return (kind, tuple(ids), tuple(e.get_id() if z3.is_expr(e) else e for e in extra))

    def check(self, *extra):
        k = self.key(extra, 'check')
        r = Ctx.QUERIES.get(k)
        if r is None:
            r = self._check(*extra)
            if r != z3.sat:
                Ctx.QUERIES[k] = (r, list(self.facts), extra)     # keeps the terms alive: ids stay valid
            return r
        return r[0]

    def check_path(self, *extra):
        k = self.key(extra, 'path')
        r = Ctx.QUERIES.get(k)
        if r is None:
            r = self._check_path(*extra)
            Ctx.QUERIES[k] = (r, list(self.facts), extra)
            return r
        return r[0]

    def _check(self, *extra):
        import time
        Stats.z3_queries += 1
        t = time.time()
        s = self._plain()
        if self.nquant and s.check(*extra) == z3.unsat:
            Stats.z3_time += time.time() - t
            return z3.unsat
        s = self._solver()
        r = s.check(*extra)
        if r == z3.unknown:
            # a fresh, non-incremental solver is often stronger
            s2 = z3.Solver()
            s2.set('timeout', TIMEOUT)
            s2.add(self.facts)
            s2.add(*extra)
            r = s2.check()
            if r == z3.sat:
                self.last_model = s2.model()
        elif r == z3.sat:
            self.last_model = s.model()
        Stats.z3_time += time.time() - t
        return r

    def _check_path(self, *extra):
        """feasibility of a branch: quantified facts only get a short time (unknown counts as feasible)"""
        s = self._plain()
        if not self.nquant:
            return self.check(*extra)
        import time
        Stats.z3_queries += 1
        t = time.time()
        r = s.check(*extra)
        if r == z3.unknown:
            s2 = z3.Solver()
            s2.set('timeout', TIMEOUT)
            s2.add([f for f in self.facts if not quantified(f)])
            s2.add(*extra)
            r = s2.check()
        if r != z3.unsat:
            s = self._solver()
            s.set('timeout', 800)
            r = s.check(*extra)
            s.set('timeout', TIMEOUT)
        Stats.z3_time += time.time() - t
        return r

    def entails(self, b, use_real=True):
        if b is True:
            return True
        if b is False:
            return False
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return self.unsat()
        k = b.get_id()
        r = self.cache.get(k)
        if r is None:
            r = self.check_path(z3.Not(b)) == z3.unsat
            self.cache[k] = r
            self._keep = getattr(self, '_keep', [])
            self._keep.append(b)
        return r

    def unsat(self):
        return self.check() == z3.unsat

    def fixed(self):
        """real variables which a fact equates with a constant"""
        c = getattr(self, '_fixed', None)
        if c is None or c[0] != len(self.facts):
            d = {}
            st = list(self.facts)
            while st:
                f = st.pop()
                if not z3.is_expr(f):
                    continue
                if z3.is_and(f):
                    st += f.children()
                elif z3.is_eq(f) and z3.is_real(f.arg(0)):
                    a, b = f.arg(0), f.arg(1)
                    if z3.is_rational_value(a):
                        a, b = b, a
                    if z3.is_rational_value(b) and z3.is_const(a) and a.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                        d[a.decl().name()] = b.as_fraction()
            c = self._fixed = (len(self.facts), d)
        return c[1]


# --------------------------------------------------------------------------
# normal form

class Mono:
    __slots__ = ('coef', 'binders', 'guards', 'atoms')

    def __init__(self, coef, binders=(), guards=(), atoms=()):
        self.coef = coef
        self.binders = list(binders)   # (k, lo, hi)
        self.guards = list(guards)     # z3 bools
        self.atoms = list(atoms)       # E of op v,i,fn,big (with multiplicity)

    def copy(self):
        return Mono(self.coef, self.binders, self.guards, self.atoms)


def rename_binders(m):
    if not m.binders:
        return m
    pairs = [(k, fresh_int('k')) for k, _, _ in m.binders]
    return Mono(m.coef,
                [(dict((a.get_id(), b) for a, b in pairs)[k.get_id()], isub(lo, pairs), isub(hi, pairs))
                 for k, lo, hi in m.binders],
                [bsub(g, pairs) for g in m.guards],
                [subst(a, pairs) for a in m.atoms])


def mono_mul(a, b):
    if a.binders and b.binders:
        an = {k.decl().name() for k, _, _ in a.binders}
        bn = {k.decl().name() for k, _, _ in b.binders}
        if an & bn:
            b = rename_binders(b)
    return Mono(a.coef * b.coef, a.binders + b.binders, a.guards + b.guards, a.atoms + b.atoms)


class Normalizer:
    def __init__(self, ctx):
        self.ctx = ctx
        self.side = []       # conditions needed that z3 could not show
        self.depth = 0
        self.akey_cache = {}
        Stats.norm_calls += 1

    # ---- facts about binders
    def with_binders(self, binders, guards=()):
        if not binders and not guards:
            return self.ctx
        facts = []
        for k, lo, hi in binders:
            facts += [I(lo) <= k, k < I(hi)]
        facts += list(guards)
        key = tuple(f.get_id() for f in facts)
        c = getattr(self.ctx, '_children', None)
        if c is None:
            c = self.ctx._children = {}
        if (key, len(self.ctx.facts)) not in c:
            c[(key, len(self.ctx.facts))] = (facts, self.ctx.child(facts))
        return c[(key, len(self.ctx.facts))][1]

    # ---- expansion
    def expand(self, e, binders=(), guards=()):
        """list of Mono; binders/guards: the enclosing scope (facts only)"""
        o = e.op
        if o == 'c':
            return [Mono(e.a[0])] if e.a[0] != 0 else []
        if o == 'v':
            if not e.a[1]:
                v = self.ctx.fixed().get(e.a[0])
                if v is not None:
                    return [Mono(v)] if v != 0 else []
            return [Mono(Fraction(1), atoms=[e])]
        if o == 'i':
            return self.expand_int(e.a[0])
        if o == '+':
            out = []
            for x in e.a[0]:
                out += self.expand(x, binders, guards)
            return self.collect_light(out)
        if o == '*':
            acc = [Mono(Fraction(1))]
            for x in sorted(e.a[0], key=lambda t: 0 if t.op in ('c', 'v') else 1):
                ex = self.expand(x, binders, guards)
                acc = [mono_mul(a, b) for a in acc for b in ex]
                if len(acc) > 20000:
                    raise Undecided('term too large')
                acc = self.collect_light(acc)
            return acc
        if o == 'ite':
            c, a, b = e.a
            ctx = self.with_binders(binders, guards)
            if ctx.entails(c):
                return self.expand(a, binders, guards)
            if ctx.entails(z3.Not(c)):
                return self.expand(b, binders, guards)
            out = []
            for g, x in ((c, a), (z3.Not(c), b)):
                g = z3.simplify(g)
                for m in self.expand(x, binders, tuple(guards) + (g,)):
                    m.guards = [g] + m.guards
                    out.append(m)
            return out
        if o == 'sum':
            k, lo, hi, b = e.a
            ctx = self.with_binders(binders, guards)
            if ctx.entails(I(lo) >= I(hi)):
                return []
            if any(k.get_id() == q.get_id() for q, _, _ in binders):
                k2 = fresh_int('k')
                b = subst(b, [(k, k2)])
                k = k2
            out = []
            for m in self.expand(b, tuple(binders) + ((k, lo, hi),), guards):
                m.binders = [(k, lo, hi)] + m.binders
                out += self.simplify_sum(m, binders, guards)
            return out
        if o == 'fn':
            return self.expand_fn(e, binders, guards)
        if o == 'big':
            return [Mono(Fraction(1), atoms=[e])]
        raise Undecided('term ' + o)

    def collect_light(self, ms):
        """merge syntactically identical binder-free monomials early"""
        if len(ms) < 24:
            return ms
        d = {}
        rest = []
        for m in ms:
            if m.binders or m.guards:
                rest.append(m)
                continue
            m = self.reduce_atoms(m, ())
            for x in m:
                if x.binders or x.guards:
                    rest.append(x)
                    continue
                k = '*'.join(sorted(self.akey(a, ()) for a in x.atoms))
                if k in d:
                    d[k].coef += x.coef
                else:
                    d[k] = x.copy()
        return [m for m in d.values() if m.coef != 0] + rest

    def expand_int(self, x):
        x = isimp(x)
        if isinstance(x, int):
            return [Mono(Fraction(x))] if x else []
        if z3.is_add(x):
            out = []
            for c in x.children():
                out += self.expand_int(c)
            return out
        if z3.is_sub(x):
            ch = x.children()
            out = self.expand_int(ch[0])
            for c in ch[1:]:
                for m in self.expand_int(c):
                    m.coef = -m.coef
                    out.append(m)
            return out
        if z3.is_app_of(x, z3.Z3_OP_UMINUS):
            out = self.expand_int(x.arg(0))
            for m in out:
                m.coef = -m.coef
            return out
        if z3.is_mul(x):
            acc = [Mono(Fraction(1))]
            for c in x.children():
                acc = [mono_mul(a, b) for a in acc for b in self.expand_int(c)]
            return acc
        return [Mono(Fraction(1), atoms=[E('i', x)])]

    def expand_fn(self, e, binders, guards):
        name, args = e.a
        if name == 'inv':
            p = self.normal(args[0], binders, guards)
            if len(p) == 1:
                (m,) = p.values()
                if not m.binders and not m.guards:
                    atoms = []
                    for a in m.atoms:
                        if a.op == 'fn' and a.a[0] == 'exp':
                            atoms.append(fn('exp', -a.a[1][0]))
                        elif a.op == 'fn' and a.a[0] == 'inv' and self.nonzero(a.a[1][0], binders, guards):
                            atoms.append(a.a[1][0])
                        else:
                            atoms.append(E('fn', 'inv', (a,)))
                    if any(a.op not in ('v', 'i', 'fn', 'big') for a in atoms):
                        return self.expand(mul(const(1 / m.coef), *atoms), binders, guards)
                    return [Mono(1 / m.coef, atoms=atoms)]
            if len(p) == 0:
                return [Mono(Fraction(1), atoms=[E('fn', 'inv', (ZERO,))])]
            # canonical leading coefficient
            q = self.unpoly(p)
            lead = p[sorted(p)[0]].coef
            return [Mono(1 / lead, atoms=[E('fn', 'inv', (mul(const(1 / lead), q),))])]
        if name in ('sqrt', 'exp', 'abs', 'log'):
            p = self.normal(args[0], binders, guards)
            q = self.unpoly(p)
            if name == 'abs':
                zz = self.to_z3_poly(p, binders, guards)
                ctx = self.with_binders(binders, guards)
                if zz is not None:
                    if self.entails_real(ctx, zz >= 0):
                        return list(p.values())
                    if self.entails_real(ctx, zz <= 0):
                        return [Mono(-m.coef, m.binders, m.guards, m.atoms) for m in p.values()]
                if p and p[sorted(p)[0]].coef < 0:
                    q = self.unpoly({k: Mono(-m.coef, m.binders, m.guards, m.atoms) for k, m in p.items()})
            if name == 'sqrt' and q.op == 'c':
                if q.a[0] == 0:
                    return []
                import math
                num, den = q.a[0].numerator, q.a[0].denominator
                if num > 0 and math.isqrt(num) ** 2 == num and math.isqrt(den) ** 2 == den:
                    return [Mono(Fraction(math.isqrt(num), math.isqrt(den)))]
            if name == 'exp' and q.op == 'c' and q.a[0] == 0:
                return [Mono(Fraction(1))]
            return [Mono(Fraction(1), atoms=[E('fn', name, (q,))])]
        if name in ('max', 'min'):
            ps = [self.normal(a, binders, guards) for a in args]
            z = [self.to_z3_poly(p, binders, guards) for p in ps]
            ctx = self.with_binders(binders, guards)
            if self.entails_real(ctx, z[0] >= z[1]):
                return list((ps[0] if name == 'max' else ps[1]).values())
            if self.entails_real(ctx, z[0] <= z[1]):
                return list((ps[1] if name == 'max' else ps[0]).values())
            qs = sorted([self.unpoly(p) for p in ps], key=lambda t: self.ekey(t, ()))
            return [Mono(Fraction(1), atoms=[E('fn', name, tuple(qs))])]
        qs = tuple(self.unpoly(self.normal(a, binders, guards)) for a in args)
        return [Mono(Fraction(1), atoms=[E('fn', name, qs)])]

    def entails_real(self, ctx, b):
        axs = self.axioms_for(b)
        b = z3.simplify(b)
        if z3.is_true(b):
            return True
        if z3.is_false(b):
            return False
        return ctx.check(z3.Not(b), *axs) == z3.unsat

    def nonzero(self, e, binders, guards):
        if e.op == 'c':
            return e.a[0] != 0
        ctx = self.with_binders(binders, guards)
        z = self.to_z3(e)
        return self.entails_real(ctx, z != 0)

    # ---- sums
    def simplify_sum(self, m, binders, guards):
        """m has its own outermost binder first; eliminate deltas / turn order
        guards into ranges.  Returns list of monos."""
        work = [m]
        out = []
        steps = 0
        while work:
            m = work.pop()
            steps += 1
            if steps > 400:
                raise Undecided('sum simplification')
            changed = False
            bn = {k.decl().name(): (k, lo, hi) for k, lo, hi in m.binders}
            # decide guards
            keep = []
            dead = False
            for i, g in enumerate(m.guards):
                others = keep + m.guards[i + 1:]
                ctx = self.with_binders(tuple(binders) + tuple(m.binders), tuple(guards) + tuple(others))
                if ctx.entails(g):
                    changed = True
                    continue
                if ctx.entails(z3.Not(g)):
                    dead = True
                    break
                keep.append(g)
            if dead:
                continue
            m = Mono(m.coef, m.binders, keep, m.atoms)
            if not m.binders:
                out.append(m)
                continue
            # conjunctions / disjunctions
            done = False
            for i, g in enumerate(m.guards):
                if z3.is_and(g):
                    work.append(Mono(m.coef, m.binders, m.guards[:i] + list(g.children()) + m.guards[i + 1:], m.atoms))
                    done = True
                    break
                if z3.is_not(g) and z3.is_or(g.arg(0)):
                    work.append(Mono(m.coef, m.binders, m.guards[:i] + [z3.simplify(z3.Not(c)) for c in g.arg(0).children()] + m.guards[i + 1:], m.atoms))
                    done = True
                    break
                if z3.is_not(g) and z3.is_not(g.arg(0)):
                    work.append(Mono(m.coef, m.binders, m.guards[:i] + [g.arg(0).arg(0)] + m.guards[i + 1:], m.atoms))
                    done = True
                    break
                if z3.is_or(g) or (z3.is_not(g) and z3.is_and(g.arg(0))):
                    ch = list(g.children()) if z3.is_or(g) else [z3.simplify(z3.Not(c)) for c in g.arg(0).children()]
                    prev = []
                    for c in ch:
                        work.append(Mono(m.coef, m.binders, m.guards[:i] + prev + [c] + m.guards[i + 1:], m.atoms))
                        prev = prev + [z3.simplify(z3.Not(c))]
                    done = True
                    break
            if done:
                continue
            # equalities on a bound variable
            for i, g in enumerate(m.guards):
                if z3.is_eq(g) and z3.is_int(g.arg(0)):
                    sol = solve_eq(g, bn)
                    if sol is not None:
                        k, ex = sol
                        _, lo, hi = bn[k.decl().name()]
                        rest = [b for b in m.binders if b[0].get_id() != k.get_id()]
                        pairs = [(k, ex)]
                        gs = [bsub(x, pairs) for j, x in enumerate(m.guards) if j != i]
                        gs += [I(lo) <= I(ex), I(ex) < I(hi)]
                        work.append(Mono(m.coef,
                                         [(q, isub(l, pairs), isub(h, pairs)) for q, l, h in rest],
                                         gs, [subst(a, pairs) for a in m.atoms]))
                        done = True
                        break
                elif z3.is_not(g) and z3.is_eq(g.arg(0)) and z3.is_int(g.arg(0).arg(0)):
                    sol = solve_eq(g.arg(0), bn)
                    if sol is not None:
                        # sum over k != e  ->  all - (k == e); at an end of the range: shorter range
                        gs = m.guards[:i] + m.guards[i + 1:]
                        k, ex = sol
                        _, lo, hi = bn[k.decl().name()]
                        exn = int_vars(ex) if not isinstance(ex, int) else frozenset()
                        if not exn & set(bn):
                            cx = self.with_binders(tuple(binders), tuple(guards))
                            nb = None
                            if cx.entails(I(ex) == I(lo)):
                                nb = (k, isimp(I(lo) + 1), hi)
                            elif cx.entails(I(ex) == I(hi) - 1):
                                nb = (k, lo, isimp(I(hi) - 1))
                            if nb is not None:
                                if not cx.entails(I(nb[1]) >= I(nb[2])):
                                    work.append(Mono(m.coef, [nb if b[0].get_id() == k.get_id() else b for b in m.binders], gs, m.atoms))
                                done = True
                                break
                        work.append(Mono(m.coef, m.binders, gs, m.atoms))
                        work.append(Mono(-m.coef, m.binders, gs + [g.arg(0)], m.atoms))
                        done = True
                        break
            if done:
                continue
            # inequalities on a bound variable -> range
            for i, g in enumerate(m.guards):
                r = solve_ineq(g, bn)
                if r is None:
                    continue
                k, kind, ex = r
                _, lo, hi = bn[k.decl().name()]
                names = int_vars(ex) if not isinstance(ex, int) else frozenset()
                if names & set(bn):
                    continue
                gs = m.guards[:i] + m.guards[i + 1:]
                ctx = self.with_binders(tuple(binders), tuple(guards))
                if kind == 'lt':      # k < ex
                    if ctx.entails(I(ex) <= I(hi)):
                        nb = (k, lo, ex)
                    elif ctx.entails(I(ex) >= I(hi)):
                        nb = (k, lo, hi)
                    else:
                        continue
                else:                 # k >= ex
                    if ctx.entails(I(ex) >= I(lo)):
                        nb = (k, ex, hi)
                    elif ctx.entails(I(ex) <= I(lo)):
                        nb = (k, lo, hi)
                    else:
                        continue
                if ctx.entails(I(nb[1]) >= I(nb[2])):
                    done = True
                    break
                work.append(Mono(m.coef, [nb if b[0].get_id() == k.get_id() else b for b in m.binders], gs, m.atoms))
                done = True
                break
            if done:
                continue
            out.append(m)
        return out

    # ---- atoms
    def akey(self, a, bmap):
        if a.op == 'v':
            return a.a[0] + '[' + ','.join(ikey(x) for x in sym_idx(a)) + ']'
        if a.op == 'i':
            return 'int[' + ikey(a.a[0]) + ']'
        return self.ekey(a, bmap)

    def ekey(self, e, bmap):
        ck = (id(e),)
        r = self.akey_cache.get(ck)
        if r is not None:
            return r[1]
        o = e.op
        if o == 'c':
            s = str(e.a[0])
        elif o == 'v' or o == 'i':
            s = self.akey(e, bmap)
        elif o in ('+', '*'):
            s = '(' + o.join(sorted(self.ekey(x, bmap) for x in e.a[0])) + ')'
        elif o == 'fn':
            s = e.a[0] + '(' + ','.join(self.ekey(x, bmap) for x in e.a[1]) + ')'
        elif o == 'big':
            nm, k, lo, hi, b = e.a
            c = z3.Int('$b')
            depth = 0
            while ('$b%d' % depth) in b.fv():
                depth += 1
            c = z3.Int('$b%d' % depth)
            # the body is normalised in the scope of its range
            p = self.normal(b, ((k, lo, hi),), ())
            q = subst(self.unpoly(p), [(k, c)])
            s = '%s{%s,%s}(%s)' % (nm, ikey(lo), ikey(hi), self.ekey(q, bmap))
        elif o == 'sum':
            k, lo, hi, b = e.a
            depth = 0
            while ('$b%d' % depth) in b.fv():
                depth += 1
            c = z3.Int('$b%d' % depth)
            s = 'sum{%s,%s}(%s)' % (ikey(lo), ikey(hi), self.ekey(subst(b, [(k, c)]), bmap))
        elif o == 'ite':
            s = 'ite(%s,%s,%s)' % (e.a[0].sexpr(), self.ekey(e.a[1], bmap), self.ekey(e.a[2], bmap))
        else:
            raise Undecided(o)
        self.akey_cache[ck] = (e, s)
        return s

    def reduce_atoms(self, m, scope):
        """combine exp, sqrt^2, x*inv(x).  returns list of monos"""
        binders = tuple(scope) + tuple(m.binders)
        atoms = m.atoms
        special = [a for a in atoms if a.op == 'fn']
        if not special:
            return [m]
        # exp
        ex = [a for a in special if a.a[0] == 'exp']
        if len(ex) > 1:
            arg = add(*[a.a[1][0] for a in ex])
            rest = [a for a in atoms if not (a.op == 'fn' and a.a[0] == 'exp')]
            ms = self.expand(fn('exp', arg), binders, m.guards)
            return [y for x in ms for y in self.reduce_atoms(mono_mul(Mono(m.coef, m.binders, m.guards, rest), x), scope)]
        # sqrt squared
        cnt = {}
        for a in special:
            if a.a[0] in ('sqrt', 'abs'):
                cnt.setdefault(self.akey(a, ()), []).append(a)
        for k, l in cnt.items():
            if len(l) >= 2:
                arg = l[0].a[1][0]
                ctx = self.with_binders(binders, m.guards)
                if l[0].a[0] == 'abs':
                    rep = mul(arg, arg)
                elif self.entails_real(ctx, self.to_z3(arg) >= 0):
                    rep = arg
                else:
                    continue
                rest = list(atoms)
                n = 0
                out = []
                for a in rest:
                    if n < 2 and a.op == 'fn' and a.a[0] == l[0].a[0] and self.akey(a, ()) == k:
                        n += 1
                        continue
                    out.append(a)
                base = Mono(m.coef, m.binders, m.guards, out)
                return [y for x in self.expand(rep, binders, m.guards)
                        for y in self.reduce_atoms(mono_mul(base, x), scope)]
        # x * inv(x)
        invs = [(i, a) for i, a in enumerate(atoms) if a.op == 'fn' and a.a[0] == 'inv']
        if invs:
            keys = {}
            for j, b in enumerate(atoms):
                keys.setdefault(self.akey(b, ()), []).append(j)
            for i, a in invs:
                k = self.ekey(a.a[1][0], ())
                if k in keys:
                    if self.nonzero(a.a[1][0], binders, m.guards):
                        j = keys[k][0]
                        out = [x for t, x in enumerate(atoms) if t not in (i, j)]
                        return self.reduce_atoms(Mono(m.coef, m.binders, m.guards, out), scope)
        return [m]

    # ---- canonical form of one monomial
    def canon(self, m, scope):
        """returns list of (key, Mono) after canonicalising bound variables."""
        m_bn = {k.decl().name() for k, _, _ in m.binders}
        if not m.binders:
            g = sorted(x.sexpr() for x in m.guards)
            key = '*'.join(sorted(self.akey(a, ()) for a in m.atoms))
            if g:
                key = '[' + '&'.join(g) + ']' + key
            return [(key, m)]
        # binder not used
        used = set()
        for a in m.atoms:
            used |= a.fv()
        for g in m.guards:
            used |= int_vars(g)
        for k, lo, hi in m.binders:
            used |= int_vars(lo) | int_vars(hi)
        for i, (k, lo, hi) in enumerate(m.binders):
            if k.decl().name() not in used:
                ctx = self.with_binders(scope, ())
                rest = m.binders[:i] + m.binders[i + 1:]
                ctx2 = self.with_binders(tuple(scope) + tuple(rest), ())
                if ctx2.entails(I(lo) <= I(hi)):
                    base = Mono(m.coef, rest, m.guards, m.atoms)
                    out = []
                    for x in self.expand_int(isimp(I(hi) - I(lo))):
                        out += self.canon(mono_mul(base, x), scope)
                    return out
        # ranges: differences of prefix sums, for independent binders.
        boundvars = set()
        for k, lo, hi in m.binders:
            boundvars |= (int_vars(lo) | int_vars(hi)) & m_bn
        for g in m.guards:
            boundvars |= int_vars(g) & m_bn
        for i, (k, lo, hi) in enumerate(m.binders):
            nm = k.decl().name()
            if nm in boundvars or (int_vars(lo) | int_vars(hi)) & m_bn:
                continue
            sh = self.best_shift(m, k, m_bn)
            if sh is not None and ikey(sh) != '0':
                # k := k' - sh
                pairs = [(k, isimp(k - I(sh)))]
                m = Mono(m.coef,
                         m.binders[:i] + [(k, isimp(I(lo) + I(sh)), isimp(I(hi) + I(sh)))] + m.binders[i + 1:],
                         [bsub(g, pairs) for g in m.guards],
                         [subst(a, pairs) for a in m.atoms])
                k, lo, hi = m.binders[i]
            if ikey(lo) == '0' and not self.has_offset(hi) and not (isinstance(hi, int) and hi <= 12):
                continue
            ctx = self.with_binders(scope, ())
            if not ctx.entails(I(lo) <= I(hi)):
                continue
            rest = m.binders[:i] + m.binders[i + 1:]
            out = []
            for sgn, end in ((1, hi), (-1, lo)):
                if ikey(end) == '0':
                    continue
                c, base = split_const(end)
                # prefix(end) = prefix(base) + sum_{t=base..end-1}
                if not (isinstance(base, int) and base == 0):
                    out += self.canon_prefix(Mono(sgn * m.coef, m.binders[:i] + [(k, 0, base)] + m.binders[i + 1:], m.guards, m.atoms), scope)
                rng = range(0, c) if c > 0 else range(c, 0)
                s2 = sgn if c > 0 else -sgn
                if abs(c) > 12:
                    break
                for t in rng:
                    pairs = [(k, isimp(I(base) + t))]
                    mm = Mono(s2 * m.coef, rest, m.guards, [subst(a, pairs) for a in m.atoms])
                    for x in self.reduce_atoms(mm, scope):
                        out += self.canon(x, scope)
            else:
                return out
        return self.canon_prefix(m, scope)

    def has_offset(self, x):
        c, b = split_const(x)
        return c != 0 and not isinstance(b, int)

    def best_shift(self, m, k, m_bn):
        """an offset b such that some atom has index k + b; chosen canonically
        (the smallest resulting body) so that shifted sums coincide"""
        offs = {}
        nm = k.decl().name()

        def visit(e):
            if nm not in e.fv():
                return
            if e.op == 'v':
                for x in e.a[1]:
                    r = coeff_of(x, k)
                    if r and r[0] == 1 and not (int_vars(r[1]) & m_bn):
                        offs[ikey(r[1])] = r[1]
            elif e.op in ('+', '*'):
                for x in e.a[0]:
                    visit(x)
            elif e.op == 'fn':
                for x in e.a[1]:
                    visit(x)
            elif e.op in ('sum', 'big'):
                visit(e.a[-1])
        for a in m.atoms:
            visit(a)
        if not offs:
            return None
        if len(offs) == 1:
            return list(offs.values())[0]
        best = None
        c = z3.Int('$sh')
        for ks in sorted(offs):
            b = offs[ks]
            pairs = [(k, isimp(c - I(b)))]
            key = '*'.join(sorted(self.akey(subst(a, pairs), ()) for a in m.atoms))
            if best is None or (len(key), key) < best[0]:
                best = ((len(key), key), b)
        return best[1]

    def components(self, m):
        """independent factors of a monomial with sums: [(binders, guards, atoms)], and the atoms without bound variables"""
        names = [k.decl().name() for k, _, _ in m.binders]
        idx = {nm: i for i, nm in enumerate(names)}
        par = list(range(len(names)))

        def find(i):
            while par[i] != i:
                par[i] = par[par[i]]
                i = par[i]
            return i

        def link(vs):
            vs = [idx[v] for v in vs if v in idx]
            for v in vs[1:]:
                par[find(v)] = find(vs[0])
            return vs
        free, dep = [], []
        for x in m.atoms:
            v = link(x.fv())
            (dep if v else free).append((x, v))
        gs = [(g, link(int_vars(g))) for g in m.guards]
        for k, lo, hi in m.binders:
            link({k.decl().name()} | set(int_vars(I(lo))) | set(int_vars(I(hi))))
        comps = {}
        for i, bd in enumerate(m.binders):
            comps.setdefault(find(i), ([], [], []))[0].append(bd)
        for x, v in dep:
            comps[find(v[0])][2].append(x)
        fg = []
        for g, v in gs:
            if v:
                comps[find(v[0])][1].append(g)
            else:
                fg.append(g)
        return list(comps.values()), [x for x, _ in free], fg

    def comp_key(self, binders, guards, atoms):
        m_bn = [k for k, _, _ in binders]
        n = len(m_bn)
        if n > 5:
            raise Undecided('too many nested sums')
        best = None
        for perm in itertools.permutations(range(n)):
            pairs = [(m_bn[p], z3.Int('$s%d' % i)) for i, p in enumerate(perm)]
            rg = []
            for i, p in enumerate(perm):
                k, lo, hi = binders[p]
                rg.append('%s:%s' % (ikey(isub(lo, pairs)), ikey(isub(hi, pairs))))
            g = sorted(z3.simplify(bsub(x, pairs)).sexpr() for x in guards)
            at = sorted(self.akey(subst(a, pairs), ()) for a in atoms)
            key = 'S{' + ';'.join(rg) + '}[' + '&'.join(g) + '](' + '*'.join(at) + ')'
            if best is None or key < best:
                best = key
        return best

    def canon_prefix(self, m, scope):
        """all ranges final; choose canonical names"""
        comps, free, fg = self.components(m)
        keys = [self.akey(a, ()) for a in free] + [self.comp_key(*c) for c in comps]
        key = '*'.join(sorted(keys))
        if fg:
            key = '[' + '&'.join(sorted(x.sexpr() for x in fg)) + ']' + key
        return [(key, m)]

    def normal(self, e, binders=(), guards=()):
        """dict key -> Mono"""
        ms = self.expand(e, binders, guards)
        out = {}
        work = []
        for m in ms:
            if m.guards and not m.binders:
                work += self.simplify_sum(m, binders, guards)
            else:
                work.append(m)
        for m in work:
            for x in self.reduce_atoms(m, binders):
                for y in self.split_sum_factors(x, binders):
                    for key, z in self.canon(y, binders):
                        if key in out:
                            out[key] = Mono(out[key].coef + z.coef, z.binders, z.guards, z.atoms)
                        else:
                            out[key] = z
        return {k: m for k, m in out.items() if m.coef != 0}

    def split_sum_factors(self, m, scope):
        # re-simplify guards against full scope after multiplication
        if m.guards and m.binders:
            return self.simplify_sum(m, scope, ())
        return [m]

    def unpoly(self, p):
        """back to E, in canonical order"""
        ts = []
        for k in sorted(p):
            m = p[k]
            body = mul(const(m.coef), *sorted(m.atoms, key=lambda a: self.akey(a, ())))
            for g in m.guards:
                body = E('ite', g, body, ZERO)
            for kk, lo, hi in reversed(m.binders):
                body = E('sum', kk, lo, hi, body)
            ts.append(body)
        return add(*ts)

    # ---- to z3
    def to_z3_poly(self, p, binders=(), guards=()):
        out = z3.RealVal(0)
        for k in sorted(p):
            m = p[k]
            t = z3.RealVal(str(m.coef))
            if m.binders:
                names = {q.decl().name() for q, _, _ in m.binders}
                dep = [a for a in m.atoms if a.fv() & names]
                free = [a for a in m.atoms if not (a.fv() & names)]
                for a in free:
                    t = t * self.atom_z3(a)
                mm = Mono(Fraction(1), m.binders, m.guards, dep)
                t = t * self.sum_z3(mm, binders)
            else:
                for a in m.atoms:
                    t = t * self.atom_z3(a)
                for g in m.guards:
                    t = z3.If(g, t, z3.RealVal(0))
            out = out + t
        return z3.simplify(out)

    def sum_z3(self, m, binders):
        comps, free, fg = self.components(m)
        t = z3.RealVal(1)
        for c in comps:
            r = z3.Real('$' + self.comp_key(*c))
            SUMS[r.decl().name()] = Mono(Fraction(1), *c)
            t = t * r
        for a in free:
            t = t * self.atom_z3(a)
        for g in fg:
            t = z3.If(g, t, z3.RealVal(0))
        return t

    def atom_z3(self, a):
        if a.op == 'v':
            if not a.a[1]:
                return z3.Real(a.a[0])
            f = z3.Function(a.a[0], *([z3.IntSort()] * len(a.a[1]) + [z3.RealSort()]))
            return f(*[I(x) for x in sym_idx(a)])
        if a.op == 'i':
            return z3.ToReal(a.a[0])
        if a.op == 'fn':
            key = '$f:' + self.ekey(a, ())
            r = z3.Real(key)
            if key not in FNS:
                FNS[key] = None
                FNS[key] = (a.a[0], [self.to_z3(x) for x in a.a[1]])
            return r
        if a.op == 'big':
            key = '$f:' + self.ekey(a, ())
            r = z3.Real(key)
            BIGS[key] = a
            return r
        return self.to_z3(a)

    def to_z3(self, e):
        return self.to_z3_poly(self.normal(e))

    def axioms_for(self, *bs):
        """definitions of the function symbols occurring (transitively)"""
        out = []
        seen = set()
        stack = list(bs)
        while stack:
            b = stack.pop()
            for nm in int_vars(b):
                if nm in seen:
                    continue
                seen.add(nm)
                d = FNS.get(nm)
                if d:
                    name, args = d
                    r = z3.Real(nm)
                    ax = fn_axioms(name, r, args)
                    out += ax
                    stack += list(ax)
                elif nm in SUMS:
                    m = SUMS[nm]
                    # sums of squares are nonnegative
                    if is_square(self, m):
                        out.append(z3.Real(nm) >= 0)
        return out


FNS = {}
SUMS = {}
BIGS = {}


def is_square(nz, m):
    cnt = {}
    for a in m.atoms:
        k = nz.akey(a, ())
        cnt[k] = cnt.get(k, 0) + 1
    return not m.guards and all(v % 2 == 0 for v in cnt.values())


def fn_axioms(name, r, args):
    x = args[0]
    if name == 'inv':
        return [z3.Implies(x != 0, r * x == 1)]
    if name == 'sqrt':
        return [z3.Implies(x >= 0, z3.And(r >= 0, r * r == x))]
    if name == 'abs':
        return [r == z3.If(x >= 0, x, -x)]
    if name == 'exp':
        return [r > 0]
    if name == 'max':
        return [r == z3.If(args[0] >= args[1], args[0], args[1])]
    if name == 'min':
        return [r == z3.If(args[0] <= args[1], args[0], args[1])]
    return []


def split_const(x):
    """x = c + base"""
    x = isimp(x)
    if isinstance(x, int):
        return x, 0
    if z3.is_add(x):
        c = 0
        rest = []
        for t in x.children():
            if z3.is_int_value(t):
                c += t.as_long()
            else:
                rest.append(t)
        if c:
            b = rest[0]
            for t in rest[1:]:
                b = b + t
            return c, isimp(b)
    return 0, x


def coeff_of(x, k):
    """x = a*k + b with integer a; returns (a, b) or None"""
    x = isimp(x)
    if isinstance(x, int):
        return 0, x
    if k.decl().name() not in int_vars(x):
        return 0, x
    b = isub(x, [(k, 0)])
    a = isimp(I(isub(x, [(k, 1)])) - I(b))
    if not isinstance(a, int):
        return None
    # linear?
    chk = isimp(I(x) - a * k - I(b))
    if not (isinstance(chk, int) and chk == 0):
        return None
    return a, b


def solve_eq(g, bn):
    """g: Int equality. Find a binder with unit coefficient: (k, expr)."""
    d = isimp(g.arg(0) - g.arg(1))
    if isinstance(d, int):
        return None
    for nm in sorted(int_vars(d) & set(bn)):
        k = bn[nm][0]
        r = coeff_of(d, k)
        if r and r[0] in (1, -1):
            ex = isimp(-I(r[1]) * r[0])
            # the solution may use only outer binders or free variables; a
            # binder whose bounds depend on k is handled by substitution
            return k, ex
    return None


def solve_ineq(g, bn):
    """returns (k, 'lt', e) for k < e or (k, 'ge', e) for k >= e"""
    neg = False
    while z3.is_not(g):
        g = g.arg(0)
        neg = not neg
    if not z3.is_app(g) or g.num_args() != 2 or not z3.is_int(g.arg(0)):
        return None
    kind = g.decl().kind()
    a, b = g.arg(0), g.arg(1)
    if kind == z3.Z3_OP_LE:      # a - b <= 0
        d, strict = a - b, False
    elif kind == z3.Z3_OP_LT:
        d, strict = a - b, True
    elif kind == z3.Z3_OP_GE:
        d, strict = b - a, False
    elif kind == z3.Z3_OP_GT:
        d, strict = b - a, True
    else:
        return None
    # d <= 0 or d < 0 ; negation: d > 0 <=> -d < 0 ; d >= 0 <=> -d <= 0
    if neg:
        d, strict = -d, not strict
    for nm in sorted(int_vars(d) & set(bn)):
        k = bn[nm][0]
        r = coeff_of(d, k)
        if not r or r[0] not in (1, -1):
            continue
        a1, b1 = r
        if a1 == 1:     # k + b1 <= 0 -> k < -b1 + 1 ; strict: k < -b1
            ex = isimp(-I(b1) + (0 if strict else 1))
            return k, 'lt', ex
        else:           # -k + b1 <= 0 -> k >= b1 ; strict: k >= b1+1
            ex = isimp(I(b1) + (1 if strict else 0))
            return k, 'ge', ex
    return None


# --------------------------------------------------------------------------
# equality prover

class ProofResult:
    def __init__(self, ok, how='', detail='', model=None):
        self.ok = ok
        self.how = how
        self.detail = detail
        self.model = model

    def __bool__(self):
        return self.ok


def clear_inv(nz, p):
    """multiply a polynomial (dict) by denominators; returns E or None"""
    dens = {}
    for m in p.values():
        if m.binders:
            bnames = {k.decl().name() for k, _, _ in m.binders}
        else:
            bnames = set()
        c = {}
        for a in m.atoms:
            if a.op == 'fn' and a.a[0] == 'inv' and not (a.fv() & bnames):
                k = nz.akey(a, ())
                c[k] = c.get(k, 0) + 1
                dens.setdefault(k, [a.a[1][0], 0])
        for k, n in c.items():
            dens[k][1] = max(dens[k][1], n)
    if not dens:
        return None
    for k, (q, n) in dens.items():
        if not nz.nonzero(q, (), ()):
            return None
    ts = []
    for m in p.values():
        bnames = {k.decl().name() for k, _, _ in m.binders}
        left = {k: n for k, (q, n) in dens.items()}
        atoms = []
        for a in m.atoms:
            if a.op == 'fn' and a.a[0] == 'inv' and not (a.fv() & bnames):
                left[nz.akey(a, ())] -= 1
            else:
                atoms.append(a)
        body = mul(const(m.coef), *atoms)
        for g in m.guards:
            body = E('ite', g, body, ZERO)
        for kk, lo, hi in reversed(m.binders):
            body = E('sum', kk, lo, hi, body)
        for k, n in left.items():
            for _ in range(n):
                body = mul(body, dens[k][0])
        ts.append(body)
    return add(*ts)


def prove_eq(ctx, a, b, depth=0, facts=()):
    """a == b for all values (reals), under ctx"""
    if facts:
        ctx = ctx.child(facts)
    if ctx.unsat():
        return ProofResult(True, 'vacuous path')
    nz = Normalizer(ctx)
    d = add(const(a), mul(-1, const(b)))
    p = nz.normal(d)
    if not p:
        return ProofResult(True, 'normal form')
    # undecided guards that do not mention bound variables: split
    for m in p.values():
        bn = {k.decl().name() for k, _, _ in m.binders}
        cand = list(m.guards)
        for g in cand:
            if not (int_vars(g) & bn):
                if depth > 6:
                    return ProofResult(False, 'split depth', show(nz.unpoly(p)))
                for x in (g, z3.Not(g)):
                    c2 = ctx.child([x])
                    if c2.unsat():
                        continue
                    a2, b2 = eq_subst(x, a, b)
                    r = prove_eq(c2, a2, b2, depth + 1)
                    if not r:
                        return r
                return ProofResult(True, 'case split')
    # guards on atoms inside function arguments (ite in fn args)
    g = find_ite(nz.unpoly(p))
    if g is not None and depth <= 6:
        for x in (g, z3.Not(g)):
            c2 = ctx.child([x])
            if c2.unsat():
                continue
            a2, b2 = eq_subst(x, a, b)
            r = prove_eq(c2, a2, b2, depth + 1)
            if not r:
                return r
        return ProofResult(True, 'case split')
    # denominators
    for _ in range(6):
        q = clear_inv(nz, p)
        if q is None:
            break
        p = nz.normal(q)
        if not p:
            return ProofResult(True, 'normal form after clearing denominators')
    # abs / sign splits and nonlinear facts: z3
    zz = nz.to_z3_poly(p)
    axs = nz.axioms_for(zz, *ctx.facts)
    if any(nm.startswith('$f:') or nm in SUMS for nm in int_vars(zz)) or ctx.facts:
        r = ctx.check(zz != 0, *axs)
        if r == z3.unsat:
            return ProofResult(True, 'z3')
        if r == z3.sat:
            try:
                md = ctx.last_model
            except Exception:
                md = None
            return ProofResult(False, 'z3 counterexample', 'difference = ' + show(nz.unpoly(p))[:1500], md)
    return ProofResult(False, 'normal forms differ', 'difference = ' + show(nz.unpoly(p))[:1500])


def eq_subst(g, *es):
    """replace a variable by the term an equation equates it with"""
    if z3.is_eq(g) and z3.is_int(g.arg(0)):
        l, r = g.arg(0), g.arg(1)
        for u, v in ((r, l), (l, r)):
            if z3.is_const(u) and u.decl().kind() == z3.Z3_OP_UNINTERPRETED and u.decl().name() not in int_vars(v):
                return [subst(const(e), [(u, v)]) for e in es]
    return es


def find_ite(e):
    if e.op == 'ite':
        return e.a[0]
    if e.op in ('+', '*'):
        for x in e.a[0]:
            r = find_ite(x)
            if r is not None:
                return r
    if e.op == 'fn':
        for x in e.a[1]:
            r = find_ite(x)
            if r is not None:
                return r
    return None


def real(ctx, e):
    """z3 Real for a term, for use in path conditions"""
    return Normalizer(ctx).to_z3(const(e))


def prove_bool(ctx, b):
    """b: z3 Bool possibly mentioning real function symbols"""
    nz = Normalizer(ctx)
    axs = nz.axioms_for(b, *ctx.facts)
    b = z3.simplify(b) if not isinstance(b, bool) else z3.BoolVal(b)
    if z3.is_true(b):
        return ProofResult(True, 'trivial')
    r = ctx.check(z3.Not(b), *axs)
    if r == z3.unsat:
        return ProofResult(True, 'z3')
    if r == z3.sat:
        return ProofResult(False, 'z3 counterexample', str(b)[:600], ctx.last_model)
    # cvc5 as a second back end
    return ProofResult(False, 'z3 unknown', str(b)[:600])
