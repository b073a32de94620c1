"""Symbolic executor for the C++ subset conex is written in.

Executes the clang AST of the real functions.  Paths are explored depth first by
re-execution; loops are summarised by induction (or cut at invariants supplied
by a contract); calls are replaced by the callee's contract when it has one and
executed otherwise.  Doubles are real numbers, machine integers mathematical
integers (conversions to unsigned types wrap)."""
import re
import time
import os
import z3
import cast
from cast import ExtractError
from terms import *
import terms as T
from values import *


class Infeasible(Exception):
    pass


class ReturnExc(Exception):
    def __init__(self, v):
        self.v = v


class BreakExc(Exception):
    pass


class ContinueExc(Exception):
    pass


class CxxThrow(Exception):
    def __init__(self, what=''):
        self.what = what


class LoopCut(Exception):
    """end of a path at a loop invariant"""


class Frame:
    __slots__ = ('env', 'this', 'tu', 'fn', 'loops', 'ret_lv')

    def __init__(self, tu, fn, this=None):
        self.env = {}
        self.this = this
        self.tu = tu
        self.fn = fn
        self.loops = None


class Obl:
    """aggregated result of one named obligation"""
    __slots__ = ('name', 'ok', 'bad', 'fail', 'und', 'detail', 'how', 'kind', 'model')

    def __init__(self, name, kind):
        self.name = name
        self.kind = kind
        self.ok = self.bad = self.fail = self.und = 0
        self.detail = ''
        self.how = {}
        self.model = None

    def clone(self):
        o = Obl(self.name, self.kind)
        o.ok, o.bad, o.fail, o.und, o.detail, o.how, o.model = self.ok, self.bad, self.fail, self.und, self.detail, dict(self.how), self.model
        return o

    @property
    def status(self):
        if self.bad:
            return 'refuted'
        if self.fail:
            return 'failed'
        if self.und:
            return 'undecided'
        return 'discharged'


def strip(n):
    while n['kind'] in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups',
                        'MaterializeTemporaryExpr', 'CXXBindTemporaryExpr',
                        'ConstantExpr', 'CXXStaticCastExpr'):
        n = n['inner'][0]
    return n


def ty(n):
    return cast.qt(n)


def strip_cv(t):
    t = t.strip()
    while True:
        o = t
        for p in ('const ', 'struct ', 'class ', 'typename '):
            if t.startswith(p):
                t = t[len(p):]
        if t.endswith(' const'):
            t = t[:-6]
        t = t.strip()
        if t == o:
            return t


def deref_t(t):
    t = t.strip()
    while t.endswith('&'):
        t = t[:-1].strip()
    return strip_cv(t)


def is_refty(t):
    return t.strip().endswith('&')


def is_ptrty(t):
    t = t.strip()
    if t.endswith('const'):
        t = t[:-5].strip()
    return t.endswith('*')


def targs(t):
    """template arguments of the outermost template"""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:t.rfind('>')]:
        if ch == '<':
            d += 1
        if ch == '>':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


INT_T = {'int', 'long', 'unsigned int', 'unsigned long', 'size_t', 'std::size_t', 'Index',
         'short', 'unsigned short', 'char', 'unsigned char', 'long long', 'unsigned long long',
         'Eigen::Index', 'size_type', 'std::ptrdiff_t', 'ptrdiff_t', 'StorageIndex', 'difference_type',
         'int64_t', 'uint32_t', 'signed char', 'unsigned'}
UNSIGNED = {'unsigned int': 32, 'unsigned long': 64, 'size_t': 64, 'std::size_t': 64, 'size_type': 64,
            'unsigned long long': 64, 'unsigned': 32, 'unsigned char': 8, 'unsigned short': 16}
REAL_T = {'double', 'float', 'Scalar', 'Real', 'RealScalar', 'long double'}

ALIASES = {'Eigen::MatrixXd': 'Eigen::Matrix<double, -1, -1>', 'MatrixXd': 'Eigen::Matrix<double, -1, -1>',
           'DenseMatrix': 'Eigen::Matrix<double, -1, -1>', 'EigenType': 'Eigen::Matrix<double, -1, -1>',
           'Eigen::VectorXd': 'Eigen::Matrix<double, -1, 1>', 'VectorXd': 'Eigen::Matrix<double, -1, 1>',
           'Ref': 'Eigen::Map<Eigen::Matrix<double, -1, -1>, 16>',
           'SchurComplementSystem': 'conex::WorkspaceSchurComplement',
           'Eigen::Vector2d': 'Eigen::Matrix<double, 2, 1>'}


def eigen_dims(t):
    """(rows, cols) template dims of a plain Eigen matrix type; None if not one"""
    t = ALIASES.get(t, t)
    m = re.match(r'^(?:Eigen::)?(Matrix|Array)<', t)
    if not m:
        return None
    a = targs(t)
    try:
        return int(a[1]), int(a[2]), m.group(1) == 'Array'
    except (ValueError, IndexError):
        return None


def is_map_t(t):
    t = ALIASES.get(t, t)
    return re.match(r'^(?:Eigen::)?Map<', t) is not None


def is_block_t(t):
    return re.match(r'^(?:Eigen::)?(Ref|Block|VectorBlock|Transpose|Diagonal|ArrayWrapper|MatrixWrapper|NoAlias)<', t) is not None \
        or t.endswith('BlockXpr') or t in ('ColXpr', 'RowXpr', 'ColsBlockXpr', 'RowsBlockXpr', 'SegmentReturnType') \
        or 'BlockXpr<' in t or 'SegmentReturnType<' in t


def is_expr_t(t):
    return re.match(r'^(?:Eigen::)?(CwiseBinaryOp|CwiseUnaryOp|Product|CwiseNullaryOp|Solve|Inverse)<', t) is not None


def z_apps(t, name):
    """applications of a function symbol in a term"""
    out, seen, st = [], set(), [t]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().name() == name and e.num_args():
                out.append(e)
            st += e.children()
    return out


def int_delta(w, s):
    """w - s, differences taken inside conditionals"""
    if z3.is_expr(w) and z3.is_app_of(w, z3.Z3_OP_ITE):
        c, a, b = w.children()
        return isimp(z3.If(c, I(int_delta(a, s)), I(int_delta(b, s))))
    return isimp(I(w) - I(s))


class Executor:
    MAX_PATHS = 600

    def __init__(self, tus, name=''):
        self.tus = tus
        self.name = name
        self.obls = {}
        self.contracts = {}      # qualname -> python callee contract
        self.opaque_reductions = False   # norms and inner products are arbitrary values
        self.nan_sqrt = False    # comparisons with the square root of a negative number are false
        self.invariants = {}     # (function name, loop ordinal) -> Invariant
        self.used_contracts = set()
        self.executed = set()
        self.paths = 0
        self.mangled = {}
        for tu in tus:
            for l in tu.funcs.values():
                for n in l:
                    if cast.has_body(n):
                        n['_tu'] = tu
                        if n.get('mangledName'):
                            self.mangled.setdefault(n['mangledName'], n)
        self.recs = {}
        for tu in tus:
            for q, n in tu.records.items():
                n.setdefault('_tu', tu)
                if n.get('completeDefinition') or q not in self.recs:
                    self.recs.setdefault(q, n)
                    if '<' in q and '(anonymous namespace)::' in q:
                        self.recs.setdefault(q.replace('(anonymous namespace)::', ''), n)
        self.assumptions = set()
        self.kind_default = 'post'
        self.trace_bounds = True
        self.deadline = None
        self.fork_merge = False

    # ------------------------------------------------------------ paths
    def explore(self, fn):
        """run fn on every path"""
        stack = [[]]
        n0 = self.paths
        saved = {k: o.clone() for k, o in self.obls.items()}
        self.auto_havoc = {}
        while stack:
            if self.deadline and time.time() > self.deadline:
                raise Undecided('time budget exhausted')
            self.prefix = stack.pop()
            self.taken = []
            self.begin()
            self.paths += 1
            if self.paths - n0 > self.MAX_PATHS:
                raise Undecided('too many paths')
            try:
                fn(self)
                self.completed = getattr(self, 'completed', 0) + 1
            except LoopCut:
                self.cut = getattr(self, 'cut', 0) + 1
            except Infeasible:
                pass
            except AutoHavoc as e:
                # a cell the loop changes and the invariant does not know: start again with an arbitrary value for it
                cells = self.auto_havoc.setdefault(e.lid, [])
                if len(cells) > 200:
                    raise Unsupported('loop changes %s' % (e.cells,))
                cells += e.cells
                self.obls = {k: o.clone() for k, o in saved.items()}
                stack = [[]]
                self.paths = n0
                continue
            for d in range(len(self.prefix), len(self.taken)):
                v, both = self.taken[d]
                if both:
                    stack.append([t[0] for t in self.taken[:d]] + [not v])

    def begin(self):
        self.ctx = Ctx()
        self.heap = {}
        self.nloc = 0
        self.frames = []
        self.conds = []
        self.globals = {}
        self.in_summary = 0
        self.opaque_n = 0
        T._fresh = T.Fresh()
        self.outer_replay = False
        self.counters = {}

    def assume(self, b):
        if b is True:
            return
        if b is False:
            raise Infeasible()
        self.ctx.add(b)
        self.conds.append(b)

    def require_feasible(self):
        if self.ctx.check_path() == z3.unsat:
            raise Infeasible()

    def decide(self, c):
        c = bsimp(c)
        if isinstance(c, bool):
            return c
        if not z3.is_bool(c):
            raise Unsupported('condition %r' % (c,))
        if self.quick_entails(c):
            return True
        if self.quick_entails(z3.Not(c)):
            return False
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append((v, False))
        else:
            v = True
            self.taken.append((v, True))
        self.assume(c if v else bsimp(z3.Not(c)))
        return v

    def choose(self, name):
        """nondeterministic choice"""
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append((v, False))
        else:
            v = True
            self.taken.append((v, True))
        return v

    def quick_entails(self, c):
        if isinstance(c, bool):
            return c
        ax = self.real_axioms(c)
        if ax or any(T.quantified(f) for f in self.ctx.facts):
            return self.ctx.check_path(z3.Not(c), *ax) == z3.unsat
        return self.ctx.entails(c)

    def real_axioms(self, *cs):
        nz = Normalizer(self.ctx)
        return nz.axioms_for(*[B(c) for c in cs], *[f for f in self.ctx.facts if has_dollar(f)])

    # ------------------------------------------------------------ obligations
    def obl(self, name, kind):
        o = self.obls.get(name)
        if o is None:
            o = self.obls[name] = Obl(name, kind)
        return o

    abstract = False     # callees abstracted: a failing obligation is undecided, not a violation

    def note(self, o, st, how='', detail='', model=None):
        if self.abstract and st in ('bad', 'fail'):
            st = 'und'
        if st == 'ok':
            o.ok += 1
            o.how[how] = o.how.get(how, 0) + 1
        elif st == 'bad':
            o.bad += 1
            if not o.detail or o.bad == 1:
                o.detail = detail
                o.model = model
        elif st == 'fail':
            if not o.fail and not o.bad:
                o.detail = detail
            o.fail += 1
        else:
            o.und += 1
            if not o.detail:
                o.detail = detail

    def replay(self):
        """executing the common prefix of an earlier path: its obligations are decided"""
        return self.outer_replay or len(self.taken) < len(self.prefix)

    def oblige(self, name, b, kind=None, soft=False):
        if not self.trace_bounds or self.replay():      # trial execution of a loop body
            return
        n = T._fresh.n
        self._oblige(name, b, kind, soft)
        T._fresh.n = n

    def oblige_eq(self, name, a, b, kind=None, rng=None, soft=False):
        if not self.trace_bounds or self.replay():
            return
        n = T._fresh.n
        self._oblige_eq(name, a, b, kind, rng, soft)
        T._fresh.n = n

    def _oblige(self, name, b, kind=None, soft=False):
        """b: bool / z3 Bool must hold on this path"""
        kind = kind or self.kind_default
        o = self.obl(name, kind)
        b = bsimp(b)
        if b is True:
            return self.note(o, 'ok', 'evaluation')
        if self.in_summary and kind == 'bounds':
            pass
        r = prove_bool(self.ctx, b)
        if r:
            self.note(o, 'ok', r.how)
        else:
            if self.ctx.check() == z3.unsat:
                return self.note(o, 'ok', 'infeasible path')
            if r.how == 'z3 counterexample':
                # concrete only if no abstract symbols take part
                conc = not soft and concrete(B(b)) and all(concrete(f) for f in self.ctx.facts)
                self.note(o, 'bad' if conc else 'fail', detail='%s\n  counterexample: %s' % (r.detail, self.show_model(r.model)), model=r.model)
            else:
                self.note(o, 'und', detail='%s: %s' % (r.how, r.detail))

    def show_model(self, m):
        if m is None:
            return ''
        out = []
        for d in m.decls():
            if d.arity() == 0 and not d.name().startswith('$'):
                out.append('%s=%s' % (d.name(), m[d]))
        return ', '.join(sorted(out))[:800]

    def _oblige_eq(self, name, a, b, kind=None, rng=None, soft=False):
        """structural equality of two values"""
        kind = kind or self.kind_default
        if isinstance(a, Mat) and isinstance(b, Mat):
            self.oblige(name + ' [dims]', land(cmpi('==', a.rows, b.rows), cmpi('==', a.cols, b.cols)), kind, soft)
            i, j = z3.Int('?i'), z3.Int('?j')
            facts = [0 <= i, i < I(a.rows), 0 <= j, j < I(a.cols)]
            ii = 0 if a.rows == 1 and isinstance(a.rows, int) else i
            jj = 0 if a.cols == 1 and isinstance(a.cols, int) else j
            if rng is not None:
                facts.append(rng(ii, jj))
            return self.eq_scalar(name, a.at(ii, jj), b.at(ii, jj), kind, facts, soft)
        if isinstance(a, Vec) and isinstance(b, Vec):
            self.oblige(name + ' [size]', cmpi('==', a.n, b.n), kind, soft)
            k = z3.Int('?k')
            x, y = a.at(k), b.at(k)
            if isinstance(x, Mat):
                self.oblige(name + ' [dims]', self.imp([0 <= k, k < I(a.n)], land(cmpi('==', x.rows, y.rows), cmpi('==', x.cols, y.cols))), kind, soft)
                i, j = z3.Int('?i'), z3.Int('?j')
                facts = [0 <= k, k < I(a.n), 0 <= i, i < I(x.rows), 0 <= j, j < I(x.cols)]
                return self.eq_scalar(name, x.at(i, j), y.at(i, j), kind, facts, soft)
            return self.eq_scalar(name, x, y, kind, [0 <= k, k < I(a.n)], soft)
        if isinstance(a, Struct) and isinstance(b, Struct):
            for f in a.fs:
                self.oblige_eq('%s.%s' % (name, f), a.fs[f], b.fs[f], kind, soft=soft)
            return
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            same = (a.lv is None and b.lv is None) or (a.lv is not None and b.lv is not None and a.lv.key() == b.lv.key())
            if same:
                return self.oblige(name, True, kind)
            if a.lv is not None and b.lv is not None and a.lv.loc == b.lv.loc and len(a.lv.path) == len(b.lv.path):
                cs = []
                for p, q in zip(a.lv.path, b.lv.path):
                    if p[0] != q[0]:
                        return self.oblige(name, False, kind, soft)
                    for x, y in zip(p[1:], q[1:]):
                        if is_int(x):
                            cs.append(cmpi('==', x, y))
                        elif x != y:
                            cs.append(False)
                return self.oblige(name, land(*cs), kind, soft)
            return self.oblige(name, False, kind, soft)
        if isinstance(a, Opaque) and isinstance(b, Opaque):
            return
        if isinstance(a, Uninit) and isinstance(b, Uninit):
            return
        return self.eq_scalar(name, a, b, kind, [], soft)

    def imp(self, facts, b):
        if isinstance(b, bool):
            return True if b else bsimp(z3.Not(z3.And(*facts)))
        return bsimp(z3.Implies(z3.And(*facts), b))

    def eq_scalar(self, name, x, y, kind, facts, soft=False):
        o = self.obl(name, kind)
        if isinstance(x, Uninit) or isinstance(y, Uninit):
            return self.note(o, 'fail' if soft else 'bad', detail='reads an uninitialised value')
        if is_bool(x) and is_bool(y):
            return self.oblige(name, self.imp(facts, B(x) == B(y)) if facts else bsimp(B(x) == B(y)), kind, soft)
        if is_int(x) and is_int(y):
            e = cmpi('==', x, y)
            return self.oblige(name, self.imp(facts, e) if facts else e, kind, soft)
        if isinstance(x, (Mat, Vec, Struct)):
            raise Unsupported('nested comparison')
        ctx = self.ctx.child(facts) if facts else self.ctx
        r = prove_eq(ctx, x, y)
        if r:
            return self.note(o, 'ok', r.how)
        w = None if soft else self.witness(ctx, x, y)
        if w:
            self.note(o, 'bad', detail='%s (%s)\n  witness: %s' % (r.how, r.detail[:600], w))
        else:
            self.note(o, 'fail' if r.how in ('z3 counterexample', 'normal forms differ') else 'und',
                      detail='%s: %s' % (r.how, r.detail[:1200]))

    def witness(self, ctx, x, y):
        """a concrete point satisfying the path facts where x != y"""
        x, y = const(x), const(y)
        syms = set()
        for f in ctx.facts:
            syms |= int_vars(f)
        ifacts = [f for f in ctx.facts if not z3.is_quantifier(f) and only_int(f)]
        rfacts = [f for f in ctx.facts if not z3.is_quantifier(f) and not only_int(f)]
        s = z3.Solver()
        s.set('timeout', 1500)
        s.add(ifacts)
        names = sorted({nm for e in (x, y) for nm in e.fv() if not nm.startswith('$')} |
                       {nm for f in ifacts for nm in int_vars(f)})
        consts = [z3.Int(nm) for nm in names]
        tried = 0
        for attempt in range(10):
            s.push()
            for c in consts:
                s.add(c <= 6, c >= -6)
            if s.check() != z3.sat:
                s.pop()
                return None
            m = s.model()
            s.pop()
            ints = {c.decl().name(): m.eval(c, model_completion=True).as_long() for c in consts}
            block = z3.Or(*[c != ints[c.decl().name()] for c in consts]) if consts else z3.BoolVal(False)
            for seed in range(12):
                nm = Num(ints, seed + 100 * attempt)
                try:
                    if not all(nm.bool(f, {}) for f in rfacts):
                        continue
                    p, q = nm.ev(x, {}), nm.ev(y, {})
                except EvalError:
                    continue
                tried += 1
                if abs(p - q) > 1e-6 * (1 + abs(p) + abs(q)):
                    used = ', '.join('%s%s=%s' % (k[0], list(k[1]), v) for k, v in list(nm.used.items())[:30])
                    return 'sizes/indices %s; values %s; got %.9g, expected %.9g' % (ints, used, p, q)
            s.add(block)
            # larger sizes in later attempts
            if attempt == 2:
                s2 = [c >= 2 for c in consts if not c.decl().name().startswith('?')]
        return None

    def bounds(self, what, b):
        if not self.trace_bounds:
            return
        b = bsimp(b)
        if b is True:
            self.bounds_ok = getattr(self, 'bounds_ok', 0) + 1
            return
        fn = self.frames[-1].fn.get('name', '?') if self.frames else '?'
        self.oblige('%s: %s in bounds' % (fn, what), b, 'bounds')
        # continue under the assumption that the access is valid
        if self.ctx.check(B(b)) == z3.unsat:
            raise Infeasible()
        self.ctx.add(B(b))

    # ------------------------------------------------------------ heap
    def new(self, v, hint=''):
        self.nloc += 1
        loc = '%s#%d' % (hint, self.nloc)
        self.heap[loc] = v
        return LV(loc)

    def load(self, x):
        if isinstance(x, LV):
            if x.loc not in self.heap:
                raise Unsupported('dangling location')
            v = self.heap[x.loc]
            for p in x.path:
                v = self.proj(v, p)
            return v
        return x

    def rv(self, x):
        v = self.load(x)
        if isinstance(v, MapVal):
            v = self.load(self.map_lv(v))
        return v

    def map_lv(self, v):
        p = v.lv.path
        if p and p[-1][0] == 'at' and not self.holds_matrices(LV(v.lv.loc, p[:-1])):
            return LV(v.lv.loc, p[:-1] + (('map', v.rows, v.cols, p[-1][1]),), v.lv.noalias)
        return v.lv / ('map', v.rows, v.cols)

    def holds_matrices(self, lv):
        a = self.load(lv)
        return isinstance(a, Vec) and 'Matrix' in (a.et or '')

    def proj(self, v, p):
        k = p[0]
        if isinstance(v, MapVal) and k != 'f':
            v = self.load(self.map_lv(v))
        if k == 'f':
            if not isinstance(v, Struct):
                raise Unsupported('field %s of %r' % (p[1], v))
            if p[1] not in v.fs:
                raise Unsupported('no field %s in %s' % (p[1], v.t))
            return v.fs[p[1]]
        if k == 'at':
            if isinstance(v, Vec):
                return v.at(p[1])
            raise Unsupported('element of %r' % (v,))
        if not isinstance(v, Mat):
            if k in ('map', 'lin') and isinstance(v, Vec):
                return self.vecmap(v, p)
            if isinstance(v, (E, int)) and k == 'el':
                return const(v)
            if isinstance(v, Uninit):
                raise Unsupported('uninitialised matrix')
            raise Unsupported('%s of %r' % (k, v))
        d = {(l, 'perm') for l, _ in v.deps}
        if k == 'el':
            return v.at(p[1], p[2])
        if k == 'blk':
            r0, c0, r, c = p[1:]
            pr = None
            if v.pair and len(v.pair) == 3 and ikey(r0) == '0' and ikey(r) == ikey(v.rows):
                g = v.pair[2]
                pr = (v.pair[0], v.pair[1], lambda a, b, j: g(a, b, iadd(j, c0)))
            return Mat(r, c, lambda i, j: v.at(iadd(i, r0), iadd(j, c0)), v.arr, v.deps, pr)
        if k == 'T':
            pr = None
            if v.pair:
                pr = v.pair[:3] if len(v.pair) == 4 else v.pair + ('T',)
            return Mat(v.cols, v.rows, lambda i, j: v.at(j, i), v.arr, {(l, 'perm') for l, _ in v.deps}, pr)
        if k == 'diag':
            n = self.imin(v.rows, v.cols)
            return Mat(n, 1, lambda i, j: v.at(i, i), v.arr, d)
        if k == 'rs':
            return self.reshape(v, p[1], p[2])
        if k == 'arr':
            return v.copy(arr=p[1])
        if k == 'map':
            return self.reshape(v, p[1], p[2])
        if k == 'lin':
            if ikey(p[1]) == '0':
                return v.at(0, 0)
            return self.reshape(v, v.size(), 1).at(p[1], 0)
        raise Unsupported('path %s' % (k,))

    def vecmap(self, v, p):
        if p[0] == 'map':
            r, c = p[1], p[2]
            off = p[3] if len(p) > 3 else 0
            return Mat(r, c, lambda i, j: const(v.at(iadd(iadd(i, imul(j, r)), off))))
        raise Unsupported('vecmap')

    def imin(self, a, b):
        if ikey(a) == ikey(b):
            return isimp(a)
        if self.ctx.entails(B(cmpi('<=', a, b))):
            return isimp(a)
        if self.ctx.entails(B(cmpi('<=', b, a))):
            return isimp(b)
        return vite(cmpi('<=', a, b), a, b)

    def same(self, a, b):
        return ikey(a) == ikey(b) or self.ctx.entails(B(cmpi('==', a, b)))

    def reshape(self, v, r, c):
        if self.same(v.rows, r) and self.same(v.cols, c):
            return v
        if self.same(c, 1) and self.same(imul(v.rows, v.cols), r):
            # vec(v)
            n, m = v.rows, v.cols
            if is_one(m):
                return Mat(r, 1, lambda i, j: v.at(i, 0), v.arr, v.deps)
            if is_one(n):
                return Mat(r, 1, lambda i, j: v.at(0, i), v.arr, v.deps)
            def f(i, j):
                if isinstance(n, int) and isinstance(i, int):
                    return v.at(i % n, i // n)
                return v.at(isimp(I(i) % I(n)), isimp(I(i) / I(n)))
            return Mat(r, 1, f, v.arr, v.deps, pair=(n, m, lambda a, b, j: v.at(a, b)))
        if is_one(v.cols) and v.pair and len(v.pair) == 3 and self.same(r, v.pair[0]) and self.same(c, v.pair[1]):
            g = v.pair[2]
            return Mat(r, c, lambda i, j: g(i, j, 0), v.arr, v.deps)
        if is_one(v.cols):
            return Mat(r, c, lambda i, j: v.at(iadd(i, imul(j, r)), 0), v.arr, v.deps)
        raise Unsupported('reshape')

    def store(self, lv, val):
        if not isinstance(lv, LV):
            raise Unsupported('store to %r' % (lv,))
        if lv.loc not in self.heap:
            raise Unsupported('store to dangling location')
        self.heap[lv.loc] = self.upd(self.heap[lv.loc], lv.path, val)

    def upd(self, v, path, val):
        if not path:
            if isinstance(v, MapVal) and isinstance(val, Mat):
                self.store(self.map_lv(v), val)
                return v
            return val
        p = path[0]
        k = p[0]
        rest = path[1:]
        if isinstance(v, MapVal) and k != 'f':
            self.store(LV(v.lv.loc, v.lv.path + (('map', v.rows, v.cols),) + tuple(path)), val)
            return v
        if k == 'f':
            if not isinstance(v, Struct):
                raise Unsupported('field store in %r' % (v,))
            return v.set(p[1], self.upd(v.fs.get(p[1], Uninit()), rest, val))
        if k == 'at':
            if not isinstance(v, Vec):
                raise Unsupported('element store in %r' % (v,))
            idx = p[1]
            old = v
            nv = self.upd(v.at(idx), rest, val)
            mod = (v, idx, nv)
            app = (v.app[0], nv) if v.app is not None and ikey(isubt(v.n, 1)) == ikey(idx) else None
            return Vec(v.n, lambda t: vite(cmpi('==', t, idx), nv, old.at(t)), v.et, app=app, mod=mod)
        if isinstance(v, Vec) and k == 'map':
            r, c = p[1], p[2]
            sub = self.vecmap(v, p)
            ns = self.upd(sub, rest, val)
            ln = imul(r, c)
            off = p[3] if len(p) > 3 else 0
            old = v
            if is_one(c) or is_one(r):
                e = (lambda q: ns.at(q, 0)) if is_one(c) else (lambda q: ns.at(0, q))
                return Vec(v.n, lambda t: vite(land(cmpi('>=', t, off), cmpi('<', t, iadd(off, ln))), e(isubt(t, off)), old.at(t)), v.et)
            # column-major: element q is entry (q mod r, q div r)
            e = lambda q: ns.at(isimp(I(q) % I(r)), isimp(I(q) / I(r)))
            return Vec(v.n, lambda t: vite(land(cmpi('>=', t, off), cmpi('<', t, iadd(off, ln))), e(isubt(t, off)), old.at(t)), v.et)
        if not isinstance(v, Mat):
            if isinstance(v, Uninit) and k == 'el':
                raise Unsupported('store to uninitialised matrix')
            raise Unsupported('%s store in %r' % (k, v))
        old = v
        if k == 'el' and not rest:
            i0, j0 = p[1], p[2]
            e = const(val)
            f = lambda i, j: T.ite(land(cmpi('==', i, i0), cmpi('==', j, j0)), e, old.at(i, j))
            return Mat(v.rows, v.cols, f, v.arr, pair=self.upd_pair(v, ('el', i0, j0, e)))
        sub = self.proj(v, p)
        ns = self.upd(sub, rest, val)
        if not isinstance(ns, Mat):
            raise Unsupported('matrix store of %r' % (ns,))
        if k == 'blk':
            r0, c0, r, c = p[1:]
            def f(i, j):
                g = land(cmpi('>=', i, r0), cmpi('<', i, iadd(r0, r)), cmpi('>=', j, c0), cmpi('<', j, iadd(c0, c)))
                g = self.simp_ctx(g)
                if g is False:
                    return old.at(i, j)
                return T.ite(g, ns.at(isubt(i, r0), isubt(j, c0)), old.at(i, j))
            pr = None
            if ns.pair and len(ns.pair) == 3 and ikey(r0) == '0' and ikey(r) == ikey(v.rows):
                gp, op = ns.pair[2], v.pair if v.pair and len(v.pair) == 3 else None
                def pf(a, b, j):
                    g = land(cmpi('>=', j, c0), cmpi('<', j, iadd(c0, c)))
                    o = op[2](a, b, j) if op else old.at(iadd(a, imul(b, ns.pair[0])), j)
                    return T.ite(g, gp(a, b, isubt(j, c0)), o)
                pr = (ns.pair[0], ns.pair[1], pf)
            return Mat(v.rows, v.cols, f, v.arr, pair=pr)
        if k == 'T':
            return Mat(ns.cols, ns.rows, lambda i, j: ns.at(j, i), v.arr)
        if k == 'diag':
            return Mat(v.rows, v.cols, lambda i, j: T.ite(cmpi('==', i, j), ns.at(i, 0), old.at(i, j)), v.arr)
        if k == 'arr':
            return ns.copy(arr=v.arr)
        if k in ('rs', 'map'):
            return self.reshape(ns, v.rows, v.cols)
        if k == 'lin' and not rest:
            raise Unsupported('store through raw pointer into matrix')
        raise Unsupported('store path %s' % (k,))

    def upd_pair(self, v, w):
        return None

    def simp_ctx(self, g):
        if isinstance(g, bool):
            return g
        return g

    # ------------------------------------------------------------ types, fresh values
    def find_rec(self, t):
        t = strip_cv(deref_t(t)).replace('(anonymous namespace)::', '')
        t = ALIASES.get(t, t)
        r = self.recs.get(t)
        if r is not None:
            return r
        base = t
        cands = [q for q in self.recs if q.endswith('::' + base)]
        cands = [q for q in cands if self.recs[q].get('completeDefinition')] or cands
        if len(cands) >= 1:
            cands.sort(key=len)
            return self.recs[cands[0]]
        if '<' in t:
            # template specialisations: normalise spaces and qualifiers
            key = norm_t(t)
            for q in self.recs:
                if norm_t(q) == key or norm_t(q).endswith(key):
                    return self.recs[q]
            # default template arguments
            if 'MatrixAlgebra<8>' in t:
                return self.find_rec(t.replace('MatrixAlgebra<8>', 'MatrixAlgebra<>'))
            if 'HermitianPsdConstraint<>' in t:
                return self.find_rec(t.replace('HermitianPsdConstraint<>', 'HermitianPsdConstraint<conex::MatrixAlgebra<1>>'))
        return None

    def rec_fields(self, rec):
        """[(name, type, node)] including bases"""
        out = []
        for b in rec.get('bases', []) or []:
            br = self.find_rec(b['type'].get('desugaredQualType') or b['type']['qualType'])
            if br is not None:
                out += self.rec_fields(br)
        for c in rec.get('inner', []) or []:
            if c.get('kind') == 'FieldDecl':
                out.append((c.get('name'), ty(c), c))
        return out

    def fresh_real(self, name):
        return var(name)

    def mat(self, name, rows, cols):
        one = is_one(cols)
        if one:
            return Mat(rows, cols, lambda i, j: var(name, i))
        return Mat(rows, cols, lambda i, j: var(name, i, j))

    def vec(self, name, n):
        return self.mat(name, n, 1)

    def int(self, name, lo=None, hi=None):
        x = z3.Int(name)
        if lo is not None:
            self.assume(x >= I(lo))
        if hi is not None:
            self.assume(x <= I(hi))
        return x

    def real(self, name):
        return var(name)

    def bool(self, name):
        return z3.Bool(name)

    def ivec(self, name, n):
        f = z3.Function(name, z3.IntSort(), z3.IntSort())
        return Vec(n, lambda k: f(I(k)), 'int')

    def fresh_of(self, t, name):
        """arbitrary value of a C++ type"""
        t = strip_cv(deref_t(t))
        t = ALIASES.get(t, t)
        if t == 'bool':
            return z3.Bool(name)
        if t in INT_T:
            return z3.Int(name)
        if t in REAL_T:
            return var(name)
        if is_ptrty(t):
            return Uninit(name)
        d = eigen_dims(t)
        if d is not None:
            r = d[0] if d[0] >= 0 else self.int(name + '.rows', 0)
            c = d[1] if d[1] >= 0 else self.int(name + '.cols', 0)
            return self.mat(name, r, c)
        if is_map_t(t):
            inner = eigen_dims(strip_cv(targs(t)[0]))
            r = inner[0] if inner and inner[0] >= 0 else self.int(name + '.rows', 0)
            c = inner[1] if inner and inner[1] >= 0 else self.int(name + '.cols', 0)
            return self.mat(name, r, c)
        m = re.match(r'^(?:std::)?vector<', t)
        if m:
            et = strip_cv(targs(t)[0])
            n = self.int(name + '.size', 0)
            if et in INT_T:
                return self.ivec(name, n)
            if et in REAL_T:
                return Vec(n, lambda k: var(name, k), et)
            if re.match(r'^(?:std::)?vector<(?:int|long|unsigned long)>$', et):
                ln = z3.Function(name + '.size', z3.IntSort(), z3.IntSort())
                el = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.IntSort())
                k = z3.Int('?k')
                self.ctx.add(z3.ForAll([k], ln(k) >= 0))
                return Vec(n, lambda k: Vec(isimp(ln(I(k))), lambda j: isimp(el(I(k), I(j))), 'int'), et)
            return Uninit(name)
        if t.startswith('std::unique_ptr') or t.startswith('std::function') or t.startswith('std::'):
            return Uninit(name)
        rec = self.find_rec(t)
        if rec is not None:
            return Struct(rec['qual'], {f: self.fresh_of(ft, name + '.' + f) for f, ft, _ in self.rec_fields(rec)})
        return Uninit(name)

    def default_of(self, t, name, ctor_args=None):
        """value of a default-initialised variable"""
        t = strip_cv(deref_t(t))
        t = ALIASES.get(t, t)
        if t in INT_T or t in REAL_T or t == 'bool' or is_ptrty(t):
            return Uninit(name)
        d = eigen_dims(t)
        if d is not None:
            nm = fresh_name('uninit_' + name)
            return self.mat(nm, max(d[0], 0) if d[0] >= 0 else 0, d[1] if d[1] >= 0 else 0)
        if re.match(r'^(?:std::)?(vector|stack)<', t):
            return Vec(0, lambda k: Uninit(), strip_cv(targs(t)[0]))
        m = re.match(r'^(?:std::)?array<', t)
        if m:
            a = targs(t)
            et = strip_cv(a[0])
            return Vec(int(re.sub(r'[a-zA-Z]', '', a[1])), lambda k: self.default_of(et, name), et)
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        if m:
            et = m.group(1).strip()
            return Vec(int(m.group(2)), lambda k: self.default_of(et, name), et)
        if t.startswith('std::unique_ptr'):
            return Ptr(None)
        if t.startswith('std::pair'):
            a = targs(t)
            return Struct('std::pair', {'first': self.default_of(a[0], name), 'second': self.default_of(a[1], name)})
        if t.startswith('std::') or 'basic_string' in t:
            return Opaque(t)
        rec = self.find_rec(t)
        if rec is not None:
            return self.construct(rec, [], None)
        return Uninit(name)

    # ------------------------------------------------------------ constructors
    def construct(self, rec, args, ctor_type, argnodes=None):
        """args: already evaluated (LV or values); returns Struct"""
        ctors = [c for c in self.all_ctors(rec)]
        cand = None
        if ctor_type is not None:
            for c in ctors:
                if cast.sig(c) == ctor_type or (c.get('type', {}).get('desugaredQualType') == ctor_type):
                    cand = c
                    if cast.has_body(c):
                        break
            if cand is not None and not cast.has_body(cand):
                cand = self.resolve(cand) or cand
        # copy / move
        et = self.vec_base(rec)
        if len(args) == 1:
            v = self.load(args[0])
            if et is not None and isinstance(v, Vec) and (cand is None or not cast.has_body(cand) or cand.get('isImplicit')):
                return Vec(v.n, v.f, et)
            if isinstance(v, Struct) and (v.t == rec['qual'] or self.derives(v.t, rec['qual'])) and \
                    (cand is None or not cast.has_body(cand)):
                if v.t == rec['qual']:
                    return v
                return Struct(rec['qual'], {f: v.fs[f] for f, _, _ in self.rec_fields(rec) if f in v.fs})
        lv = self.new(Struct(rec['qual'], {f: Uninit(f) for f, _, _ in self.rec_fields(rec)}) if et is None else
                      Vec(0, lambda k: Uninit(), et), rec.get('name', 'obj'))
        if cand is not None and cast.has_body(cand):
            self.run_ctor(cand, lv, args, rec)
        elif not args:
            # implicit default constructor
            if et is None:
                self.default_fields(rec, lv)
        else:
            raise Unsupported('constructor of %s (%s)' % (rec['qual'], ctor_type))
        v = self.load(lv)
        return v

    def vec_base(self, rec):
        """element type of a class that only extends std::vector"""
        for b in rec.get('bases', []) or []:
            bt = b['type'].get('desugaredQualType') or b['type']['qualType']
            if re.match(r'^(?:std::)?vector<', bt) and not self.rec_fields(rec):
                return strip_cv(targs(bt)[0])
        return None

    def derives(self, a, b):
        ra = self.recs.get(a)
        if ra is None:
            return False
        for x in ra.get('bases', []) or []:
            br = self.find_rec(x['type'].get('desugaredQualType') or x['type']['qualType'])
            if br is not None and (br['qual'] == b or self.derives(br['qual'], b)):
                return True
        return False

    def all_ctors(self, rec):
        out = []
        for c in rec.get('inner', []) or []:
            if c.get('kind') == 'CXXConstructorDecl':
                out.append(c)
            if c.get('kind') == 'FunctionTemplateDecl':
                for d in c.get('inner', []):
                    if d.get('kind') == 'CXXConstructorDecl' and not d.get('pattern'):
                        out.append(d)
        return out

    def default_fields(self, rec, lv, done=()):
        tu = rec['_tu']
        for b in rec.get('bases', []) or []:
            br = self.find_rec(b['type'].get('desugaredQualType') or b['type']['qualType'])
            if br is not None:
                self.default_fields(br, lv, done)
        for c in rec.get('inner', []) or []:
            if c.get('kind') == 'FieldDecl' and c.get('name') not in done:
                init = [x for x in c.get('inner', []) if 'kind' in x and x['kind'].endswith(('Expr', 'Literal', 'Operator', 'ExprWithCleanups'))]
                if init:
                    fr = Frame(tu, c, lv)
                    self.frames.append(fr)
                    try:
                        v = self.rv_init(init[0], ty(c))
                    finally:
                        self.frames.pop()
                else:
                    v = self.default_of(ty(c), c.get('name'))
                self.store(lv / ('f', c['name']), v)

    def run_ctor(self, c, lv, args, rec):
        c = self.resolve(c) or c
        tu = c.get('_tu') or rec['_tu']
        self.mark(c)
        fr = Frame(tu, c, lv)
        self.frames.append(fr)
        try:
            self.bind_params(c, args, fr)
            done = set()
            inits = [x for x in c.get('inner', []) if x.get('kind') == 'CXXCtorInitializer']
            dele = [x for x in inits if 'delegatingInit' in x]
            if dele:
                ce = strip_to_ctor(dele[0]['inner'][0])
                a = [self.ev(x) for x in ce.get('inner', [])]
                self.run_ctor_on(rec, a, ce['ctorType'].get('desugaredQualType') or ce['ctorType']['qualType'], lv)
            else:
                for x in inits:
                    if 'baseInit' in x:
                        br = self.find_rec(x['baseInit'].get('desugaredQualType') or x['baseInit']['qualType'])
                        if br is None:
                            bt = x['baseInit'].get('desugaredQualType') or x['baseInit']['qualType']
                            if re.match(r'^(?:std::)?vector<', bt):
                                import stdmodel
                                ce = strip_to_ctor(x['inner'][0])
                                self.store(lv, stdmodel.construct(self, ce, bt, [self.ev(y) for y in (ce or {}).get('inner', [])]))
                            continue
                        ce = strip_to_ctor(x['inner'][0])
                        if ce is None:
                            raise Unsupported('base initialiser')
                        a = [self.ev(y) for y in ce.get('inner', [])]
                        self.run_ctor_on(br, a, ce['ctorType']['qualType'], lv)
                    elif 'anyInit' in x:
                        nm = x['anyInit']['name']
                        ft = cast.qt(x['anyInit'])
                        node = x['inner'][0]
                        if node['kind'] == 'CXXDefaultInitExpr':
                            fld = [c2 for c2 in rec.get('inner', []) if c2.get('kind') == 'FieldDecl' and c2.get('name') == nm]
                            init = [y for y in fld[0].get('inner', []) if 'kind' in y and y['kind'].endswith(('Expr', 'Literal', 'Operator', 'ExprWithCleanups'))]
                            if not init:
                                raise Unsupported('default member initialiser of %s::%s' % (rec.get('qual'), nm))
                            v = self.rv_init(init[0], ft)
                        elif is_refty(ft):
                            v = Ptr(self.as_lv(self.ev(node)))
                        else:
                            v = self.rv_init(node, ft)
                        self.store(lv / ('f', nm), v)
                        done.add(nm)
                # fields without initialiser stay uninitialised
                for f, ft, node in [(c2.get('name'), ty(c2), c2) for c2 in rec.get('inner', []) if c2.get('kind') == 'FieldDecl']:
                    if f not in done:
                        init = [y for y in node.get('inner', []) if 'kind' in y and y['kind'].endswith(('Expr', 'Literal', 'Operator', 'ExprWithCleanups'))]
                        v = self.rv_init(init[0], ft) if init else self.default_of(ft, f)
                        self.store(lv / ('f', f), v)
            try:
                self.stmt(cast.body(c))
            except ReturnExc:
                pass
        finally:
            self.frames.pop()

    def run_ctor_on(self, rec, args, ctor_type, lv):
        for c in self.all_ctors(rec):
            if cast.sig(c) == ctor_type or c.get('type', {}).get('desugaredQualType') == ctor_type:
                c2 = self.resolve(c) or c
                if cast.has_body(c2):
                    return self.run_ctor(c2, lv, args, rec)
        if not args:
            return self.default_fields(rec, lv)
        v = self.load(args[0])
        if len(args) == 1 and isinstance(v, Struct):
            for f, _, _ in self.rec_fields(rec):
                if f in v.fs:
                    self.store(lv / ('f', f), v.fs[f])
            return
        raise Unsupported('constructor %s of %s' % (ctor_type, rec['qual']))

    # ------------------------------------------------------------ calls
    def mark(self, fn):
        q = fn.get('qualname') or fn.get('name')
        if q:
            self.executed.add(q)

    def resolve(self, fn):
        """definition of a declaration, in any loaded translation unit"""
        if cast.has_body(fn):
            return fn
        tu = fn.get('_tu')
        for t in ([tu] if tu else []) + self.tus:
            d = t.defs.get(fn.get('id')) if t.by_id.get(fn.get('id')) is fn else None
            if d is not None:
                d['_tu'] = t
                return d
        m = fn.get('mangledName')
        if m and m in self.mangled:
            return self.mangled[m]
        return None

    def lookup(self, fid):
        tu = self.frames[-1].tu
        d = tu.defs.get(fid)
        if d is not None:
            d['_tu'] = tu
            return d
        n = tu.by_id.get(fid)
        if n is None or n.get('kind') not in cast.FUNCS:
            return None
        m = n.get('mangledName')
        if m and m in self.mangled:
            return self.mangled[m]
        return n

    def pattern_default(self, fn, i):
        """default argument written in the template an instance comes from"""
        for tu in self.tus:
            for f in tu.funcs.get(fn.get('qualname'), []):
                ps = cast.params(f)
                if i < len(ps):
                    init = [x for x in ps[i].get('inner', []) if 'kind' in x and x['kind'].endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                    if init:
                        return init
        return []

    def bind_params(self, fn, args, fr):
        ps = cast.params(fn)
        for i, p in enumerate(ps):
            t = ty(p)
            if i < len(args):
                a = args[i]
            else:
                init = [x for x in p.get('inner', []) if 'kind' in x and x['kind'].endswith(('Expr', 'Literal', 'Operator', 'ExprWithCleanups'))]
                if not init:
                    init = self.pattern_default(fn, i)
                if not init:
                    raise Unsupported('missing argument %s' % p.get('name'))
                a = self.ev(init[0])
            fr.env[p['id']] = self.bind(t, a, p.get('name', 'arg'))

    def bind(self, t, a, name):
        """LV for a variable of type t initialised with a"""
        if is_refty(t):
            if isinstance(a, LV):
                v = self.load(a)
                if isinstance(v, MapVal):
                    return a
                return a
            return self.new(a, name)
        v = self.load(a)
        if isinstance(v, MapVal):
            return self.new(v, name) if is_map_t(strip_cv(t)) else self.new(self.rv(v), name)
        if isinstance(a, LV) and (is_map_t(ALIASES.get(strip_cv(t), strip_cv(t))) or is_block_t(strip_cv(t))) and isinstance(v, Mat):
            # copying a view aliases the same memory
            return a
        if isinstance(v, Mat):
            v = v.copy(deps=frozenset())
            d = eigen_dims(strip_cv(t))
            if d:
                v = self.to_plain(v, d)
        return self.new(self.coerce(v, t), name)

    def to_plain(self, v, d):
        if v.diagw:
            x = v
            v = Mat(x.rows, x.rows, lambda i, j: T.ite(cmpi('==', i, j), x.vat(i), ZERO))
        if d[1] == 1 and not is_one(v.cols) and is_one(v.rows):
            x = v
            v = Mat(x.cols, 1, lambda i, j: x.at(0, i))
        elif d[0] == 1 and not is_one(v.rows) and is_one(v.cols):
            x = v
            v = Mat(1, x.rows, lambda i, j: x.at(j, 0))
        r = d[0] if d[0] >= 0 else v.rows
        c = d[1] if d[1] >= 0 else v.cols
        if d[1] == 1 and not is_one(v.cols):
            self.bounds('conversion to a vector', cmpi('==', v.cols, 1))
        return Mat(r, c, v.f, d[2], (), v.pair if (ikey(r), ikey(c)) == (ikey(v.rows), ikey(v.cols)) else None)

    def coerce(self, v, t):
        t = strip_cv(t)
        if t in REAL_T and is_int(v):
            return toreal(v)
        if t == 'bool' and is_int(v):
            return cmpi('!=', v, 0)
        if t in INT_T and is_bool(v):
            return isimp(z3.If(B(v), I(1), I(0)))
        return v

    def call(self, fn, this=None, args=(), virtual=True):
        """fn: definition node; this: LV or None; args: list of LV/values"""
        d = self.resolve(fn)
        q = (d or fn).get('qualname') or fn.get('name')
        if virtual and this is not None and (fn.get('virtual') or self.is_virtual(fn)):
            o = self.load(this)
            if isinstance(o, Struct):
                alt = self.override(o.t, fn)
                if alt is not None:
                    d = alt
                    q = d.get('qualname')
        cs = self.contract_for(q, d or fn)
        if cs is not None:
            self.used_contracts.add(q)
            r = cs(self, this, list(args))
            if r is not NotImplemented:
                return r
        if d is None:
            raise Unsupported('no definition of %s' % q)
        if len(self.frames) > 60:
            raise Unsupported('recursion in %s' % q)
        self.mark(d)
        fr = Frame(d.get('_tu') or self.frames[-1].tu, d, this)
        self.bind_params(d, args, fr)
        self.frames.append(fr)
        try:
            self.stmt(cast.body(d))
            r = None
        except ReturnExc as e:
            r = e.v
        finally:
            self.frames.pop()
        return r

    def contract_for(self, q, d):
        for k, c in self.contracts.items():
            if q == k or (q or '').endswith('::' + k):
                return c
        return None

    def is_virtual(self, fn):
        if fn.get('virtual'):
            return True
        return any(c.get('kind') == 'OverrideAttr' for c in fn.get('inner', []) or []) or fn.get('pure')

    def override(self, t, fn):
        name = fn.get('name')
        s = cast.sig(fn)
        seen = []
        st = [t]
        while st:
            q = st.pop(0)
            rec = self.recs.get(q)
            if rec is None:
                continue
            for c in rec.get('inner', []) or []:
                if c.get('kind') == 'CXXMethodDecl' and c.get('name') == name and cast.sig(c) == s:
                    c.setdefault('_tu', rec['_tu'])
                    d = self.resolve(c)
                    if d is not None:
                        return d
            for b in rec.get('bases', []) or []:
                br = self.find_rec(b['type'].get('desugaredQualType') or b['type']['qualType'])
                if br is not None:
                    st.append(br['qual'])
        return None

    def fn(self, q, pred=None):
        out = []
        for tu in self.tus:
            for n in tu.find(q, pred):
                n['_tu'] = tu
                if all(n.get('mangledName') != o.get('mangledName') or n.get('mangledName') is None for o in out):
                    out.append(n)
        if len(out) != 1:
            raise ExtractError('%d definitions of %s (%s)' % (len(out), q, [cast.sig(o) for o in out]))
        return out[0]

    def run(self, q, args, this=None, pred=None):
        """call the function under contract; returns ('ret', value) / ('throw', e)"""
        f = q if isinstance(q, dict) else self.fn(q, pred)
        self.frames.append(Frame(f['_tu'], f, None))
        try:
            return ('ret', self.call_body(f, this, args))
        except CxxThrow as e:
            return ('throw', e.what)
        finally:
            self.frames.pop()

    def call_body(self, f, this, args):
        """execute the body even if the function has a contract"""
        self.mark(f)
        fr = Frame(f['_tu'], f, this)
        self.bind_params(f, args, fr)
        self.frames.append(fr)
        try:
            self.stmt(cast.body(f))
            return None
        except ReturnExc as e:
            return e.v
        finally:
            self.frames.pop()

    # ------------------------------------------------------------ statements
    def stmt(self, n):
        if self.deadline and time.time() > self.deadline:
            raise Undecided('time budget exhausted')
        k = n.get('kind')
        m = getattr(self, 's_' + k, None) if k else None
        if k is None or k == 'NullStmt':
            return
        if m is not None:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for c in n.get('inner', []) or []:
            self.stmt(c)

    def s_DeclStmt(self, n):
        for c in n.get('inner', []) or []:
            if c['kind'] == 'VarDecl':
                self.decl(c)

    def decl(self, c):
        t = ty(c)
        fr = self.frames[-1]
        init = [x for x in c.get('inner', []) or [] if 'kind' in x and not x['kind'].endswith('Attr')]
        if not init or 'init' not in c:
            fr.env[c['id']] = self.new(self.default_of(t, c.get('name', 'v')), c.get('name', 'v'))
            return
        if c.get('storageClass') == 'static' and not is_refty(t):
            pass
        a = self.ev_init(init[-1], t)
        fr.env[c['id']] = self.bind(t, a, c.get('name', 'v'))

    def ev_init(self, node, t):
        if not is_refty(t) and is_expr_t(strip_cv(t)):
            raise Unsupported('lazy Eigen expression stored in a variable')
        return self.ev(node)

    def rv_init(self, node, t):
        v = self.ev(node)
        v = self.rv(v) if not is_map_t(strip_cv(t)) else self.load(v)
        if isinstance(v, Mat):
            v = v.copy(deps=frozenset())
            d = eigen_dims(strip_cv(t))
            if d:
                v = self.to_plain(v, d)
        return self.coerce(v, t)

    def s_ReturnStmt(self, n):
        inner = n.get('inner') or []
        if not inner:
            raise ReturnExc(None)
        v = self.ev(inner[0])
        fn = self.frames[-1].fn
        rt = cast.sig(fn).split('(')[0].strip()
        if re.match(r'^(?:Eigen::)?Ref<(?!\s*const\b)', rt) and isinstance(v, LV):
            raise ReturnExc(v)       # a view
        if not is_refty(rt):
            lv = v
            v = self.load(v)
            if isinstance(v, MapVal) and not is_map_t(strip_cv(rt)):
                v = self.rv(v)
            if isinstance(v, Mat):
                if isinstance(lv, LV) and lv.path and rt not in ALIASES and eigen_dims(strip_cv(rt)) is None and rt == 'auto':
                    pass
                v = v.copy(deps=frozenset())
                d = eigen_dims(strip_cv(rt))
                if d:
                    v = self.to_plain(v, d)
            v = self.coerce(v, rt)
        raise ReturnExc(v)

    def s_IfStmt(self, n):
        inner = [c for c in n.get('inner', [])]
        i = 0
        if n.get('hasInit'):
            self.stmt(inner[0])
            i = 1
        if n.get('hasVar'):
            self.stmt(inner[i])
            i += 1
        cond = inner[i]
        then = inner[i + 1] if len(inner) > i + 1 else None
        els = inner[i + 2] if len(inner) > i + 2 else None
        if n.get('isConstexpr') and cond.get('kind') == 'ConstantExpr' and 'value' in cond:
            c = cond['value'] in ('true', '1')
        else:
            c = self.cond(cond)
            if self.try_merge(c, then, els):
                return
            c = self.decide(c)
        if c:
            if then is not None:
                self.stmt(then)
        elif els is not None:
            self.stmt(els)

    def try_merge(self, c, then, els):
        """inside summarised loops: join the two branches instead of forking"""
        if not self.fork_merge or isinstance(c, bool):
            return False
        if self.quick_entails(c) or self.quick_entails(z3.Not(c)):
            return False
        if any(has_jump(x) for x in (then, els) if x is not None):
            return False
        h0 = dict(self.heap)
        ctx0 = self.ctx
        envs = dict(self.frames[-1].env)
        res = []
        for g, s in ((c, then), (bsimp(z3.Not(c)), els)):
            self.heap = dict(h0)
            self.ctx = ctx0.child([g])
            if s is not None:
                self.stmt(s)
            res.append(self.heap)
        self.ctx = ctx0
        self.frames[-1].env = envs
        self.heap = h0
        for loc in h0:
            self.heap[loc] = vite(c, res[0].get(loc), res[1].get(loc))
        return True

    def s_CXXThrowExpr(self, n):
        raise CxxThrow('exception')

    def s_BreakStmt(self, n):
        raise BreakExc()

    def s_ContinueStmt(self, n):
        raise ContinueExc()

    def s_ForStmt(self, n):
        inner = n['inner']
        init, condvar, cond, inc, body = inner[0], inner[1], inner[2], inner[3], inner[4]
        if init and 'kind' in init:
            self.stmt(init)
        self.loop(n, cond if 'kind' in cond else None, inc if 'kind' in inc else None, body)

    def s_WhileStmt(self, n):
        inner = [c for c in n['inner'] if 'kind' in c]
        self.loop(n, inner[0], None, inner[1])

    def s_DoStmt(self, n):
        raise Unsupported('do loop')

    def s_SwitchStmt(self, n):
        inner = [c for c in n['inner'] if 'kind' in c]
        v = self.rv(self.ev(inner[0]))
        body = inner[-1]
        items = flatten_cases(body)
        # decide which label
        start = None
        dflt = None
        for i, (labels, isdef, st) in enumerate(items):
            for lab in labels:
                lv = self.rv(self.ev(lab))
                if start is None and self.decide(cmpi('==', v, lv)):
                    start = i
            if isdef:
                dflt = i
            if start is not None:
                break
        if start is None:
            start = dflt
        if start is None:
            return
        try:
            for labels, isdef, st in items[start:]:
                if st is not None:
                    self.stmt(st)
        except BreakExc:
            pass

    # ------------------------------------------------------------ loops
    def loop_id(self, n):
        fr = self.frames[-1]
        if fr.loops is None:
            fr.loops = {}
            for i, x in enumerate(find_loops(cast.body(fr.fn) or {})):
                fr.loops[x.get('id')] = i
        return (fr.fn.get('name'), fr.loops.get(n.get('id')))

    def loop(self, n, cond, inc, body):
        lid = self.loop_id(n)
        inv = self.invariants.get(lid) or self.invariants.get('*')
        if hasattr(inv, 'select'):
            raise Unsupported('loop needs an invariant (%s)' % lid[0])
        if inv is not None:
            return self.loop_inv(inv, n, cond, inc, body)
        # concrete unrolling when the condition is decided each time
        rng = self.loop_range(cond, inc)
        if rng is None:
            return self.loop_unroll(cond, inc, body)
        var_lv, lo, hi, step = rng
        d = isubt(hi, lo) if step == 1 else None
        if isinstance(d, int) and d <= 10:
            return self.loop_unroll(cond, inc, body)
        if step != 1:
            raise Unsupported('loop step')
        def bind_index(i):
            self.store(var_lv, i)
        self.summarise(lo, hi, body, bind_index, var_lv, lid)
        # value of the index after the loop
        self.store(var_lv, isimp(z3.If(I(hi) >= I(lo), I(hi), I(lo))) if not self.ctx.entails(B(cmpi('>=', hi, lo))) else hi)

    def loop_unroll(self, cond, inc, body, limit=40):
        k = 0
        while True:
            c = True if cond is None else self.cond(cond)
            c = bsimp(c)
            if not isinstance(c, bool):
                if self.quick_entails(c):
                    c = True
                elif self.quick_entails(z3.Not(c)):
                    c = False
                else:
                    raise Unsupported('loop needs an invariant (%s)' % (self.frames[-1].fn.get('name')))
            if not c:
                return
            k += 1
            if k > limit:
                raise Unsupported('unbounded loop')
            try:
                self.stmt(body)
            except BreakExc:
                return
            except ContinueExc:
                pass
            if inc is not None:
                self.ev(inc)

    def loop_range(self, cond, inc):
        """for (...; i < hi; i++): (lv of i, lo, hi, 1)"""
        if cond is None or inc is None:
            return None
        x = strip(inc)
        if x['kind'] == 'UnaryOperator' and x['opcode'] == '++':
            v = strip(x['inner'][0])
        elif x['kind'] == 'CompoundAssignOperator' and x['opcode'] == '+=' and strip(x['inner'][1]).get('value') == '1':
            v = strip(x['inner'][0])
        else:
            return None
        c = strip(cond)
        if v['kind'] != 'DeclRefExpr' or c['kind'] != 'BinaryOperator' or c['opcode'] not in ('<', '<=', '!=', '>', '>='):
            return None
        a, b = c['inner']
        op = c['opcode']
        if op in ('>', '>='):
            a, b, op = b, a, {'>': '<', '>=': '<='}[op]
        if strip(a)['kind'] != 'DeclRefExpr' or strip(a)['referencedDecl']['id'] != v['referencedDecl']['id']:
            return None
        lv = self.ev(v)
        lo = self.rv(lv)
        if not is_int(lo):
            return None
        hi = self.rv(self.ev(b))
        if not is_int(hi):
            return None
        if op == '<=':
            hi = iadd(hi, 1)
        if op == '!=' and not self.ctx.entails(B(cmpi('>=', hi, lo))):
            return None
        self._hi_node = b
        return lv, lo, hi, 1

    def s_CXXForRangeStmt(self, n):
        inner = [c for c in n['inner'] if 'kind' in c]
        # range decl, begin, end, cond, inc, loopvar, body
        decls = [c for c in inner if c['kind'] == 'DeclStmt']
        rng_decl = decls[0]['inner'][0]
        body = inner[-1]
        lv_decl = decls[-1]['inner'][0]
        rinit = [x for x in rng_decl['inner'] if 'kind' in x][-1]
        a = self.ev(rinit)
        v = self.load(a)
        if isinstance(v, Ptr):
            a = v.lv
            v = self.load(a)
        if not isinstance(v, Vec):
            raise Unsupported('range for over %r' % (v,))
        alv = a if isinstance(a, LV) else self.new(v, 'range')
        t = ty(lv_decl)
        lid = self.loop_id(n)
        fr = self.frames[-1]

        def bind_index(i):
            e = alv / ('at', i)
            fr.env[lv_decl['id']] = self.bind(t, e, lv_decl.get('name', 'x'))
        inv = self.invariants.get(lid) or self.invariants.get('*')
        if hasattr(inv, 'select'):
            inv = inv.select(alv)
        if inv is not None:
            return self.loop_inv_range(inv, v.n, bind_index, body)
        if isinstance(v.n, int) and v.n <= 10:
            for i in range(v.n):
                bind_index(i)
                try:
                    self.stmt(body)
                except BreakExc:
                    return
                except ContinueExc:
                    continue
            return
        self.summarise(0, v.n, body, bind_index, None, lid)

    # ---- summarisation
    def sub_explore(self, run):
        """all paths of run() from the current state.
        returns list of (conds, outcome, heap)"""
        saved = (self.prefix, self.taken, self.ctx, self.heap, self.conds, self.nloc)
        outer = self.outer_replay
        self.outer_replay = self.replay()
        frames_env = [dict(f.env) for f in self.frames]
        depth = len(self.frames)
        out = []
        stack = [[]]
        cnt = 0
        try:
            while stack:
                self.prefix = stack.pop()
                self.taken = []
                self.ctx = saved[2].child([])
                self.heap = dict(saved[3])
                self.conds = []
                self.nloc = saved[5]
                for f, e in zip(self.frames, frames_env):
                    f.env = dict(e)
                del self.frames[depth:]
                cnt += 1
                if cnt > 64:
                    raise Unsupported('too many paths in loop body')
                oc = None
                try:
                    run()
                    oc = ('norm', None)
                except ContinueExc:
                    oc = ('norm', None)
                except BreakExc:
                    oc = ('break', None)
                except ReturnExc as e:
                    oc = ('return', e.v)
                except CxxThrow as e:
                    oc = ('throw', e.what)
                except Infeasible:
                    oc = None
                if oc:
                    out.append((list(self.conds), oc, self.heap))
                for d in range(len(self.prefix), len(self.taken)):
                    v, both = self.taken[d]
                    if both:
                        stack.append([t[0] for t in self.taken[:d]] + [not v])
            mx = max([self.nloc, saved[5]])
        finally:
            self.prefix, self.taken, self.ctx, self.heap, self.conds, _ = saved
            self.outer_replay = outer
            del self.frames[depth:]
            for f, e in zip(self.frames, frames_env):
                f.env = e
        return out

    def merge_heaps(self, paths, base):
        """paths: [(conds, heap)] exhaustive; merge the locations of base"""
        h = dict(paths[-1][1])
        for conds, hp in reversed(paths[:-1]):
            c = land(*conds)
            for loc in base:
                if hp[loc] is not h[loc]:
                    h[loc] = vite(c, hp[loc], h[loc])
        return {loc: h[loc] for loc in base}

    def leaves(self, old, new, path=(), i=None):
        """changed leaf cells; i: the loop index"""
        if old is new:
            return []
        if isinstance(new, Vec) and new.mod is not None and isinstance(new.mod[2], (Vec, Struct)) and i is not None:
            idx = new.mod[1]
            b, n = new, 0
            while b is not old and b.mod is not None and ikey(b.mod[1]) == ikey(idx) and n < 100:
                b, n = b.mod[0], n + 1
            if b is not old:
                pass
            elif isinstance(idx, int) or not (z_syms(idx) & {i.decl().name()}) and not any(x.startswith('hv!') for x in z_syms(idx)):
                return self.leaves(old.at(idx), new.mod[2], path + (('at', idx),), i)
        if isinstance(old, Struct) and isinstance(new, Struct) and old.t == new.t:
            out = []
            for f in new.fs:
                out += self.leaves(old.fs.get(f), new.fs[f], path + (('f', f),), i)
            return out
        if isinstance(old, Vec) and isinstance(new, Vec) and isinstance(old.n, int) and isinstance(new.n, int) \
                and old.n == new.n <= 16:
            if old.n and isinstance(old.at(0), Mat) and isinstance(new.at(0), Mat):
                out = []
                for k in range(old.n):
                    out += self.leaves(old.at(k), new.at(k), path + (('at', k),), i)
                return out
        return [path]

    def getp(self, v, path):
        for p in path:
            v = self.proj(v, p)
        return v

    def elementwise(self, v, i):
        """a vector of structures of which each iteration changes the element of its own index: that one is still the original"""
        if not (isinstance(v, Vec) and not isinstance(v.n, int)):
            return None
        try:
            if not isinstance(v.at(z3.Int('?h')), Struct):
                return None
        except Unsupported:
            return None

        def el(k):
            if ikey(k) != ikey(i):
                raise Unsupported('other elements of a vector of structures changed by a loop')
            return v.at(k)
        return Vec(v.n, el, v.et)

    def havoc_cell(self, v, name, grown, i=None):
        if i is not None and not grown:
            e = self.elementwise(v, i)
            if e is not None:
                return e
        if grown == 'resized':
            fr, fc = [z3.Function(name + x, z3.IntSort(), z3.IntSort()) for x in ('.r', '.c')]
            return Vec(v.n, lambda k: Mat(fr(I(k)), fc(I(k)), lambda i, j: var(name, k, i, j), v.at(k).arr), v.et)
        if grown:
            return Vec(z3.Int(name), lambda k: Uninit(name), v.et)
        return self.havoc_like(v, name)

    def resized(self, o, w):
        if not self.same(o.n, w.n) or isinstance(o.n, int):
            return False
        k = z3.Int('?k')
        a, b = o.at(k), w.at(k)
        return isinstance(a, Mat) and isinstance(b, Mat) and not (self.same(a.rows, b.rows) and self.same(a.cols, b.cols))

    def appended(self, w, s):
        """elements appended to the vector s to get w"""
        xs = []
        while w is not s:
            if not isinstance(w, Vec) or w.app is None:
                return None
            xs.append(w.app[1])
            w = w.app[0]
        return xs[::-1]

    def havoc_like(self, v, name):
        if isinstance(v, bool) or (z3.is_expr(v) and z3.is_bool(v)):
            return z3.Bool(name)
        if is_int(v):
            return z3.Int(name)
        if isinstance(v, E):
            return var(name)
        if isinstance(v, Mat):
            return Mat(v.rows, v.cols, lambda i, j: var(name, i, j), v.arr)
        if isinstance(v, Vec):
            if isinstance(v.n, int) and v.n == 0:
                return Vec(z3.Int(name), lambda k: Uninit(name), v.et)
            s = v.at(z3.Int('?h'))
            if is_int(s):
                f = z3.Function(name, z3.IntSort(), z3.IntSort())
                return Vec(v.n, lambda k: f(I(k)), v.et)
            if is_bool(s):
                f = z3.Function(name, z3.IntSort(), z3.BoolSort())
                return Vec(v.n, lambda k: f(I(k)), v.et)
            if isinstance(s, E):
                return Vec(v.n, lambda k: var(name, k), v.et)
            if isinstance(s, Mat):
                def el(k):
                    o = v.at(k)
                    return Mat(o.rows, o.cols, lambda i, j: var(name, k, i, j), o.arr)
                return Vec(v.n, el, v.et)
        if isinstance(v, Uninit):
            return Uninit(name)
        if isinstance(v, Ptr) and v.lv is not None and v.lv.path and v.lv.path[-1][0] == 'at':
            # a pointer into an array moves within it
            return Ptr(LV(v.lv.loc, v.lv.path[:-1] + (('at', z3.Int(name)),)), v.null)
        raise Unsupported('havoc of %r' % (v,))

    def summarise(self, lo, hi, body, bind_index, var_lv, lid):
        lo, hi = isimp(lo), isimp(hi)
        if self.ctx.entails(B(cmpi('>=', lo, hi))):
            return
        i = fresh_int('it')
        rngf = [I(lo) <= i, i < I(hi)]
        base = list(self.heap.keys())
        old = dict(self.heap)
        was = self.fork_merge
        self.in_summary += 1
        self.fork_merge = True
        tb = self.trace_bounds
        try:
            # which cells does the body change?
            def once(start, trace):
                self.trace_bounds = trace and tb
                saved_heap, saved_ctx = self.heap, self.ctx
                self.heap = dict(start)
                self.ctx = self.ctx.child(rngf)
                def run():
                    bind_index(i)
                    try:
                        self.stmt(body)
                    except ContinueExc:
                        pass
                try:
                    return self.sub_explore(run)
                finally:
                    self.heap, self.ctx = saved_heap, saved_ctx
                    self.trace_bounds = tb
            pend = {}          # (loc, path) -> havoc name
            known = {}         # (loc, path) -> function i -> value at start of iteration i
            start = dict(old)
            grown = {}         # vectors that are appended to, or whose matrices are resized
            for rnd in range(8):
                # start state: known summaries at i, pending havocs
                paths = once(start, False)
                norm = [(c, h) for c, oc, h in paths if oc[0] == 'norm']
                exits = [(c, oc, h) for c, oc, h in paths if oc[0] != 'norm']
                if not norm:
                    break
                merged = self.merge_heaps(norm, base)
                cells = []
                for loc in base:
                    if var_lv is not None and loc == var_lv.loc:
                        continue
                    for p in self.leaves(start[loc], merged[loc], (), i):
                        cells.append((loc, p))
                new = [c for c in cells if c not in pend and c not in known]
                if os.environ.get('VERIF_DEBUG'): print('LOOP', lid, 'round', rnd, 'new', new)
                if new:
                    for c in new:
                        pend[c] = fresh_name('hv')
                    start = dict(old)
                    self.install(start, known, i)
                    for c, nm in pend.items():
                        if c in known:
                            continue
                        w = self.getp(merged[c[0]], c[1]) if c in new else None
                        if isinstance(w, Vec) and w.app is not None:
                            grown[c] = True
                        elif isinstance(w, Vec) and self.resized(self.getp(old[c[0]], c[1]), w):
                            grown[c] = 'resized'
                        v = self.havoc_cell(self.getp(old[c[0]], c[1]), nm, grown.get(c), i)
                        start[c[0]] = self.upd(start[c[0]], c[1], v)
                    continue
                unknown = [c for c in pend if c not in known]
                if not unknown:
                    break
                names = frozenset([pend[c] for c in unknown] + [pend[c] + x for c in unknown if grown.get(c) == 'resized' for x in ('.r', '.c')])
                got = 0
                for c in unknown:
                    s = self.solve_cell(old[c[0]], start[c[0]], merged[c[0]], c[1], pend[c], names, i, lo, hi)
                    if s is not None:
                        known[c] = s
                        got += 1
                if not got:
                    raise Unsupported('loop cannot be summarised (%s): %s' % (lid, [(c[0], c[1]) for c in unknown]))
                start = dict(old)
                self.install(start, known, i)
                for c, nm in pend.items():
                    if c in known:
                        continue
                    v = self.havoc_cell(self.getp(old[c[0]], c[1]), nm, grown.get(c), i)
                    start[c[0]] = self.upd(start[c[0]], c[1], v)
            else:
                raise Unsupported('loop summary did not converge')
            # obligations inside the body, with the exact state
            self.kind_save = None
            paths = once(start, True)
            exits = [(c, oc, h) for c, oc, h in paths if oc[0] != 'norm']
        finally:
            self.in_summary -= 1
            self.fork_merge = was
            self.trace_bounds = tb
        nonempty = cmpi('<', lo, hi)
        if exits:
            ec = lor(*[land(*c) for c, _, _ in exits])
            sub_ok(ec, i)
            if self.choose('loop exit'):
                # leaves early at iteration i0
                i0 = fresh_int('ex')
                self.assume(I(lo) <= i0)
                self.assume(i0 < I(hi))
                j = fresh_int('j')
                self.assume(bsub(B(ec), [(i, i0)]))
                self.qfact(j, lo, i0, lnot(bsub(B(ec), [(i, j)])))
                self.require_feasible()
                self.install(self.heap, known, i0)
                bind_index(i0)
                try:
                    self.stmt(body)
                except ContinueExc:
                    raise Infeasible()
                except BreakExc:
                    self._broke = True
                    return
                raise Infeasible()
            j = fresh_int('j')
            self.qfact(j, lo, hi, lnot(bsub(B(ec), [(i, j)])))
            if not norm:
                self.assume(B(cmpi('>=', lo, hi)))
        fin = hi
        if nonempty is not True and not self.ctx.entails(B(cmpi('<=', lo, hi))):
            fin = isimp(z3.If(I(lo) <= I(hi), I(hi), I(lo)))
        self.install(self.heap, known, fin)

    def qfact(self, j, lo, hi, b):
        b = bsimp(b)
        if b is True:
            return
        f = z3.ForAll([j], z3.Implies(z3.And(I(lo) <= j, j < I(hi)), B(b)))
        self.ctx.add(f)

    def install(self, heap, known, i):
        for (loc, path), s in known.items():
            heap[loc] = self.upd_raw(heap[loc], path, s(i))

    def upd_raw(self, v, path, val):
        return self.upd(v, path, val) if path else val

    def solve_cell(self, old, start, new, path, nm, names, i, lo, hi):
        """closed form of a cell at the start of iteration t, or None"""
        o = self.getp(old, path)
        s = self.getp(start, path)
        w = self.getp(new, path)
        if isinstance(w, Vec) and isinstance(o, Vec):
            # each iteration changes the structure of its own index
            b, m = w, 0
            while b is not s and b.mod is not None and ikey(b.mod[1]) == ikey(i) and m < 100:
                b, m = b.mod[0], m + 1
            if b is s and m and isinstance(w.mod[2], Struct):
                if mentions(w.mod[2], names):
                    return None
                new_el = w.mod[2]
                return lambda t: Vec(o.n, lambda k: vite(land(cmpi('>=', k, lo), cmpi('<', k, t)), self.vsub(new_el, i, k), o.at(k)), o.et)
        # temporaries: overwritten before use
        if not mentions(w, names):
            def temp(t, o=o, w=w):
                prev = self.vsub(w, i, isimp(I(t) - 1))
                c = cmpi('<=', t, lo)
                if c is not True and self.ctx.entails(B(cmpi('>', t, lo))):
                    return prev
                return vite(c, o, prev)
            if is_int(w) or isinstance(w, E) or is_bool(w) or isinstance(w, (Mat, Ptr, Struct)) or \
                    (isinstance(w, Vec) and isinstance(w.n, int) and isinstance(o, Vec) and not self.same(o.n, w.n)):
                return temp
        if isinstance(w, bool) or isinstance(o, Uninit):
            return None
        if is_int(w):
            d = int_delta(w, s)
            if not mentions(d, names):
                if isinstance(d, int) or i.decl().name() not in z_syms(d):
                    return lambda t: isimp(I(o) + I(d) * (I(t) - I(lo)))
                return self.int_prefix(o, d, i, lo, hi)
            return None
        if all(isinstance(x, Ptr) and x.lv is not None and x.lv.path and x.lv.path[-1][0] == 'at' for x in (o, s, w)):
            a, b, c = o.lv, s.lv, w.lv
            if not (a.loc == b.loc == c.loc and a.path[:-1] == b.path[:-1] == c.path[:-1] and o.null == s.null == w.null):
                return None
            d = int_delta(c.path[-1][1], b.path[-1][1])
            if mentions(d, names):
                return None
            if not isinstance(d, int) and i.decl().name() in z_syms(d):
                off = self.int_prefix(a.path[-1][1], d, i, lo, hi)
                return lambda t: Ptr(LV(a.loc, a.path[:-1] + (('at', off(t)),)), o.null)
            return lambda t: Ptr(LV(a.loc, a.path[:-1] + (('at', iadd(a.path[-1][1], imul(d, isubt(t, lo)))),)), o.null)
        if isinstance(w, E):
            r = self.solve_real(w, s, names, i, lo)
            return None if r is None else (lambda t: r(t, o))
        if isinstance(w, Mat) and isinstance(o, Mat):
            if mentions(w.rows, names) or mentions(w.cols, names):
                return None
            if not (self.same(w.rows, o.rows) and self.same(w.cols, o.cols)):
                return None
            R, C = z3.Int('?r'), z3.Int('?c')
            r = self.solve_real(w.at(R, C), s.at(R, C), names, i, lo, keys=(R, C))
            if r is None:
                return None
            def closed(t):
                return Mat(o.rows, o.cols, lambda a, b: r(t, o.at(a, b), [(R, a), (C, b)], oldf=o.at), o.arr)
            return closed
        if isinstance(w, Vec) and isinstance(o, Vec):
            K = z3.Int('?k')
            xs = self.appended(w, s)
            if xs:
                if any(mentions(x, names) for x in xs):
                    return None
                c, vals = len(xs), xs

                def grow(t):
                    def el(k):
                        q = isubt(k, o.n)
                        it = iadd(lo, q if c == 1 else isimp(I(q) / c))
                        x = self.vsub(vals[0], i, it)
                        for z in range(1, c):
                            x = vite(cmpi('==', isimp(I(q) % c), z), self.vsub(vals[z], i, it), x)
                        a = cmpi('<', k, o.n)
                        if a is True or a is False or not (isinstance(o.n, int) and o.n == 0):
                            return vite(a, o.at(k), x) if a is not False else x
                        return x
                    return Vec(iadd(o.n, imul(c, isubt(t, lo))), el, o.et)
                return grow
            if mentions(w.n, names) or not self.same(w.n, o.n):
                return None
            x, y = w.at(K), s.at(K)
            if isinstance(x, E):
                r = self.solve_real(x, y, names, i, lo, keys=(K,))
                if r is None:
                    return None
                return lambda t: Vec(o.n, lambda k: r(t, o.at(k), [(K, k)], oldf=o.at), o.et)
            if isinstance(x, Mat):
                R, C = z3.Int('?r'), z3.Int('?c')
                r = self.solve_real(x.at(R, C), y.at(R, C), names, i, lo, keys=(K, R, C))
                if r is None:
                    return None
                dr = dc = None
                if not self.same(x.rows, y.rows) or not self.same(x.cols, y.cols):
                    dr = self.solve_map(x.rows, y.rows, names, i, lo, (K,))
                    dc = self.solve_map(x.cols, y.cols, names, i, lo, (K,))
                    if dr is None or dc is None:
                        return None
                def cl(t):
                    def el(k):
                        ok = o.at(k)
                        rows, cols = ok.rows, ok.cols
                        if dr is not None:
                            rows, cols = dr(t, rows, [(K, k)]), dc(t, cols, [(K, k)])
                        return Mat(rows, cols, lambda a, b: r(t, ok.at(a, b), [(K, k), (R, a), (C, b)]), ok.arr)
                    return Vec(o.n, el, o.et)
                return cl
            if is_int(x) or is_bool(x):
                r = self.solve_map(x, y, names, i, lo, (K,))
                if r is None:
                    return None
                return lambda t: Vec(o.n, lambda k: r(t, o.at(k), [(K, k)]), o.et)
        return None

    def vsub(self, v, i, t):
        """substitute the loop index"""
        pr = [(i, t)]
        if isinstance(v, E):
            check_sub(v, i)
            return subst(v, pr)
        if isinstance(v, bool) or isinstance(v, int):
            return v
        if z3.is_expr(v):
            sub_ok(v, i)
            return isub(v, pr) if z3.is_int(v) else bsub(v, pr)
        if isinstance(v, Mat):
            return Mat(self.vsub(v.rows, i, t), self.vsub(v.cols, i, t),
                       lambda a, b: self.vsub2(v.at, (a, b), i, t), v.arr)
        if isinstance(v, Vec):
            return Vec(self.vsub(v.n, i, t), lambda k: self.vsub2(v.at, (k,), i, t), v.et)
        if isinstance(v, Struct):
            return Struct(v.t, {f: self.vsub(x, i, t) for f, x in v.fs.items()})
        if isinstance(v, MapVal):
            return MapVal(self.vsub(Ptr(v.lv, False), i, t).lv, self.vsub(v.rows, i, t), self.vsub(v.cols, i, t))
        if isinstance(v, Ptr):
            return Ptr(None if v.lv is None else LV(v.lv.loc, [tuple(self.vsub(x, i, t) if is_int(x) else x for x in p) for p in v.lv.path]),
                       v.null if isinstance(v.null, bool) else self.vsub(v.null, i, t))
        if isinstance(v, Opaque):
            return v
        raise Unsupported('substitution in %r' % (v,))

    def vsub2(self, f, idx, i, t):
        """evaluate f at idx (which must not capture i), then substitute"""
        fresh = []
        args = []
        for a in idx:
            if not isinstance(a, int) and i.decl().name() in z_syms(a):
                v = fresh_int('a')
                fresh.append((v, a))
                args.append(v)
            else:
                args.append(a)
        r = self.vsub(f(*args), i, t)
        for v, a in fresh:
            r = self.vsub(r, v, a)
        return r

    def int_prefix(self, o, d, i, lo, hi):
        """sum of d over iterations: uninterpreted prefix function with its recursion"""
        key = 'psum[%s]' % bsub(d, [(i, z3.Int('?'))]).sexpr()
        f = z3.Function(key, z3.IntSort(), z3.IntSort())
        k = z3.Int('?p')
        self.psums = getattr(self, 'psums', {})
        ax = z3.ForAll([k], f(k + 1) == f(k) + bsub(d, [(i, k)]), patterns=[f(k + 1)])
        self.ctx.add(f(I(lo)) == 0)
        self.psums[key] = (f, d, i, lo)
        return lambda t: isimp(I(o) + f(I(t)))

    def is_prefix_sum(self, term, lo, hi, fn):
        """is the integer term the sum of fn over [lo, hi)?  (a summarised loop)"""
        if self.ctx.entails(B(cmpi('<=', hi, lo))):
            return cmpi('==', term, 0)
        # a linear combination of prefix sums: compare the increments
        ps, t, xs = [], I(term), []
        for key, (f, d, i, l0) in getattr(self, 'psums', {}).items():
            for a in z_apps(t, key):
                if not self.ctx.entails(B(cmpi('==', a.arg(0), hi))):
                    return False
                x = fresh_int('ps')
                t = z3.substitute(t, (a, x))
                xs.append(x)
                ps.append((d, i, l0))
        at = lambda v: isimp(z3.substitute(t, *[(x, z3.IntVal(1 if x is v else 0)) for x in xs]))
        t = self.prune(t)
        c0 = at(None)
        cs = [isimp(I(at(x)) - I(c0)) for x in xs]
        if not all(isinstance(c, int) for c in cs) or not self.ctx.entails(I(c0) + sum([c * x for c, x in zip(cs, xs)], z3.IntVal(0)) == t):
            return False
        if not self.ctx.entails(B(cmpi('==', c0, 0))) or not all(self.ctx.entails(B(cmpi('==', l0, lo))) for _, _, l0 in ps):
            return False
        k = fresh_int('k')
        c = self.ctx.child([I(lo) <= k, k < I(hi)])
        inc = sum([q * I(bsub(d, [(i, k)])) for q, (d, i, _) in zip(cs, ps)], z3.IntVal(0))
        return bool(c.entails(inc == I(fn(k))))

    def prune(self, t):
        """conditionals whose condition is known"""
        for _ in range(20):
            st, seen, hit = [t], set(), None
            while st and hit is None:
                e = st.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if z3.is_app_of(e, z3.Z3_OP_ITE):
                    c, a, b = e.children()
                    if self.ctx.entails(c):
                        hit = (e, a)
                    elif self.ctx.entails(z3.Not(c)):
                        hit = (e, b)
                if z3.is_app(e):
                    st += e.children()
            if hit is None:
                break
            t = z3.substitute(t, hit)
        return t

    def solve_real(self, w, s, names, i, lo, keys=()):
        """w: value after, s: symbol before.  returns r(t, old, subs)"""
        nz = Normalizer(self.ctx.child([I(lo) <= i]))
        ctx = self.ctx
        # accumulation: w = s + delta
        try:
            wf = strip_ite(w, s)
            delta = wf
        except Undecided:
            delta = None
        if delta is None:
            d = add(w, mul(-1, s))
            p = nz.normal(d)
            dd = nz.unpoly(p)
            if not e_mentions(dd, names):
                delta = dd
        if delta is not None and not e_mentions(delta, names):
            check_sub(delta, i)
            def acc(t, old, subs=(), oldf=None):
                b = subst(delta, list(subs)) if subs else delta
                return add(old, Sum(lo, t, lambda q: subst(b, [(i, q)])))
            return acc
        r = self.solve_fold(w, s, names, i, lo)
        if r is not None:
            return r
        return self.solve_map(w, s, names, i, lo, keys)

    def solve_fold(self, w, s, names, i, lo):
        """running maximum or minimum: w = max(s, x_i)"""
        vals = []
        compared = []       # is the old value compared with anything?

        def go(e):
            if is_sym(e, s):
                return True
            if e.op == 'ite':
                if e_mentions(T.ite(e.a[0], const(1), ZERO), names):
                    compared.append(e)
                return go(e.a[1]) and go(e.a[2])
            if e.op == 'fn' and e.a[0] in ('max', 'min'):
                compared.append(e)
                return all(go(x) for x in e.a[1])
            if e_mentions(e, names):
                return False
            vals.append(e)
            return True
        if not isinstance(w, E) or not go(w) or not vals or not compared:
            return None
        nz = Normalizer(self.ctx)
        xs = []
        for v in vals:
            v = nz.unpoly(nz.normal(v))
            if all(nz.ekey(v, ()) != nz.ekey(u, ()) for u in xs):
                xs.append(v)
        if len(xs) > 2:
            return None
        sv = s if isinstance(s, E) else const(s)
        for op in ('max', 'min'):
            x = xs[0] if len(xs) == 1 else T.fn(op, *xs)
            if not prove_eq(self.ctx.child([I(lo) <= i]), w, T.fn(op, sv, x)):
                continue
            check_sub(x, i)

            def acc(t, old, subs=(), oldf=None):
                b = subst(x, list(subs)) if subs else x
                return T.ite(cmpi('<', lo, t), T.fn(op, old, T.Big(op, lo, t, lambda q: subst(b, [(i, q)]))), old)
            return acc
        return None

    def solve_map(self, w, s, names, i, lo, keys):
        """writes to cells determined by the index"""
        cases = decomp(w, s, True)
        if all(v is None or solve_index(g, i) is not None for g, v in cases):
            r = self.solve_cases(cases, s, names, i, lo, keys)
            if r is not None:
                return r
        return self.solve_cases(decomp(w, s), s, names, i, lo, keys)

    def solve_cases(self, cases, s, names, i, lo, keys):
        # a cell that reads its own old value once: w = ite(G, g(s), s)
        items = []
        prior = []
        for g, v in cases:
            full = land(g, *[lnot(x) for x in prior])
            prior.append(g)
            if v is None:
                continue
            # index as a function of the cell
            jj = solve_index(g, i)
            if jj is None:
                if os.environ.get('VERIF_DEBUG'):
                    print('solve_index', g, i)
                return None
            self_read = mentions(v, names)
            if self_read:
                # only old values of cells not written before, in the single iteration that touches it
                others = names_in(v, names) - {sym_name(s)}
                if others or len([c for c in cases if c[1] is not None]) != 1:
                    return None
                for idx in reads_of(v, sym_name(s)):
                    if not idx:
                        continue
                    if len(idx) != len(keys):
                        return None
                    ji = isub(I(jj), list(zip(keys, idx)))
                    d = isimp(I(ji) - i)
                    if not (isinstance(d, int) and d >= 0) and not self.ctx.child([full] if not isinstance(full, bool) else []).entails(I(d) >= 0):
                        if os.environ.get('VERIF_DEBUG'):
                            print('self-read', idx, jj, i)
                        return None
            items.append((full, v, jj, self_read))
        def r(t, old, subs=(), oldf=None):
            res = old
            cand = []
            for g, v, jj, sr in items:
                j0 = jj
                gg = self.vsub(g, i, j0) if not isinstance(g, bool) else g
                vv = self.vsub(v, i, j0)
                if subs:
                    j0 = isub(j0, list(subs))
                    gg = bsub(gg, list(subs)) if not isinstance(gg, bool) else gg
                    vv = subst(vv, list(subs)) if isinstance(vv, E) else (isub(vv, list(subs)) if is_int(vv) else (vv if isinstance(vv, bool) else bsub(vv, list(subs))))
                if sr:
                    vv = replace_sym(vv, s, old, oldf)
                ok = land(cmpi('<=', lo, j0), cmpi('<', j0, t), gg)
                cand.append((ok, j0, vv))
            # later iteration wins; at most two candidates supported with order
            if len(cand) == 1:
                ok, j0, vv = cand[0]
                return vite(ok, vv, old)
            if len(cand) == 2:
                (o1, j1, v1), (o2, j2, v2) = cand
                both = land(o1, o2)
                first = cmpi('>=', j1, j2)     # within one iteration guards exclude each other
                return vite(both, vite(first, v1, v2), vite(o1, v1, vite(o2, v2, old)))
            raise Unsupported('many writes')
        return r

    # ---- invariants supplied by contracts
    def loop_inv(self, inv, n, cond, inc, body):
        """cut the loop at its invariant.  inv: Invariant"""
        fr = self.frames[-1]
        view = View(self, fr)
        inv.init(self, view)
        for nm, c in inv.props(self, view):
            self.oblige_prop('%s: invariant %s initially' % (fr.fn.get('name'), nm), c, 'invariant')
        pre = dict(self.heap)
        ints = {nm: v for nm, v in ((nm, self.local_int(view, nm)) for nm in view.names) if v is not None}
        view.sets, nf = {}, len(self.ctx.facts)
        inv.havoc(self, view)
        ranges = self.counter_ranges(view.sets, self.ctx.facts, nf)
        self.check_ranges(ranges, ints, fr, 'initially')
        h0 = self.havoc_rest(self.loop_id(n))
        for nm, c in inv.props(self, view):
            self.assume_prop(c)
        self.require_feasible()
        m0 = inv.measure(self, view) if hasattr(inv, 'measure') else None
        if self.decide(self.cond(cond) if cond is not None else True):
            broke = False
            try:
                self.stmt(body)
            except ContinueExc:
                pass
            except BreakExc:
                broke = True
            if broke:
                return
            if inc is not None:
                self.ev(inc)
            self.check_havoc(self.loop_id(n), pre, h0)
            self.check_ranges(ranges, {nm: self.local_int(view, nm) for nm in view.names}, fr, 'preserved')
            for nm, c in inv.props(self, view):
                self.oblige_prop('%s: invariant %s preserved' % (fr.fn.get('name'), nm), c, 'invariant')
            if m0 is not None:
                m1 = inv.measure(self, view)
                self.oblige('%s: loop variant decreases' % fr.fn.get('name'), land(cmpi('<', m1, m0), cmpi('>=', m0, 0)), 'invariant')
            raise LoopCut()
        inv.exit(self, view)

    def local_int(self, view, nm):
        try:
            v = self.load(view.lv(nm))
        except Unsupported:
            return None
        return v if is_int(v) else None

    def counter_ranges(self, sets, facts, nf):
        """assumed bounds of loop counters: facts over a counter and symbols the loop does not change"""
        cs = {v.decl().name(): (v, nm) for nm, v in sets.items() if z3.is_expr(v) and z3.is_const(v) and v.decl().kind() == z3.Z3_OP_UNINTERPRETED}
        if not cs:
            return []
        out, old, seen = [], set(), set()
        todo = [f for f in facts[:nf] if z3.is_expr(f)]
        while todo:
            t = todo.pop()
            if t.get_id() in seen or z3.is_quantifier(t):
                continue
            seen.add(t.get_id())
            if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                old.add(t.decl().name())
            todo += t.children()

        def add(f):
            if z3.is_and(f):
                for c in f.children():
                    add(c)
                return
            a = f.children()[0] if z3.is_not(f) else f
            if not (z3.is_le(a) or z3.is_ge(a) or z3.is_lt(a) or z3.is_gt(a) or z3.is_eq(a)):
                return
            names, todo = set(), [f]
            while todo:
                t = todo.pop()
                if z3.is_quantifier(t) or z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                    return
                if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    names.add(t.decl().name())
                todo += t.children()
            if names & set(cs) and names <= set(cs) | old:
                out.append((f, [cs[x] for x in names if x in cs]))
        for f in facts[nf:]:
            if z3.is_expr(f):
                add(f)
        return out

    def check_ranges(self, ranges, now, fr, when):
        for f, vs in ranges:
            if any(now.get(nm) is None for _, nm in vs):
                continue
            self.oblige('%s: assumed bounds of a loop counter hold %s' % (fr.fn.get('name'), when), z3.substitute(f, *[(v, I(now[nm])) for v, nm in vs]), 'invariant', soft=True)

    def havoc_rest(self, lid):
        for loc, path in self.auto_havoc.get(lid, ()):
            if loc in self.heap:
                v = self.getp(self.heap[loc], path)
                if not isinstance(v, (Uninit, Opaque)):
                    self.heap[loc] = self.upd_raw(self.heap[loc], path, self.havoc_like(v, fresh_name('ah')))
        return dict(self.heap)

    def check_havoc(self, lid, pre, h0):
        """every cell the body changes had an arbitrary value at the loop head"""
        miss = []
        for loc, old in h0.items():
            new = self.heap.get(loc)
            if new is old:
                continue
            done = self.leaves(pre[loc], old) if loc in pre else []
            for p in self.leaves(old, new):
                if any(p[:len(q)] == q for q in done):
                    continue
                v = self.getp(old, p)
                if isinstance(v, (Uninit, Opaque)):
                    continue
                w = self.getp(new, p)
                if isinstance(v, E) and isinstance(w, E) and prove_eq(self.ctx, v, w) or is_int(v) and is_int(w) and self.ctx.entails(B(cmpi('==', v, w))):
                    continue        # same value as before
                if (loc, p) in self.auto_havoc.get(lid, ()):
                    continue
                if os.environ.get('VERIF_DEBUG'):
                    print('AUTOHAVOC', lid, loc, p, str(v)[:300], '->', str(w)[:300])
                miss.append((loc, p))
        if miss:
            raise AutoHavoc(lid, miss)

    def loop_inv_range(self, inv, n, bind_index, body, lid=None):
        fr = self.frames[-1]
        view = View(self, fr)
        view.i = 0
        view.n = n
        inv.init(self, view)
        for nm, c in inv.props(self, view):
            self.oblige_prop('%s: invariant %s initially' % (fr.fn.get('name'), nm), c, 'invariant')
        pre = dict(self.heap)
        i = fresh_int('it')
        self.assume(z3.And(i >= 0, i <= I(n)))
        view.i = i
        inv.havoc(self, view)
        lid = (fr.fn.get('name'), 'range', id(body) if lid is None else lid)
        h0 = self.havoc_rest(lid)
        for nm, c in inv.props(self, view):
            self.assume_prop(c)
        self.require_feasible()
        if self.decide(cmpi('<', i, n)):
            bind_index(i)
            broke = False
            try:
                self.stmt(body)
            except ContinueExc:
                pass
            except BreakExc:
                return
            self.check_havoc(lid, pre, h0)
            view.i = isimp(i + 1)
            for nm, c in inv.props(self, view):
                self.oblige_prop('%s: invariant %s preserved' % (fr.fn.get('name'), nm), c, 'invariant')
            raise LoopCut()
        inv.exit(self, view)

    def oblige_prop(self, name, c, kind):
        if isinstance(c, tuple) and c and c[0] == 'eq':
            return self.oblige_eq(name, c[1], c[2], kind, soft=True)
        return self.oblige(name, c, kind, soft=True)

    def assume_prop(self, c):
        if isinstance(c, tuple) and c and c[0] == 'eq':
            raise Unsupported('assumed equality; bind it in havoc()')
        self.assume(c)

    # ------------------------------------------------------------ expressions
    def as_lv(self, x, hint='tmp'):
        return x if isinstance(x, LV) else self.new(x, hint)

    def cond(self, n):
        v = self.rv(self.ev(n))
        return self.to_bool(v)

    def to_bool(self, v):
        if is_bool(v):
            return bsimp(v)
        if is_int(v):
            return cmpi('!=', v, 0)
        if isinstance(v, Ptr):
            return lnot(v.null)
        if isinstance(v, E):
            return cmp_real(self.ctx, '!=', v, ZERO)
        if isinstance(v, Uninit):
            raise Unsupported('branch on an uninitialised value')
        raise Unsupported('condition %r' % (v,))

    def ev(self, n):
        k = n['kind']
        m = getattr(self, 'e_' + k, None)
        if m is None:
            raise Unsupported('expression kind %s' % k)
        return m(n)

    def val(self, n):
        return self.rv(self.ev(n))

    def _inner(self, n):
        return self.ev(n['inner'][0])

    e_ParenExpr = e_ExprWithCleanups = e_CXXBindTemporaryExpr = _inner
    e_SubstNonTypeTemplateParmExpr = lambda self, n: self.ev([c for c in n['inner'] if c['kind'] != 'NonTypeTemplateParmDecl'][0])

    def e_ConstantExpr(self, n):
        return self.ev(n['inner'][0])

    def e_MaterializeTemporaryExpr(self, n):
        return self.ev(n['inner'][0])

    def e_IntegerLiteral(self, n):
        return int(n['value'])

    def e_CharacterLiteral(self, n):
        return int(n['value'])

    def e_FloatingLiteral(self, n):
        return const(Fraction(repr(float(n['value']))))

    def e_CXXBoolLiteralExpr(self, n):
        return bool(n['value'])

    def e_StringLiteral(self, n):
        return Opaque('string')

    def e_CXXNullPtrLiteralExpr(self, n):
        return Ptr(None)

    def e_GNUNullExpr(self, n):
        return 0

    def e_CXXThisExpr(self, n):
        t = self.frames[-1].this
        if t is None:
            raise Unsupported('this')
        return Ptr(t)

    def e_CXXDefaultArgExpr(self, n):
        inner = n.get('inner')
        if inner:
            return self.ev(inner[0])
        # older clang: default argument not in the tree
        return DEFAULT_ARG

    def e_CXXDefaultInitExpr(self, n):
        inner = n.get('inner')
        if inner:
            return self.ev(inner[0])
        raise Unsupported('default init')

    def e_CXXThrowExpr(self, n):
        raise CxxThrow('exception')

    def e_LambdaExpr(self, n):
        raise Unsupported('lambda')

    def e_UnaryExprOrTypeTraitExpr(self, n):
        if n.get('name') == 'sizeof':
            t = (n.get('argType') or {}).get('qualType', '')
            if t == 'double':
                return 8
            if t == 'int':
                return 4
            if not t and n.get('inner'):
                it = strip_cv(ty(n['inner'][0]))
                if it == 'double':
                    return 8
                if it == 'int':
                    return 4
        raise Unsupported('sizeof')

    def e_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        if k in ('VarDecl', 'ParmVarDecl', 'BindingDecl'):
            for f in (self.frames[-1],):
                if d['id'] in f.env:
                    lv = f.env[d['id']]
                    v = self.heap.get(lv.loc) if not lv.path else None
                    return lv
            if d.get('name') in ('cout', 'cerr', 'cin'):
                return Opaque('stream')
            return self.global_var(d)
        if k == 'EnumConstantDecl':
            e = self.frames[-1].tu.by_id.get(d['id'])
            if e is not None and 'enumvalue' in e:
                return e['enumvalue']
            return self.enum_value(d)
        if k in cast.FUNCS:
            return Opaque(('fn', d))
        if k == 'NonTypeTemplateParmDecl':
            raise Unsupported('template parameter')
        raise Unsupported('reference to %s' % k)

    def enum_value(self, d):
        v = {'Success': 0, 'NumericalIssue': 1, 'NoConvergence': 2, 'InvalidInput': 3}.get(d.get('name'))
        if v is not None and 'ComputationInfo' in ty(d):
            return v
        raise Unsupported('enum %s' % d.get('name'))

    def global_var(self, d):
        g = self.globals.get(d['id'])
        if g is not None:
            return g
        nm = d.get('name')
        tu = self.frames[-1].tu
        n = tu.by_id.get(d['id'])
        if n is not None and n.get('inner'):
            init = [x for x in n['inner'] if 'kind' in x]
            if init:
                g = self.bind(ty(n), self.ev(init[-1]), nm)
                self.globals[d['id']] = g
                return g
        raise Unsupported('global %s' % nm)

    def e_MemberExpr(self, n):
        base = self.ev(n['inner'][0])
        if n.get('isArrow'):
            base = self.deref(self.rv_keep(base))
        nm = n['name']
        rd = n.get('referencedMemberDecl')
        tu = self.frames[-1].tu
        d = tu.by_id.get(rd)
        if d is not None and d.get('kind') == 'VarDecl':
            return self.global_var(d)
        if isinstance(base, LV):
            v = self.load(base)
            if isinstance(v, Struct):
                if nm in v.fs:
                    x = v.fs[nm]
                    if isinstance(x, Ptr) and d is not None and is_refty(ty(d)):
                        return x.lv
                    return base / ('f', nm)
                raise Unsupported('no field %s in %s' % (nm, v.t))
            if isinstance(v, Uninit):
                raise Unsupported('field of uninitialised %s' % v.what)
            raise Unsupported('field %s of %r' % (nm, v))
        if isinstance(base, Struct):
            if nm in base.fs:
                return base.fs[nm]
        raise Unsupported('member %s of %r' % (nm, base))

    def rv_keep(self, x):
        return self.load(x)

    def deref(self, p):
        if isinstance(p, Ptr):
            if p.null is not False:
                c = lnot(p.null)
                self.bounds('pointer dereference', c)
            if p.lv is None:
                raise Infeasible()
            return p.lv
        if isinstance(p, Uninit):
            raise Unsupported('dereference of uninitialised pointer')
        raise Unsupported('dereference of %r' % (p,))

    def e_ArraySubscriptExpr(self, n):
        a = self.load(self.ev(n['inner'][0]))
        i = self.val(n['inner'][1])
        if isinstance(a, Ptr):
            return self.ptr_add(a, i).lv
        if isinstance(a, LV):
            return a / ('at', i)
        if isinstance(a, Vec):
            lv = self.ev(strip(n['inner'][0]))
            self.bounds('array element', land(cmpi('>=', i, 0), cmpi('<', i, a.n)))
            return lv / ('at', i)
        raise Unsupported('subscript of %r' % (a,))

    def ptr_add(self, p, d):
        if p.lv is None:
            raise Unsupported('arithmetic on null pointer')
        path = p.lv.path
        if path and path[-1][0] in ('at', 'lin'):
            return Ptr(LV(p.lv.loc, path[:-1] + ((path[-1][0], iadd(path[-1][1], d)),)), p.null)
        if ikey(d) == '0':
            return p
        raise Unsupported('pointer arithmetic')

    def e_ImplicitCastExpr(self, n):
        ck = n.get('castKind')
        x = n['inner'][0]
        if ck == 'LValueToRValue':
            v = self.load(self.ev(x))
            if isinstance(v, Uninit):
                self.note_uninit(v)
            return v
        v = self.ev(x)
        return self.cast(ck, v, ty(n), ty(x))

    def note_uninit(self, v):
        pass

    def cast(self, ck, v, t, ft):
        if ck in ('NoOp', 'UncheckedDerivedToBase', 'DerivedToBase', 'FunctionToPointerDecay',
                  'ConstructorConversion', 'UserDefinedConversion', 'BuiltinFnToFnPtr'):
            return v
        if ck == 'ArrayToPointerDecay':
            if isinstance(v, LV):
                return Ptr(v / ('at', 0), False)
            return v
        if ck == 'IntegralToFloating':
            v = self.rv(v)
            if is_bool(v):
                return T.ite(B(v), ONE, ZERO) if not isinstance(v, bool) else const(int(v))
            if isinstance(v, Uninit):
                return v
            return toreal(v)
        if ck == 'IntegralCast':
            v = self.rv(v)
            if is_bool(v):
                return (1 if v else 0) if isinstance(v, bool) else isimp(z3.If(v, I(1), I(0)))
            t = strip_cv(t)
            if t in UNSIGNED and is_int(v):
                if isinstance(v, int):
                    return v if v >= 0 else v + 2 ** UNSIGNED[t]
                if strip_cv(ft) in UNSIGNED or self.ctx.entails(v >= 0):
                    return v
                return isimp(z3.If(v >= 0, v, v + 2 ** UNSIGNED[t]))
            if t in ('int', 'long') and strip_cv(ft) in UNSIGNED and UNSIGNED[strip_cv(ft)] == 64:
                # a wrapped difference of sizes is negative again
                if isinstance(v, int):
                    return v - 2 ** 64 if v >= 2 ** 63 else v
                if is_int(v) and '184467440737' in v.sexpr():
                    return isimp(z3.If(v >= 2 ** 63, v - 2 ** 64, v))
            return v
        if ck == 'IntegralToBoolean':
            v = self.rv(v)
            return self.to_bool(v)
        if ck in ('PointerToBoolean', 'FloatingToBoolean'):
            return self.to_bool(self.rv(v))
        if ck == 'FloatingCast':
            return self.rv(v)
        if ck == 'FloatingToIntegral':
            e = const(self.rv(v))
            p = Normalizer(self.ctx).normal(e)
            if not p:
                return 0
            if len(p) == 1 and list(p.values())[0].atoms == [] and not list(p.values())[0].binders:
                c = list(p.values())[0].coef
                return abs(c.numerator) // c.denominator * (1 if c >= 0 else -1)
            r = to_integer(e)
            if r is not None:
                return isimp(r)
            r = T.real(self.ctx, e)
            return isimp(z3.If(r >= 0, z3.ToInt(r), -z3.ToInt(-r)))
        if ck == 'NullToPointer':
            return Ptr(None)
        if ck in ('BitCast', 'BaseToDerived'):
            return v
        if ck == 'ToVoid':
            return None
        if ck == 'LValueToRValue':
            return self.load(v)
        raise Unsupported('cast %s' % ck)

    def e_CXXStaticCastExpr(self, n):
        ck = n.get('castKind')
        v = self.ev(n['inner'][0])
        return self.cast(ck, v, ty(n), ty(n['inner'][0]))

    e_CStyleCastExpr = e_CXXStaticCastExpr
    e_CXXReinterpretCastExpr = e_CXXStaticCastExpr

    def e_CXXConstCastExpr(self, n):
        return self.ev(n['inner'][0])

    def e_CXXFunctionalCastExpr(self, n):
        return self.e_CXXStaticCastExpr(n)

    def e_UnaryOperator(self, n):
        op = n['opcode']
        if op == '&':
            x = self.ev(n['inner'][0])
            v = self.load(x) if isinstance(x, LV) else x
            if isinstance(x, LV):
                return Ptr(x, False)
            raise Unsupported('address of a value')
        if op == '*':
            return self.deref(self.rv_keep(self.ev(n['inner'][0])))
        if op in ('++', '--'):
            lv = self.ev(n['inner'][0])
            v = self.load(lv)
            d = 1 if op == '++' else -1
            nv = self.ptr_add(v, d) if isinstance(v, Ptr) else (iadd(v, d) if is_int(v) else add(v, const(d)) if isinstance(v, E) else self.need(v))
            self.store(lv, nv)
            return v if n.get('isPostfix') else lv
        v = self.rv(self.ev(n['inner'][0]))
        if op == '!':
            return lnot(self.to_bool(v))
        if op == '-':
            if is_int(v):
                r = isimp(-I(v))
                t = strip_cv(ty(n))
                return r
            if isinstance(v, E):
                return mul(-1, v)
        if op == '+':
            return v
        raise Unsupported('unary %s on %r' % (op, v))

    def need(self, v):
        if isinstance(v, Uninit):
            raise Unsupported('use of uninitialised value %s' % v.what)
        raise Unsupported('value %r' % (v,))

    def e_BinaryOperator(self, n):
        op = n['opcode']
        a, b = n['inner']
        if op == '=':
            # C++17: right side first
            rv = self.ev(b)
            v = self.load(rv)
            lv = self.ev(a)
            if isinstance(v, MapVal):
                v = self.rv(v)
            self.store(lv, self.coerce(v, ty(a)))
            return lv
        if op == ',':
            self.ev(a)
            return self.ev(b)
        if op in ('&&', '||'):
            x = self.cond(a)
            if isinstance(x, bool):
                if op == '&&':
                    return self.cond(b) if x else False
                return True if x else self.cond(b)
            if pure(b):
                # evaluate the right side under the left one
                g = x if op == '&&' else bsimp(z3.Not(x))
                if self.quick_entails(z3.Not(B(g))):
                    return op == '||'
                ctx0 = self.ctx
                self.ctx = ctx0.child([g])
                try:
                    y = self.cond(b)
                finally:
                    self.ctx = ctx0
                return land(x, y) if op == '&&' else lor(x, y)
            if op == '&&':
                return self.cond(b) if self.decide(x) else False
            return True if self.decide(x) else self.cond(b)
        x, y = self.rv(self.ev(a)), self.rv(self.ev(b))
        return self.binop(op, x, y, ty(n))

    def binop(self, op, x, y, t=''):
        if isinstance(x, Uninit) or isinstance(y, Uninit):
            self.need(x if isinstance(x, Uninit) else y)
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            return self.ptrop(op, x, y)
        if is_bool(x) and not (op in ('==', '!=') and is_bool(y)):
            x = (1 if x else 0) if isinstance(x, bool) else isimp(z3.If(x, I(1), I(0)))
        if is_bool(y) and not (op in ('==', '!=') and is_bool(x)):
            y = (1 if y else 0) if isinstance(y, bool) else isimp(z3.If(y, I(1), I(0)))
        if is_bool(x) and is_bool(y):
            e = bsimp(B(x) == B(y))
            return e if op == '==' else lnot(e)
        if is_int(x) and is_int(y):
            if op in ('<', '<=', '>', '>=', '==', '!='):
                return cmpi(op, x, y)
            if op == '+':
                return iadd(x, y)
            if op == '-':
                r = isubt(x, y)
                tt = strip_cv(t)
                if tt in UNSIGNED and not (isinstance(r, int) and r >= 0) and not self.ctx.entails(I(r) >= 0):
                    r = isimp(z3.If(I(r) >= 0, I(r), I(r) + 2 ** UNSIGNED[tt]))
                return r
            if op == '*':
                return imul(x, y)
            if op in ('/', '%'):
                if isinstance(x, int) and isinstance(y, int) and y != 0:
                    q = abs(x) // abs(y) * (1 if (x >= 0) == (y > 0) else -1)
                    return q if op == '/' else x - q * y
                self.bounds('integer division', cmpi('!=', y, 0))
                nn = self.ctx.entails(B(land(cmpi('>=', x, 0), cmpi('>', y, 0))))
                if nn:
                    return isimp(I(x) / I(y)) if op == '/' else isimp(I(x) % I(y))
                ax = z3.If(I(x) >= 0, I(x), -I(x))
                ay = z3.If(I(y) >= 0, I(y), -I(y))
                q = z3.If((I(x) >= 0) == (I(y) > 0), ax / ay, -(ax / ay))
                return isimp(q) if op == '/' else isimp(I(x) - q * I(y))
            raise Unsupported('integer %s' % op)
        if isinstance(x, E) or isinstance(y, E):
            x, y = const(x), const(y)
            if op in ('<', '<=', '>', '>=', '==', '!='):
                c = cmp_real(self.ctx, op, x, y)
                if self.nan_sqrt:
                    for a in sqrt_args(x) + sqrt_args(y):
                        ok = cmp_real(self.ctx, '>=', a, ZERO)
                        c = land(ok, c) if op != '!=' else lor(lnot(ok), c)
                return c
            if op == '+':
                return add(x, y)
            if op == '-':
                return add(x, mul(-1, y))
            if op == '*':
                return mul(x, y)
            if op == '/':
                return mul(x, T.inv(y))
        raise Unsupported('%r %s %r' % (x, op, y))

    def ptrop(self, op, x, y):
        if isinstance(x, Ptr) and is_int(y) and op in ('+', '-'):
            return self.ptr_add(x, y if op == '+' else isimp(-I(y)))
        if isinstance(y, Ptr) and is_int(x) and op == '+':
            return self.ptr_add(y, x)
        if is_int(x) and x == 0:
            x = Ptr(None)
        if is_int(y) and y == 0:
            y = Ptr(None)
        if isinstance(x, Ptr) and isinstance(y, Ptr) and op in ('==', '!='):
            if x.lv is None:
                e = y.null
            elif y.lv is None:
                e = x.null
            elif x.lv.key() == y.lv.key():
                e = True
            elif x.lv.loc != y.lv.loc and x.null is False and y.null is False:
                e = False
            elif x.lv.path and len(x.lv.path) == len(y.lv.path) and x.lv.path[-1][0] == y.lv.path[-1][0] == 'at' and \
                    LV(x.lv.loc, x.lv.path[:-1]).key() == LV(y.lv.loc, y.lv.path[:-1]).key():
                e = cmpi('==', x.lv.path[-1][1], y.lv.path[-1][1])
            else:
                # the model does not place the objects: either outcome
                e = bool(self.choose('pointer comparison'))
            return e if op == '==' else lnot(e)
        raise Unsupported('pointer %s' % op)

    def e_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        rhs = self.rv(self.ev(n['inner'][1]))
        lv = self.ev(n['inner'][0])
        cur = self.load(lv)
        if is_int(cur) and isinstance(rhs, E) and op in ('+', '-', '*') and rhs.op == 'c' and rhs.a[0].denominator == 1:
            rhs = int(rhs.a[0])         # integer and an integral constant of real type
        elif is_int(cur) and isinstance(rhs, E):
            raise Unsupported('integer %s= real' % op)
        v = self.binop(op, cur, rhs, ty(n['inner'][0]))
        self.store(lv, self.coerce(v, ty(n['inner'][0])))
        return lv

    def e_ConditionalOperator(self, n):
        c = self.cond(n['inner'][0])
        if not isinstance(c, bool) and pure(n['inner'][1]) and pure(n['inner'][2]) and self.fork_merge:
            ctx0 = self.ctx
            self.ctx = ctx0.child([c])
            x = self.rv(self.ev(n['inner'][1]))
            self.ctx = ctx0.child([z3.Not(c)])
            y = self.rv(self.ev(n['inner'][2]))
            self.ctx = ctx0
            return vite(c, x, y)
        if self.decide(c):
            return self.ev(n['inner'][1])
        return self.ev(n['inner'][2])

    def e_InitListExpr(self, n):
        vals = [self.load(self.ev(x)) for x in n.get('inner', [])]
        t = strip_cv(ty(n))
        rec = self.find_rec(t)
        if rec is not None:
            fs = self.rec_fields(rec)
            d = {}
            for (f, ft, node), v in zip(fs, vals):
                d[f] = self.coerce(v, ft)
            for f, ft, node in fs[len(vals):]:
                init = [y for y in node.get('inner', []) if 'kind' in y and y['kind'].endswith(('Expr', 'Literal', 'Operator', 'ExprWithCleanups'))]
                d[f] = self.rv_init(init[0], ft) if init else self.default_of(ft, f)
            return Struct(rec['qual'], d)
        if len(vals) == 1 and not re.search(r'\[|vector|array|initializer', t):
            return vals[0]
        m = re.match(r'^(.*)\[(\d+)\]$', t)
        tot = int(m.group(2)) if m else len(vals)
        if m and n.get('array_filler') is not None and len(vals) < tot:
            et = m.group(1).strip()
            z = ZERO if et in REAL_T else 0
            vals = vals + [z] * (tot - len(vals))
        if t.startswith('std::array') or re.match(r'^array<', t):
            if len(vals) == 1 and isinstance(vals[0], Vec):
                return vals[0]
        return const_vec(vals)

    def e_CXXStdInitializerListExpr(self, n):
        return self.ev(n['inner'][0])

    def e_ImplicitValueInitExpr(self, n):
        t = strip_cv(ty(n))
        if t in REAL_T:
            return ZERO
        if t in INT_T:
            return 0
        if t == 'bool':
            return False
        raise Unsupported('value init of %s' % t)

    e_CXXScalarValueInitExpr = e_ImplicitValueInitExpr

    # ---- construction
    def e_CXXConstructExpr(self, n):
        import eig
        t = strip_cv(ty(n))
        t = ALIASES.get(t, t)
        anodes = n.get('inner', []) or []
        d = eigen_dims(t)
        if d is not None or is_map_t(t):
            return eig.construct(self, n, t, d, [self.ev(x) for x in anodes])
        if re.match(r'^(?:const )?Eigen::PermutationMatrix<', t):
            return eig.construct_other(self, n, t, [self.ev(x) for x in anodes])
        if re.match(r'^(?:Eigen::)?Ref<', t) and anodes and all(x.get('kind') == 'CXXDefaultArgExpr' for x in anodes[1:]):
            return self.ev(anodes[0])
        if is_block_t(t) or re.match(r'^(?:Eigen::)?', t).group(0) and t.startswith('Eigen::'):
            if len(anodes) == 1:
                return self.ev(anodes[0])
            return eig.construct_other(self, n, t, [self.ev(x) for x in anodes])
        rec = self.find_rec(t)
        if rec is not None and not t.startswith('std::'):
            args = [self.ev(x) for x in anodes]
            args = [a for a in args if a is not DEFAULT_ARG]
            ct = n.get('ctorType', {})
            cs = self.contracts.get('ctor ' + rec['qual'])
            if cs is not None:
                self.used_contracts.add('ctor ' + rec['qual'])
                return cs(self, None, args)
            return self.construct(rec, args, ct.get('desugaredQualType') or ct.get('qualType'))
        import stdmodel
        return stdmodel.construct(self, n, t, [self.ev(x) for x in anodes])

    e_CXXTemporaryObjectExpr = e_CXXConstructExpr

    def e_CXXNewExpr(self, n):
        inner = [c for c in n['inner'] if 'kind' in c]
        # placement new of a Map
        init = [c for c in inner if c['kind'] in ('CXXConstructExpr', 'CXXTemporaryObjectExpr')]
        place = [c for c in inner if c not in init]
        if n.get('isPlacement') and init and place:
            v = self.ev(init[0])
            p = self.load(self.ev(place[-1]))
            if isinstance(p, Ptr):
                if isinstance(v, LV):
                    # view of an existing matrix
                    mv = self.load(v)
                    if isinstance(mv, Mat):
                        v = self.view_of(v, mv)
                self.store(p.lv, v)
                return p
        if init and not n.get('isPlacement'):
            v = self.load(self.ev(init[0]))
            return Ptr(self.new(v, 'heap'), False)
        raise Unsupported('new expression')

    def view_of(self, lv, m):
        path = lv.path
        if path and path[-1][0] == 'map':
            return MapVal(LV(lv.loc, path[:-1]), path[-1][1], path[-1][2])
        return MapVal(lv, m.rows, m.cols)

    def e_CXXDeleteExpr(self, n):
        return None

    # ---- calls
    def callee(self, n):
        c = strip(n['inner'][0])
        return c

    def argvals(self, nodes):
        out = []
        for x in nodes:
            v = self.ev(x)
            if v is DEFAULT_ARG:
                continue
            out.append(v)
        return out

    def e_CallExpr(self, n):
        import stdmodel
        c = self.callee(n)
        if c['kind'] == 'DeclRefExpr':
            d = c['referencedDecl']
            nm = d.get('name')
            fn = self.lookup(d['id'])
            if fn is not None and (cast.has_body(fn) or self.resolve(fn) is not None or
                                   self.contract_for(fn.get('qualname'), fn) is not None):
                return self.call(fn, None, self.argvals(n['inner'][1:]))
            return stdmodel.call(self, n, nm, n['inner'][1:], ty(n), d)
        if c['kind'] == 'MemberExpr':
            return self.e_CXXMemberCallExpr(n)
        raise Unsupported('call through %s' % c['kind'])

    def e_CXXMemberCallExpr(self, n):
        import eig
        import stdmodel
        me = n['inner'][0]
        while me['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            me = me['inner'][0]
        if me['kind'] != 'MemberExpr':
            raise Unsupported('member call through %s' % me['kind'])
        base = self.ev(me['inner'][0])
        if me.get('isArrow'):
            base = self.deref(self.rv_keep(base))
        fid = me.get('referencedMemberDecl')
        fn = self.lookup(fid)
        nm = me['name']
        if fn is not None and fn.get('kind') in cast.FUNCS:
            d = self.resolve(fn)
            if d is not None or self.contract_for(fn.get('qualname'), fn) is not None or self.is_virtual(fn):
                virt = not has_qualifier(me)
                return self.call(fn, self.as_lv(base, 'obj'), self.argvals(n['inner'][1:]), virtual=virt)
        v = self.load(base)
        args = n['inner'][1:]
        if isinstance(v, Struct) and v.t == '$perm':
            return eig.perm_method(self, base, v, nm, args)
        if isinstance(v, (Mat, MapVal)) or (isinstance(v, E) and nm in eig.METHODS):
            return eig.method(self, base, v, nm, args, n, me)
        return stdmodel.method(self, base, v, nm, args, n, me)

    def e_CXXOperatorCallExpr(self, n):
        import eig
        import stdmodel
        c = strip(n['inner'][0])
        d = c.get('referencedDecl', {})
        op = (d.get('name') or '').replace('operator', '', 1)
        fn = self.lookup(d.get('id'))
        args = n['inner'][1:]
        if op in ('<<', ',', '>>') and self.is_stream(args[0]):
            return Opaque('stream')
        if fn is not None and fn.get('kind') in cast.FUNCS and self.resolve(fn) is not None:
            if fn.get('kind') == 'CXXMethodDecl':
                this = self.as_lv(self.ev(args[0]), 'obj')
                return self.call(fn, this, self.argvals(args[1:]))
            return self.call(fn, None, self.argvals(args))
        if fn is not None and op == '=' and fn.get('isImplicit', True) and fn.get('kind') == 'CXXMethodDecl':
            v = self.load(self.ev(args[1]))
            lv = self.ev(args[0])
            if isinstance(v, Struct):
                self.store(lv, v)
                return lv
        if op == '=':
            rv = self.ev(args[1])
            lv = self.ev(args[0])
            return self.assign(lv, rv, n)
        a = [self.ev(x) for x in args]
        vs = [self.load(x) for x in a]
        if isinstance(vs[0], (Mat, MapVal)) or (len(vs) > 1 and isinstance(vs[1], (Mat, MapVal))) or isinstance(vs[0], eig.Comma):
            return eig.operator(self, op, a, vs, n, d)
        return stdmodel.operator(self, op, a, vs, n, args)

    def is_stream(self, n):
        t = ty(n)
        if 'stream' in t:
            return True
        return False

    def assign(self, lv, rv, n):
        import eig
        v = self.load(rv)
        if isinstance(v, MapVal):
            v = self.rv(v)
        if isinstance(v, Struct) and v.t == '$perm' and isinstance(lv, LV):
            self.store(lv, v)
            return lv
        if not isinstance(lv, LV):
            if isinstance(lv, (Mat,)):
                raise Unsupported('assignment to a temporary')
            raise Unsupported('assignment to %r' % (lv,))
        cur = self.load(lv)
        if isinstance(v, (Mat,)) or isinstance(cur, (Mat, MapVal)):
            return eig.assign(self, lv, cur, v, n)
        if isinstance(v, Uninit) and not isinstance(cur, (Struct, Vec, Ptr)):
            pass
        self.store(lv, self.coerce(v, strip_cv(ty(n))) if isinstance(cur, E) else v)
        return lv


DEFAULT_ARG = Opaque('default argument')


class View:
    """access to locals by name, for invariants"""

    def __init__(self, ex, fr):
        self.ex = ex
        self.fr = fr
        self.names = {}
        self.sets = {}
        ids = {}
        for x in walk(fr.fn):
            if x.get('kind') in ('VarDecl', 'ParmVarDecl') and x.get('id') in fr.env:
                ids[x['name']] = x['id'] if 'name' in x else None
        self.names = ids

    def lv(self, name):
        if name not in self.names:
            raise Unsupported('no local named %s' % name)
        lv = self.fr.env[self.names[name]]
        return lv

    def __getitem__(self, name):
        return self.ex.rv(self.lv(name))

    def __setitem__(self, name, v):
        self.sets[name] = v
        self.ex.store(self.lv(name), v)


class AutoHavoc(Exception):
    def __init__(self, lid, cells):
        self.lid, self.cells = lid, cells


class Invariant:
    """loop invariant: havoc() installs an arbitrary state, props() lists facts"""

    def init(self, ex, s):
        pass

    def havoc(self, ex, s):
        raise NotImplementedError

    def props(self, ex, s):
        raise NotImplementedError

    def exit(self, ex, s):
        """called where the loop ends"""


def const_vec(vals):
    vals = list(vals)

    def f(k):
        if isinstance(k, int):
            return vals[k] if 0 <= k < len(vals) else Uninit()
        r = vals[-1]
        for i in range(len(vals) - 2, -1, -1):
            r = vite(cmpi('==', k, i), vals[i], r)
        return r
    return Vec(len(vals), f)


def sqrt_args(e):
    """arguments of the square roots in a term"""
    if e.op in ('+', '*'):
        return [a for x in e.a[0] for a in sqrt_args(x)]
    if e.op == 'ite':
        return [a for x in e.a[1:] for a in sqrt_args(x)]
    if e.op == 'fn':
        r = [a for x in e.a[1] if isinstance(x, E) for a in sqrt_args(x)]
        return r + [e.a[1][0]] if e.a[0] == 'sqrt' else r
    return []


def to_integer(e):
    """the integer a real term denotes, if it is built from integers"""
    if e.op == 'c':
        return I(int(e.a[0])) if e.a[0].denominator == 1 else None
    if e.op == 'i':
        return I(e.a[0])
    if e.op == 'ite':
        x, y = to_integer(e.a[1]), to_integer(e.a[2])
        return None if x is None or y is None else z3.If(e.a[0], x, y)
    if e.op in ('+', '*'):
        xs = [to_integer(x) for x in e.a[0]]
        if any(x is None for x in xs):
            return None
        r = xs[0]
        for x in xs[1:]:
            r = r + x if e.op == '+' else r * x
        return r
    return None


def is_one(x):
    return isinstance(x, int) and x == 1


def norm_t(t):
    return re.sub(r'\s+', '', re.sub(r'\b(conex|Eigen|std)::', '', t))


_hd = {}


def has_dollar(f):
    k = f.get_id()
    r = _hd.get(k)
    if r is None:
        r = (f, any(nm.startswith('$') for nm in int_vars(f)))
        _hd[k] = r
    return r[1]


def only_int(f):
    st = [f]
    seen = set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_quantifier(t):
            return False
        if z3.is_real(t):
            return False
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() > 0:
            return False
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and z3.is_bool(t):
            return False
        st.extend(t.children())
    return True


def concrete(f):
    """no symbol abstracts a real function, sum or array"""
    for nm in z_syms(f):
        if nm.startswith('$') or nm in T.FNS or nm in T.SUMS or nm in T.BIGS or nm.startswith('psum['):
            return False
    return True


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict) and 'kind' in x:
            yield x
            st.extend(reversed(x.get('inner', []) or []))


def find_loops(n):
    return [x for x in walk(n) if x['kind'] in ('ForStmt', 'WhileStmt', 'DoStmt', 'CXXForRangeStmt')]


def has_jump(n):
    return any(x['kind'] in ('ReturnStmt', 'BreakStmt', 'ContinueStmt', 'CXXThrowExpr', 'ForStmt', 'WhileStmt', 'CXXForRangeStmt') for x in walk(n))


def pure(n):
    for x in walk(n):
        k = x['kind']
        if k == 'BinaryOperator' and x['opcode'] == '=':
            return False
        if k in ('CompoundAssignOperator', 'CXXNewExpr', 'CXXThrowExpr', 'LambdaExpr'):
            return False
        if k == 'UnaryOperator' and x['opcode'] in ('++', '--'):
            return False
        if k in ('CallExpr',):
            c = strip(x['inner'][0])
            if c.get('referencedDecl', {}).get('name') not in ('sqrt', 'fabs', 'abs', 'exp', 'pow', 'max', 'min', 'is_empty', 'size_of', 'Rank'):
                return False
        if k == 'CXXMemberCallExpr':
            c = x['inner'][0]
            if c.get('name') not in ('rows', 'cols', 'size', 'empty', 'at', 'norm', 'squaredNorm', 'dot', 'maxCoeff',
                                     'minCoeff', 'sum', 'trace', 'data', 'get', 'back', 'front', 'begin', 'end',
                                     'SizeOfDualVariable', 'number_of_variables', 'NumberOfConstraints', 'GetNumberOfVariables',
                                     'array', 'abs', 'segment', 'head', 'tail', 'row', 'col'):
                return False
        if k == 'CXXOperatorCallExpr':
            c = strip(x['inner'][0])
            if c.get('referencedDecl', {}).get('name') in ('operator=', 'operator+=', 'operator-=', 'operator*=', 'operator++', 'operator<<'):
                return False
    return True


def has_qualifier(me):
    return False


def strip_to_ctor(n):
    while n is not None and n['kind'] not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        inner = [c for c in n.get('inner', []) if 'kind' in c]
        if not inner:
            return None
        n = inner[0]
    return n


def flatten_cases(body):
    """[(labels, is_default, stmt)]"""
    out = []
    for st in body.get('inner', []) or []:
        labels, isdef = [], False
        while st['kind'] in ('CaseStmt', 'DefaultStmt'):
            if st['kind'] == 'CaseStmt':
                labels.append(st['inner'][0])
                st = st['inner'][-1]
            else:
                isdef = True
                st = st['inner'][-1]
        out.append((labels, isdef, st))
    return out


def sub_ok(b, i):
    """may the index i be substituted in the z3 term b?"""
    if isinstance(b, bool) or isinstance(b, int):
        return
    nm = i.decl().name()
    c = bsub(b, [(i, z3.Int('?sub'))]) if z3.is_expr(b) else b
    if nm in z_syms(c):
        raise Unsupported('condition depends on the loop index through an abstracted term')


def check_sub(e, i):
    """guards inside e must be substitutable"""
    st = [e]
    while st:
        x = st.pop()
        if x.op == 'ite':
            sub_ok(x.a[0], i)
            st += [x.a[1], x.a[2]]
        elif x.op in ('+', '*'):
            st += list(x.a[0])
        elif x.op == 'fn':
            st += list(x.a[1])
        elif x.op in ('sum', 'big'):
            st.append(x.a[-1])


def sym_name(s):
    if isinstance(s, E):
        return s.a[0] if s.op == 'v' else None
    if z3.is_expr(s):
        return s.decl().name()


def is_sym(w, s):
    if isinstance(w, E) and isinstance(s, E):
        return w.op == 'v' and s.op == 'v' and w.a[0] == s.a[0] and \
            all(ikey(a) == ikey(b) for a, b in zip(w.a[1], s.a[1]))
    if z3.is_expr(w) and z3.is_expr(s):
        return w.eq(s)
    return False


def names_in(v, names):
    if isinstance(v, E):
        return e_syms(v) & names
    return z_syms(v) & names


def strip_ite(w, s):
    """w - s as a sum of guarded increments when w = s + ... syntactically; else None"""
    if is_sym(w, s):
        return ZERO
    if w.op == '+':
        rest = [x for x in w.a[0] if not is_sym(x, s)]
        if len(rest) == len(w.a[0]) - 1:
            return add(*rest)
        # nested: one summand contains s
        idx = [k for k, x in enumerate(w.a[0]) if x.op == 'ite' and e_mentions(x, {sym_name(s)})]
        if len(idx) == 1:
            r = strip_ite(w.a[0][idx[0]], s)
            if r is not None:
                return add(r, *[x for k, x in enumerate(w.a[0]) if k != idx[0]])
        return None
    if w.op == 'ite':
        a, b = strip_ite(w.a[1], s), strip_ite(w.a[2], s)
        if a is None or b is None:
            return None
        return T.ite(w.a[0], a, b)
    return None


def decomp(w, s, whole=False):
    """[(guard, value or None for unchanged)] in order; whole: values that do not depend on s are not split"""
    out = []
    nm = {sym_name(s)} if whole and isinstance(s, E) else None

    def go(w, g):
        if is_sym(w, s):
            out.append((g, None))
            return True
        if isinstance(w, E) and w.op == 'ite' and (nm is None or e_mentions(w, nm)):
            return go(w.a[1], land(g, w.a[0])) and go(w.a[2], land(g, lnot(w.a[0])))
        if z3.is_expr(w) and z3.is_app(w) and w.decl().kind() == z3.Z3_OP_ITE:
            return go(w.arg(1), land(g, w.arg(0))) and go(w.arg(2), land(g, lnot(w.arg(0))))
        out.append((g, w if not z3.is_expr(w) or not z3.is_int(w) else isimp(w)))
        return True
    go(w, True)
    return [(g, v) for g, v in out if g is not False]


def conjuncts(g):
    if isinstance(g, bool):
        return []
    if z3.is_and(g):
        out = []
        for c in g.children():
            out += conjuncts(c)
        return out
    if z3.is_not(g) and z3.is_or(g.arg(0)):
        out = []
        for c in g.arg(0).children():
            out += conjuncts(bsimp(z3.Not(c)))
        return out
    return [g]


def solve_index(g, i):
    """an expression e with g => i == e, or None"""
    cs = conjuncts(g)
    nm = i.decl().name()
    for c in cs:
        if z3.is_eq(c) and z3.is_int(c.arg(0)):
            d = isimp(c.arg(0) - c.arg(1))
            if isinstance(d, int) or nm not in z_syms(d):
                continue
            r = coeff_of(d, i)
            if r and r[0] in (1, -1) and nm not in (z_syms(r[1]) if not isinstance(r[1], int) else ()):
                return isimp(-I(r[1]) * r[0])
    # two-sided inequalities  e <= i <= e
    les, ges = [], []
    for c in cs:
        r = T.solve_ineq(c, {nm: (i,)}) if z3.is_app(c) and c.num_args() >= 1 and not z3.is_eq(c) else None
        if r and r[0].decl().name() == nm:
            if r[1] == 'lt':
                les.append(isimp(I(r[2]) - 1))
            else:
                ges.append(r[2])
    for a in les:
        for b in ges:
            if ikey(a) == ikey(b):
                return a
    return None


def reads_of(v, nm):
    """index tuples at which the symbol nm is read in v"""
    if not isinstance(v, E):
        raise Unsupported('self-read of integer cell')
    out = []

    def go(e):
        if not e_mentions(e, {nm}):
            return
        o = e.op
        if o == 'v':
            out.append(e.a[1])
        elif o in ('+', '*'):
            for x in e.a[0]:
                go(x)
        elif o == 'ite':
            go(e.a[1]), go(e.a[2])
        elif o == 'fn':
            for x in e.a[1]:
                go(x)
        elif o == 'sum':
            go(e.a[3])
        else:
            raise Unsupported('self-read')
    go(v)
    return out


def replace_sym(v, s, old, oldf):
    """replace the symbol s in v by the value before the loop"""
    return repl_e(v, sym_name(s), old, oldf)


def repl_e(e, nm, val, oldf=None):
    if not e_mentions(e, {nm}):
        return e
    o = e.op
    go = lambda x: repl_e(x, nm, val, oldf)
    if o == 'v':
        return const(oldf(*e.a[1])) if oldf is not None and e.a[1] else val
    if o == '+':
        return add(*[go(x) for x in e.a[0]])
    if o == '*':
        return mul(*[go(x) for x in e.a[0]])
    if o == 'ite':
        return T.ite(e.a[0], go(e.a[1]), go(e.a[2]))
    if o == 'fn':
        return T.fn(e.a[0], *[go(x) for x in e.a[1]])
    if o == 'sum':
        return E('sum', e.a[0], e.a[1], e.a[2], go(e.a[3]))
    raise Unsupported('self-read')
