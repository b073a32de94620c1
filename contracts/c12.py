"""C12: the C interface: creation calls, options, statistics."""
from common import *
from c14 import vec_eq

ASSUMPTIONS = ['pointers are null or valid and the shapes of array arguments are consistent (asserted by the functions)',
               'adding a constraint on all variables succeeds and an accepted one is appended (contracts of C14)']


def eqi(a, b):
    return cmpi('==', a, b)


def prog_state(ex, **over):
    """a program at any point of its life: before initialisation there are no workspaces, afterwards at most two per constraint and two"""
    N, nws = ex.int('N', 0), ex.int('nws', 0)
    init = ex.choose('initialized')
    ex.assume(nws <= 2 * N + 2 if init else nws == 0)
    return program(ex, N, is_initialized=init, workspaces=Vec(nws, lambda k: Opaque('workspace')), **over), N


def adding(ex, prog, N, fn='Program::AddConstraint'):
    """additions by their contract: (recorded calls, uninterpreted acceptance of a listed addition)"""
    calls = []
    u = ex.bool('list accepted')

    def add(ex_, this, args):
        listed = len(args) > 1
        calls.append((value(ex, args[0]), value(ex, args[1]) if listed else None))
        ok = ex.decide(u) if listed else True
        if ok:
            p = prog / ('f', 'kkt_system_manager_') / ('f', 'eqs')
            e = ex.rv(p)
            ex.store(p, Vec(iadd(e.n, 1), lambda i: e.f(i), 'conex::Container'))
        return not ok
    ex.contracts[fn] = add
    return calls, u


def count(ex, prog):
    return ex.rv(prog / ('f', 'kkt_system_manager_') / ('f', 'eqs')).n


def outcome(ex, r, prog, N, calls, ok, idlv=None, returns_id=False):
    ex.oblige('does not throw', r[0] == 'ret')
    if ok:
        ex.oblige('one constraint is added', len(calls) == 1 and count(ex, prog) is not None)
        ex.oblige('one more constraint', eqi(count(ex, prog), iadd(N, 1)))
        if returns_id:
            ex.oblige('the identifier of the added constraint is returned', eqi(r[1], N))
        else:
            ex.oblige('success', lnot(B(r[1])) if is_bool(r[1]) else eqi(r[1], 0))
        if idlv is not None:
            ex.oblige('the identifier of the added constraint', eqi(ex.rv(idlv), N))
    else:
        ex.oblige('nothing is added', eqi(count(ex, prog), N))
        if returns_id:
            ex.oblige('no identifier is returned', cmpi('<', r[1], 0))
        else:
            ex.oblige('failure', B(r[1]) if is_bool(r[1]) else cmpi('!=', r[1], 0))


def creation(fn, arg, valid, data, callee='Program::AddConstraint'):
    @contract('C12', fn, [CAPI])
    def p(ex):
        prog, N = prog_state(ex)
        calls, _ = adding(ex, prog, N, callee)
        ints = [ex.int(a) for a in arg]
        nul, noid = ex.choose('null program'), ex.choose('null identifier')
        ok = not nul and not noid and ex.decide(valid(*ints))
        idlv = ex.new(ex.int('id0'), 'id')
        nv = I(ex.rv(prog / ('f', 'kkt_system_manager_')).fs['max_number_of_variables_'])
        r = ex.run(fn, [Ptr(None, True) if nul else ptr(prog)] + ints + [Ptr(None, True) if noid else ptr(idlv)])
        outcome(ex, r, prog, N, calls, ok, idlv if ok else None)
        if ok:
            ex.oblige('on all variables', calls[0][1] is None)
            data(ex, calls[0][0], nv, *ints)
    return p


def linear_data(ex, o, nv, k):
    ex.oblige('a linear inequality', o.t == 'conex::LinearConstraint')
    ex.oblige_eq('with zero operator', o.fs['constraint_matrix_'], Mat(k, nv, lambda i, j: ZERO))
    ex.oblige_eq('and zero affine term', o.fs['constraint_affine_'], Mat(k, 1, lambda i, j: ZERO))
    w = o.fs['workspace_']
    ex.oblige('its workspace has its dimensions', land(eqi(w.fs['n_'], k), eqi(w.fs['num_vars_'], nv)))


def soc_data(ex, o, nv, n):
    ex.oblige('a second-order cone', o.t == 'conex::SOCConstraint')
    ex.oblige('of the given order', eqi(o.fs['n_'], n))
    ex.oblige('its workspace has its dimension', eqi(o.fs['workspace_'].fs['n_'], n))


def lmi_data(ex, o, nv, n, d):
    t = o.t
    dims = [k for k in (1, 2, 4, 8) if ('MatrixAlgebra<%d>' % k in t) or (k == 8 and 'MatrixAlgebra<>' in t)]
    ex.oblige('a Hermitian cone', 'HermitianPsdConstraint' in t and len(dims) == 1)
    ex.oblige('of the given dimension', eqi(d, dims[0] if dims else 0))
    ex.oblige('of the given order', eqi(o.fs['workspace_'].fs['n_'], n))


creation('CONEX_NewLinearInequality', ['num_rows'], lambda k: k >= 1, linear_data)
creation('CONEX_NewLorentzConeConstraint', ['order'], lambda n: n >= 1, soc_data)
creation('CONEX_NewLinearMatrixInequality', ['order', 'dim'],
         lambda n, d: z3.And(n >= 1, z3.Or(d == 1, d == 2, d == 4, z3.And(d == 8, n <= 3))), lmi_data)


def cost_data(ex, Q, nv):
    ex.oblige_eq('a zero quadratic cost', Q, Mat(nv, nv, lambda i, j: ZERO))


creation('CONEX_NewQuadraticCost', [], lambda: z3.BoolVal(True), cost_data, 'Program::AddQuadraticCost')


@contract('C12', 'CONEX_SetNumberOfVariables', [CAPI])
def setnum(ex):
    prog, N = prog_state(ex)
    nul = ex.choose('null program')
    n = ex.int('n')
    man = prog / ('f', 'kkt_system_manager_')
    nv0 = ex.rv(man).fs['max_number_of_variables_']
    ok = not nul and ex.decide(z3.And(n >= 1, I(nv0) == 0))
    r = ex.run('CONEX_SetNumberOfVariables', [Ptr(None, True) if nul else ptr(prog), n])
    ex.oblige('does not throw', r[0] == 'ret')
    ex.oblige('accepted exactly when positive and not set before', eqi(r[1], 0) if ok else cmpi('!=', r[1], 0))
    ex.oblige('the number of variables', eqi(ex.rv(man).fs['max_number_of_variables_'], n if ok else nv0))


CFG = 'CONEX_SolverConfiguration'


def options(ex):
    """names of the options of the library and of the C interface"""
    lib = [f for f, _, _ in ex.rec_fields(ex.find_rec('conex::SolverConfiguration'))]
    api = [f for f, _, _ in ex.rec_fields(ex.find_rec(CFG))]
    return lib, api


def user_config(ex):
    rec = ex.find_rec(CFG)
    d = {}
    for f, t, _ in ex.rec_fields(rec):
        d[f] = ex.real('user.' + f) if strip_cv(t) in REAL_T else ex.int('user.' + f)
    return ex.new(Struct(rec['qual'], d), 'config'), d


@contract('C12', 'CONEX_SetDefaultOptions', [CAPI])
def defaults(ex):
    lib, api = options(ex)
    c = ex.new(Struct(ex.find_rec(CFG)['qual'], {f: Uninit(f) for f in api}), 'c')
    r = ex.run('CONEX_SetDefaultOptions', [ptr(c)])
    ex.oblige('does not throw', r[0] == 'ret')
    d = ex.construct(ex.find_rec('conex::SolverConfiguration'), [], None)
    got = ex.rv(c)
    ex.oblige('every option of the library is offered', sorted(lib) == sorted(api))
    for f in api:
        v = got.fs[f]
        ex.oblige('%s is initialised' % f, not isinstance(v, Uninit))
        if not isinstance(v, Uninit) and f in d.fs:
            w = d.fs[f]
            if is_int(v) or is_int(w):
                ex.oblige('%s has its default' % f, is_int(v) and is_int(w) and eqi(v, w))
            else:
                ex.oblige_eq('%s has its default' % f, v, w)
    r = ex.run('CONEX_SetDefaultOptions', [Ptr(None, True)])
    ex.oblige('null: does not throw', r[0] == 'ret')


def same_options(ex, got, d):
    for f, v in d.items():
        w = got.fs.get(f)
        ex.oblige('%s exists' % f, w is not None)
        if isinstance(v, E):
            ex.oblige_eq('%s reaches the solver' % f, w, v)
        else:
            ex.oblige('%s reaches the solver' % f, is_int(w) and eqi(w, v))


def memory(ex, name, n):
    """an array of n doubles; element k is name(k)"""
    m = ex.new(Vec(n, lambda k: var(name, k), 'double'), name)
    return Ptr(m / ('at', 0), False)


def solve(fn, b):
    @contract('C12', fn, [CAPI])
    def p(ex):
        c, d = user_config(ex)
        m = ex.int('m', 0)
        prog = program(ex, ex.int('N', 0))
        y = memory(ex, 'y', m)
        u = ex.bool('solved')
        got = []

        def slv(ex_, this, args):
            got.append(1)
            if b:
                ex.oblige_eq('the cost', value(ex, args.pop(0)), ex.vec('b', m))
            ex.oblige('the program', constraint_key(ex, args[0]) == prog.key())
            same_options(ex, value(ex, args[1]), d)
            q = ex.rv(args[2])
            ex.oblige('the result array', isinstance(q, Ptr) and q.lv.key() == y.lv.key())
            return u
        ex.contracts['conex::Solve'] = slv
        r = ex.run(fn, [ptr(prog)] + ([memory(ex, 'b', m), m] if b else []) + [ptr(c), y, m])
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('one solve', len(got) == 1)
        ex.oblige('the status of the solve is returned', eqi(iint(r[1]), z3.If(u, 1, 0)))


def iint(v):
    return z3.If(B(v), 1, 0) if is_bool(v) else v


def constraint_key(ex, a):
    v = a
    for _ in range(8):
        w = v.lv if isinstance(v, Ptr) else v
        if isinstance(w, LV):
            x = ex.load(w)
            if isinstance(x, Struct):
                return w.key()
            v = x
    return None


solve('CONEX_Solve', False)
solve('CONEX_Maximize', True)


@contract('C12', 'CONEX_AddDenseLinearConstraint', [CAPI])
def dense_linear(ex):
    prog, N = prog_state(ex)
    calls, _ = adding(ex, prog, N)
    n, m = ex.int('n', 0), ex.int('m', 0)
    r = ex.run('CONEX_AddDenseLinearConstraint', [ptr(prog), memory(ex, 'A', imul(n, m)), n, m, memory(ex, 'c', n), n])
    outcome(ex, r, prog, N, calls, True, returns_id=True)
    o, v = calls[0]
    ex.oblige('on all variables', v is None)
    ex.oblige('a linear inequality', o.t == 'conex::LinearConstraint')
    ex.oblige_eq('its operator', o.fs['constraint_matrix_'], Mat(n, m, lambda i, j: var('A', iadd(imul(j, n), i))))
    ex.oblige_eq('its affine term', o.fs['constraint_affine_'], ex.vec('c', n))


def dense_lmi(fn, sparse):
    @contract('C12', fn, [CAPI])
    def p(ex):
        prog, N = prog_state(ex)
        calls, u = adding(ex, prog, N)
        n, m = ex.int('n', 0), ex.int('m', 0)
        # the constructor by a recording contract: matrices, affine term
        def ctor(ex_, this, args):
            a = [value(ex, x) for x in args]
            return Struct('conex::DenseLMIConstraint', {'A': a[-2], 'c': a[-1], 'n': a[0] if len(a) == 3 else a[-1].rows})
        ex.contracts['ctor conex::DenseLMIConstraint'] = ctor
        args = [ptr(prog), memory(ex, 'A', imul(imul(n, n), m)), n, n, m, memory(ex, 'c', imul(n, n)), n, n]
        if sparse:
            vs = ex.new(ex.ivec('variables', m), 'vars')
            args += [Ptr(vs / ('at', 0), False), m]
        r = ex.run(fn, args)
        ok = True
        if sparse:
            ok = ex.decide(u) if calls else False
        outcome(ex, r, prog, N, calls, ok, returns_id=True)
        ex.oblige('one attempt', len(calls) == 1)
        o, v = calls[0]
        ex.oblige('a linear matrix inequality', o.t == 'conex::DenseLMIConstraint')
        ex.oblige('of order n', eqi(o.fs['n'], n))
        ex.oblige_eq('its affine term', o.fs['c'], Mat(n, n, lambda i, j: var('c', iadd(imul(j, n), i))))
        k = ex.int('k', 0)
        ex.oblige('one matrix per variable', eqi(o.fs['A'].n, m))
        with_(ex, k < m, lambda: ex.oblige_eq('its matrices', o.fs['A'].at(k), Mat(n, n, lambda i, j: var('A', iadd(imul(k, imul(n, n)), iadd(imul(j, n), i))))))
        if sparse:
            vec_eq(ex, 'on the given variables', v, m, lambda j: ex.rv(vs).at(j))
        else:
            ex.oblige('on all variables', v is None)


def with_(ex, c, f):
    ch = ex.ctx.child([B(c)])
    if ch.entails(z3.BoolVal(False)):
        return
    old, ex.ctx = ex.ctx, ch
    try:
        f()
    finally:
        ex.ctx = old


dense_lmi('CONEX_AddDenseLMIConstraint', False)
dense_lmi('CONEX_AddSparseLMIConstraint', True)


# ---- quadratic costs given as a matrix
def M(i, j):
    return var('M', i, j)


def positive(ex, j):
    return B(cmp_real(ex.ctx, '>', M(j, j), ZERO))


class Found(Invariant):
    """after i rows: vars lists exactly the indices below i with a positive diagonal entry, in increasing order"""
    def __init__(self, lv, n):
        self.lv, self.n, self.state = lv, n, 0

    def havoc(self, ex, s):
        self.v = z3.Function('v', z3.IntSort(), z3.IntSort())
        self.W = z3.Function('W', z3.IntSort(), z3.IntSort())
        self.k = ex.int('found', 0)
        ex.store(self.lv, Vec(self.k, lambda k: isimp(self.v(I(k))), 'int'))
        s['i'] = ex.int('row')
        ex.assume(z3.And(s['i'] >= 0, s['i'] <= I(self.n)))
        self.state = 1

    def props(self, ex, s):
        i, vec = I(s['i']), ex.rv(self.lv)
        if self.state == 0:
            return [('starts at the first row', cmpi('==', i, 0)), ('starts empty', cmpi('==', vec.n, 0))]
        j, k, l = z3.Ints('?j ?k ?l')
        at = lambda k: I(vec.at(k))
        n = I(vec.n)
        W = self.W
        if self.state == 2:
            W = lambda j: z3.If(j == i - 1, I(self.k), self.W(j))
        self.state = 2
        return [('every listed index has a positive diagonal entry', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < n), z3.And(0 <= at(k), at(k) < i, positive(ex, at(k)))))),
                ('increasing', z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < n), at(k) < at(l)))),
                ('complete', z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < i, positive(ex, j)), z3.And(0 <= W(j), W(j) < n, at(W(j)) == j))))]


def has_quantifier(f):
    st, seen = [f], set()
    while st:
        x = st.pop()
        if z3.is_quantifier(x):
            return True
        if z3.is_expr(x) and x.get_id() not in seen:
            seen.add(x.get_id())
            st += x.children()
    return False


def selection(ex, v, n):
    at = lambda k: v.at(k)
    c, ex.ctx = ex.ctx, ex.ctx.child([])
    j = ex.int('j', 0)
    ex.assume(j < n)
    k = z3.Int('?k')
    ex.oblige('exactly the variables with a positive diagonal entry',
              z3.Implies(positive(ex, j), z3.Exists([k], z3.And(0 <= k, k < I(v.n), I(at(k)) == j))))
    ex.oblige('only those', z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < I(v.n)), z3.And(0 <= I(at(k)), I(at(k)) < n, positive(ex, I(at(k)))))))
    l = z3.Int('?l')
    ex.oblige('without repetition', z3.ForAll([k, l], z3.Implies(z3.And(0 <= k, k < l, l < I(v.n)), I(at(k)) != I(at(l)))))
    ex.ctx = c


class Filled(Invariant):
    """the entries visited so far hold the symmetric part of the submatrix"""
    def __init__(self, found, Y, inner):
        self.found, self.Y, self.inner, self.outer = found, Y, inner, None

    def init(self, ex, s):
        if self.inner:
            return
        # the selection is complete here; from now on only the range of the listed indices matters
        self.found.final = ex.rv(self.found.lv)
        selection(ex, self.found.final, self.found.n)
        k = z3.Int('?k')
        v = self.found.v
        simple = [f for f in ex.ctx.facts if not has_quantifier(f)]
        ex.ctx = T.Ctx(simple + [z3.ForAll([k], z3.Implies(z3.And(0 <= k, k < self.found.k), z3.And(0 <= v(k), v(k) < I(self.found.n))))])

    def want(self, a, b):
        v = self.found.v
        a, b = v(I(a)), v(I(b))
        return (M(a, b) + M(b, a)) * const(Fraction(1, 2))

    def mask(self, a, b, row, col):
        m = z3.Or(I(a) < row, I(b) < row)
        if col is not None:
            m = z3.Or(m, z3.And(I(a) == row, I(b) < col), z3.And(I(b) == row, I(a) < col))
        return m

    def pos(self, s):
        return (I(s['row']), I(s['col']) if self.inner else None)

    def havoc(self, ex, s):
        nm = fresh_name('Yold')
        k = self.found.k
        if self.inner:
            s['col'] = s.i
        else:
            s['row'] = s.i
        p = self.pos(s)
        ex.store(self.Y, Mat(k, k, lambda a, b: T.ite(self.mask(a, b, *p), self.want(a, b), var(nm, a, b))))
        self.start = True

    def props(self, ex, s):
        p = self.pos(s)
        m, k = ex.rv(self.Y), self.found.k
        out = [('position', cmpi('==', p[1] if self.inner else p[0], s.i))]
        if not getattr(self, 'start', False):
            out.append(('filled so far', ('eq', Mat(k, k, lambda a, b: T.ite(self.mask(a, b, *p), m.at(a, b), ZERO)),
                                          Mat(k, k, lambda a, b: T.ite(self.mask(a, b, *p), self.want(a, b), ZERO)))))
        self.start = False
        return out


@contract('C12', 'NonZeroSubMat', [CAPI])
def submat(ex):
    n = ex.int('n', 0)
    vs = ex.new(ex.ivec('old', ex.int('nold', 0)), 'vars')
    Y = ex.new(ex.mat('Y0', ex.int('r', 0), ex.int('c', 0)), 'Y')
    inv = Found(vs, n)
    ex.invariants[('NonZeroSubMat', 0)] = inv
    ex.invariants[('NonZeroSubMat', 1)] = Filled(inv, Y, False)
    ex.invariants[('NonZeroSubMat', 2)] = Filled(inv, Y, True)
    r = ex.run('NonZeroSubMat', [ex.mat('M', n, n), ptr(vs), ptr(Y)])
    ex.oblige('does not throw', r[0] == 'ret')
    v = ex.rv(vs)
    at = lambda k: v.at(k)
    ex.oblige_eq('the symmetric part of the submatrix', ex.rv(Y), Mat(v.n, v.n, lambda a, b: (M(at(a), at(b)) + M(at(b), at(a))) * const(Fraction(1, 2))))
    ex.oblige('the list of variables is final', v is inv.final)


@contract('C12', 'CONEX_AddQuadraticCost', [CAPI])
def addcost(ex):
    prog, N = prog_state(ex)
    calls, u = adding(ex, prog, N, 'Program::AddQuadraticCost')
    nul = ex.choose('null program')
    n, k = ex.int('n', 0), ex.int('k', 0)
    vs = ex.ivec('found', k)

    def sub(ex_, this, args):
        ex.oblige_eq('the given matrix', value(ex, args[0]), Mat(n, n, lambda i, j: var('M', iadd(imul(j, n), i))))
        ex.store(args[1].lv if isinstance(args[1], Ptr) else ex.rv(args[1]).lv, vs)
        ex.store(args[2].lv if isinstance(args[2], Ptr) else ex.rv(args[2]).lv, ex.mat('Q', k, k))
    ex.contracts['NonZeroSubMat'] = sub
    r = ex.run('CONEX_AddQuadraticCost', [Ptr(None, True) if nul else ptr(prog), memory(ex, 'M', imul(n, n)), n, n])
    ok = not nul and ex.decide(u)
    outcome(ex, r, prog, N, calls, ok)
    if not nul:
        ex.oblige('one attempt', len(calls) == 1)
        ex.oblige_eq('the submatrix', calls[0][0], ex.mat('Q', k, k))
        vec_eq(ex, 'on its variables', calls[0][1], k, lambda j: vs.at(j))


# ---- results
@contract('C12', 'CONEX_GetIterationStats', [CAPI])
def stats(ex):
    nul, nostats, nout = ex.choose('null program'), ex.choose('no statistics'), ex.choose('null output')
    n, it, mx = ex.int('num_iter', 0), ex.int('iteration'), ex.int('max_iter', 0)
    ex.assume(n <= mx)
    ini = ex.bool('statistics initialised')
    rec = ex.find_rec('conex::WorkspaceStats')
    sm = ex.new(Vec(mx, lambda k: var('sqrt_inv_mu', k), 'double'), 'sqrt_inv_mu')
    fs = {f: Opaque(f) for f, _, _ in ex.rec_fields(rec)}
    fs.update(num_iter=n, sqrt_inv_mu=Ptr(sm / ('at', 0), False))
    st = ex.new(Struct(rec['qual'], fs), 'stats')
    ex.contracts['WorkspaceStats::IsInitialized'] = lambda ex_, this, a: ini
    prog = program(ex, ex.int('N', 0), stats=Ptr(None, True) if nostats else ptr(st))
    out = ex.new(Struct('CONEX_IterationStats', {'mu': var('mu0'), 'iteration_number': ex.int('it0')}), 'out')
    r = ex.run('CONEX_GetIterationStats', [Ptr(None, True) if nul else ptr(prog), Ptr(None, True) if nout else ptr(out), it])
    ex.oblige('does not throw', r[0] == 'ret')
    o = ex.rv(out)
    want = n + it if ex.decide(it < 0) else it
    if not (nul or nostats or nout) and ex.decide(z3.And(ini, want >= 0, want < n)):
        ex.oblige('the iteration (counted from the end when negative)', eqi(o.fs['iteration_number'], want))
        s = var('sqrt_inv_mu', isimp(want))
        ex.oblige_eq('its barrier parameter', o.fs['mu'], T.div(const(1), s * s) if hasattr(T, 'div') else const(1) / (s * s))
    else:
        ex.oblige('nothing is written', eqi(o.fs['iteration_number'], ex.int('it0')))
        ex.oblige_eq('nothing is written (mu)', o.fs['mu'], var('mu0'))
