"""C11: incremental updates set exactly the addressed entry or report failure."""
from common import *
from c05 import herm, hcomp, herm_fn

ASSUMPTIONS = ['class invariants: A has one row per row of c (linear, second-order), Hermitian data is Hermitian']


def eqi(a, b):
    return cmpi('==', a, b)


def both(*cs):
    return z3.And(*[B(c) for c in cs])


def entry(old, hits):
    """old, except val at the listed positions"""
    def f(i, j):
        x = old(i, j)
        for (r, c), v in hits:
            x = T.ite(both(eqi(i, r), eqi(j, c)), v, x)
        return x
    return f


def same_rest(ex, o, before, data):
    """no other member of the constraint changes"""
    after = ex.rv(o)
    ex.oblige('other members are unchanged', all(after.fs[f] is before[f] or f in data for f in before))


def call(ex, fn, o, args, valid):
    """(accepted, state before)"""
    before = dict(ex.rv(o).fs)
    ok = ex.decide(valid)
    f, kw = (fn[0], {'pred': by_type(fn[1])}) if isinstance(fn, tuple) else (fn, {})
    r = ex.run(f, [ptr(o), var('val')] + args, **kw)
    ex.oblige('does not throw', r[0] == 'ret')
    v = r[1] if r[0] == 'ret' else True
    ex.oblige('success (0) for a valid tuple, failure otherwise', eqi(v, 0) if ok and not isinstance(v, bool) and not z3.is_bool(v)
              else (z3.Not(B(v)) if ok else B(v)))
    return ok, before


ARGS = 'var r c dim'.split()


def ints(ex, names):
    return [ex.int(x) for x in names]


@contract('C11', 'Linear.UpdateLinearOperator', [LC])
def lin_op(ex):
    n, m = ex.int('n', 0), ex.int('m', 0)
    o = linear(ex, n, m)
    v, r, c, d = ints(ex, ARGS)
    ok, b = call(ex, ('conex::UpdateLinearOperator', 'LinearConstraint *'), o, [v, r, c, d],
                 both(r >= 0, r < n, v >= 0, v < m, c == 0, d == 0))
    A = lambda i, j: var('A', i, j)
    ex.oblige_eq('operator', ex.rv(o / ('f', 'constraint_matrix_')), Mat(n, m, entry(A, [((r, v), var('val'))] if ok else [])))
    ex.oblige_eq('affine term', ex.rv(o / ('f', 'constraint_affine_')), ex.vec('c', n))
    same_rest(ex, o, b, ('constraint_matrix_',))


@contract('C11', 'Linear.UpdateAffineTerm', [LC])
def lin_aff(ex):
    n, m = ex.int('n', 0), ex.int('m', 0)
    o = linear(ex, n, m)
    r, c, d = ints(ex, ARGS[1:])
    ok, b = call(ex, ('conex::UpdateAffineTerm', 'LinearConstraint *'), o, [r, c, d],
                 both(r >= 0, r < n, c == 0, d == 0))
    C = lambda i, j: var('c', i)
    ex.oblige_eq('affine term', ex.rv(o / ('f', 'constraint_affine_')), Mat(n, 1, entry(C, [((r, 0), var('val'))] if ok else [])))
    ex.oblige_eq('operator', ex.rv(o / ('f', 'constraint_matrix_')), ex.mat('A', n, m))
    same_rest(ex, o, b, ('constraint_affine_',))


@contract('C11', 'SOC.UpdateLinearOperator', [SOC])
def soc_op(ex):
    n, m = ex.int('n', 0), ex.int('m', 0)
    empty = ex.choose('no data yet')          # constructed from the order only
    o, _ = soc(ex, n, m)
    if empty:
        ex.assume(m == 0)
        ex.store(o / ('f', 'constraint_matrix_'), ex.mat('A', 0, 0))
    v, r, c, d = ints(ex, ARGS)
    ok, b = call(ex, ('conex::UpdateLinearOperator', 'SOCConstraint *'), o, [v, r, c, d],
                 both(r >= 0, r <= n, v >= 0, c == 0, d == 0))
    got = ex.rv(o / ('f', 'constraint_matrix_'))
    if not ok:
        ex.oblige_eq('operator unchanged', got, ex.mat('A', 0 if empty else iadd(n, 1), m))
    else:
        cols = z3.If(v < m, m, v + 1)
        A = lambda i, j: T.ite(B(cmpi('<', j, m)), var('A', i, j), ZERO)
        ex.oblige_eq('operator, extended with zeros', got, Mat(iadd(n, 1), cols, entry(A, [((r, v), var('val'))])))
    same_rest(ex, o, b, ('constraint_matrix_',))


@contract('C11', 'SOC.UpdateAffineTerm', [SOC])
def soc_aff(ex):
    n, m = ex.int('n', 0), ex.int('m', 0)
    empty = ex.choose('no data yet')
    o, _ = soc(ex, n, m)
    if empty:
        ex.store(o / ('f', 'constraint_affine_'), ex.mat('c', 0, 0))
    r, c, d = ints(ex, ARGS[1:])
    ok, b = call(ex, ('conex::UpdateAffineTerm', 'SOCConstraint *'), o, [r, c, d],
                 both(r >= 0, r <= n, c == 0, d == 0))
    got = ex.rv(o / ('f', 'constraint_affine_'))
    if not ok:
        ex.oblige_eq('affine term unchanged', got, ex.mat('c', 0, 0) if empty else ex.vec('c', iadd(n, 1)))
    else:
        C = lambda i, j: ZERO if empty else var('c', i)
        ex.oblige_eq('affine term', got, Mat(iadd(n, 1), 1, entry(C, [((r, 0), var('val'))])))
    same_rest(ex, o, b, ('constraint_affine_',))


@contract('C11', 'QuadraticFunction.UpdateAffineTerm', [COST])
def quad(ex):
    n, m = ex.int('n', 0), ex.int('m', 0)
    o = ex.new(fresh_struct(ex, 'conex::QuadraticFunction', 'o', A_=ex.mat('A', n, m)), 'o')
    r, c, d = ints(ex, ARGS[1:])
    ok, b = call(ex, ('conex::UpdateAffineTerm', 'QuadraticFunction *'), o, [r, c, d],
                 both(r >= 0, r < n, c >= 0, c < m, d == 0))
    A = lambda i, j: var('A', i, j)
    ex.oblige_eq('cost matrix', ex.rv(o / ('f', 'A_')), Mat(n, m, entry(A, [((r, c), var('val'))] if ok else [])))
    same_rest(ex, o, b, ('A_',))


# ---- Hermitian constraints over R, C, H, O
def dims(ex, N):
    """the component index: below range, each component, above range"""
    for k in range(N):
        if ex.choose('component %d' % k):
            return k
    d = ex.int('dim')
    ex.assume(z3.Or(d < 0, d >= N))
    return d


def mirror(d, r, c, val):
    return [((c, r), val if d == 0 else -val), ((r, c), val)]


def setup(ex, N):
    n, m = ex.int('n', 1), ex.int('m', 0)
    o = herm(ex, N, n, m)
    d = dims(ex, N)
    r, c = ints(ex, ['r', 'c'])
    inb = both(r >= 0, r < n, c >= 0, c < n)
    diag = B(land(eqi(r, c), isinstance(d, int) and d > 0)) if isinstance(d, int) else z3.BoolVal(False)
    if ex.decide(both(inb, diag)):
        ex.decide(B(cmp_real(ex.ctx, '==', var('val'), ZERO)))
        good = B(cmp_real(ex.ctx, '==', var('val'), ZERO))
    else:
        good = z3.BoolVal(isinstance(d, int))
    return n, m, o, d, r, c, both(inb, good)


def check_comps(ex, name, v, N, n, f):
    for k, M in enumerate([ex.rv(v.at(k)) for k in range(N)]):
        ex.oblige_eq('%s, component %d' % (name, k), M, Mat(n, n, f(k)))


def herm_contracts(N):
    A = lambda i: hcomp('A', N, (i,))

    @contract('C11', 'Hermitian<%d>.UpdateLinearOperator' % N, [HERM, JORDAN])
    def op(ex):
        n, m, o, d, r, c, good = setup(ex, N)
        v = ex.int('var')
        ok, b = call(ex, herm_fn(ex, N, '::UpdateLinearOperator'), o, [v, r, c, d], both(good, v >= 0))
        got = ex.rv(o / ('f', 'constraint_matrices_'))
        k = ex.int('k', 0)
        if not ok:
            ex.oblige('number of variables unchanged', eqi(got.n, m))
            ex.assume(k < m)
            check_comps(ex, 'matrices unchanged', ex.rv(got.at(k)), N, n, lambda q: A(k)[q])
        else:
            cnt = z3.If(v < m, m, v + 1)
            ex.oblige('one matrix per variable up to the addressed one', eqi(got.n, cnt))
            ex.assume(k < cnt)
            hit = ex.decide(k == v)
            old = ex.decide(k < m)
            kk = v if hit else k

            def want(q):
                base = A(kk)[q] if old else (lambda i, j: ZERO)
                return entry(base, mirror(d, r, c, var('val'))) if hit and q == d else base
            check_comps(ex, 'matrix %s' % ('of the addressed variable' if hit else 'of another variable'), ex.rv(got.at(kk)), N, n, want)
        same_rest(ex, o, b, ('constraint_matrices_',))

    @contract('C11', 'Hermitian<%d>.UpdateAffineTerm' % N, [HERM, JORDAN])
    def aff(ex):
        n, m, o, d, r, c, good = setup(ex, N)
        empty = ex.choose('no affine term yet')
        if empty:
            ex.store(o / ('f', 'constraint_affine_'), Vec(0, lambda k: None, 'Eigen::Matrix<double, -1, -1>'))
        ok, b = call(ex, herm_fn(ex, N, '::UpdateAffineTerm'), o, [r, c, d], good)
        got = ex.rv(o / ('f', 'constraint_affine_'))
        if empty and not ok:
            ex.oblige('affine term unchanged', eqi(got.n, 0))
        else:
            ex.oblige('all components present', eqi(got.n, N))
            base = (lambda q: (lambda i, j: ZERO)) if empty else (lambda q: hcomp('c', N)[q])
            check_comps(ex, 'affine term', got, N, n,
                        lambda q: entry(base(q), mirror(d, r, c, var('val'))) if ok and q == d else base(q))
        same_rest(ex, o, b, ('constraint_affine_',))


for N in (1, 2, 4, 8):
    herm_contracts(N)


# ---- a constraint of a program; type erasure; C interface
def dispatch(ex, name, nargs, calls):
    """contract of the update of one constraint: an arbitrary status depending on the constraint and the indices"""
    f = z3.Function(name, *([z3.IntSort()] * (nargs + 1)), z3.BoolSort())

    def upd(ex_, this, args):
        k = constraint_id(ex, args[0])
        if k is None:
            return NotImplemented
        ex.oblige_eq('the value is forwarded', ex.rv(args[1]), var('val'))
        ex.store(calls, iadd(ex.rv(calls), 1))
        return f(I(k), *[I(ex.rv(a)) for a in args[2:]])
    ex.contracts['conex::' + name] = upd
    return f


def program_contract(fn, upd, idx):
    @contract('C11', 'Program.' + fn, [CP])
    def p(ex):
        N, i = ex.int('N', 0), ex.int('i')
        calls = ex.new(0, 'ghost: number of updates')
        f = dispatch(ex, upd, len(idx), calls)
        prog = program(ex, N)
        inside = ex.decide(both(i >= 0, i < N))
        args = [ex.int(x) for x in idx]
        r = ex.run('conex::Program::' + fn, [i, var('val')] + args, this=prog)
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('exactly the addressed constraint is updated', eqi(ex.rv(calls), 1 if inside else 0))
        v = r[1]
        v = B(v) if is_bool(v) else B(cmpi('!=', v, 0))
        ex.oblige('the status of the update is returned' if inside else 'failure for an invalid constraint number',
                  v == f(i, *args) if inside else v)


IDX = 'variable row col dim'.split()
program_contract('UpdateLinearOperatorOfConstraint', 'UpdateLinearOperator', IDX)
program_contract('UpdateAffineTermOfConstraint', 'UpdateAffineTerm', IDX[1:])


def capi_contract(fn, callee, idx, extra):
    @contract('C11', fn, [CAPI])
    def p(ex):
        N, i = ex.int('N', 0), ex.int('constraint')
        calls = ex.new(0, 'ghost: number of updates')
        f = z3.Function(callee, *([z3.IntSort()] * (len(idx) + len(extra) + 1)), z3.IntSort())

        def upd(ex_, this, args):
            ex.oblige_eq('the value is forwarded', ex.rv(args[1]), var('val'))
            ex.store(calls, iadd(ex.rv(calls), 1))
            ix = [I(ex.rv(a)) for a in [args[0]] + args[2:]]
            ex.assume(z3.Implies(z3.Or(ix[0] < 0, ix[0] >= N), f(*ix) != 0))
            return f(*ix)
        ex.contracts['Program::' + callee] = upd
        # workspaces: none before initialisation, then two per constraint (at that time) and two
        init = ex.choose('initialized')
        nws = ex.int('nws', 0)
        prog = program(ex, N, is_initialized=init, workspaces=Vec(nws, lambda k: Opaque('workspace')))
        ex.assume(nws <= 2 * N + 2 if init else nws == 0)
        inside = ex.decide(both(i >= 0, i < N))
        null = ex.choose('null program')
        args = [ex.int(x) for x in idx]
        r = ex.run(fn, [Ptr(None, True) if null else ptr(prog), i, var('val')] + args)
        ex.oblige('does not throw', r[0] == 'ret')
        if inside and not null:
            ex.oblige('one update', eqi(ex.rv(calls), 1))
            ex.oblige('the status of the update is returned', eqi(r[1], f(i, *args, *[z3.IntVal(x) for x in extra])))
        else:
            ex.oblige('failure', cmpi('!=', r[1], 0))


capi_contract('CONEX_UpdateLinearOperator', 'UpdateLinearOperatorOfConstraint', ['variable', 'row', 'col', 'dim'], [])
capi_contract('CONEX_UpdateAffineTerm', 'UpdateAffineTermOfConstraint', ['row', 'col', 'dim'], [])
capi_contract('CONEX_UpdateQuadraticCostMatrix', 'UpdateAffineTermOfConstraint', ['row', 'col'], [0])


def forward(fn, callee, idx):
    @contract('C11', 'Constraint.' + callee, [CAPI, CP])
    def p(ex):
        """type erasure: the friend function calls the model, the model the implementation's function, with the same arguments"""
        found = {}
        for tu in ex.tus:
            for q, l in tu.funcs.items():
                if 'Constraint::Model<' in q and q.endswith('::' + fn):
                    for f in l:
                        if cast.has_body(f) and q not in found:
                            f['_tu'] = tu
                            found[q] = f
        if not found:
            raise cast.ExtractError('no ' + fn)
        names = sorted(found)
        for q in names[:-1]:
            if ex.choose(q):
                break
        else:
            q = names[-1]
        impl = q.split('Model<', 1)[1].rsplit('>::', 1)[0]
        data = ex.new(Struct(impl, {}), 'data')
        calls = ex.new(0, 'ghost: number of updates')
        f = z3.Function(callee, *([z3.IntSort()] * len(idx)), z3.BoolSort())
        args = [ex.int(x) for x in idx]

        def upd(ex_, this, a):
            if value(ex, a[0]).t != impl:
                return NotImplemented
            ex.oblige_eq('%s: the value is forwarded' % impl, ex.rv(a[1]), var('val'))
            ex.store(calls, iadd(ex.rv(calls), 1))
            return f(*[I(ex.rv(x)) for x in a[2:]])
        ex.contracts['conex::' + callee] = upd
        model = ex.new(Struct(q.rsplit('::', 1)[0], {'data': ptr(data)}), 'model')
        r = ex.run(found[q], [var('val')] + args, this=model)
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('%s: one update' % impl, eqi(ex.rv(calls), 1))
        ex.oblige('%s: same arguments, status returned' % impl, B(r[1]) == f(*args))

    @contract('C11', 'Constraint.%s.erased' % callee, [CP])
    def e(ex):
        f = z3.Function(callee, *([z3.IntSort()] * len(idx)), z3.BoolSort())
        calls = ex.new(0, 'ghost: number of updates')
        args = [ex.int(x) for x in idx]

        def upd(ex_, this, a):
            ex.oblige_eq('the value is forwarded', ex.rv(a[0]), var('val'))
            ex.store(calls, iadd(ex.rv(calls), 1))
            return f(*[I(ex.rv(x)) for x in a[1:]])
        ex.contracts['Concept::' + fn] = upd
        m = ex.new(Struct('conex::Constraint::Concept', {}), 'model')
        o = ex.new(Struct('conex::Constraint', {'model': ptr(m)}), 'o')
        r = ex.run('conex::' + callee, [ptr(o), var('val')] + args, pred=by_type('(Constraint *'))
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('one update', eqi(ex.rv(calls), 1))
        ex.oblige('same arguments, status returned', B(r[1]) == f(*args))


forward('do_update_linear_operator', 'UpdateLinearOperator', IDX)
forward('do_update_affine_term', 'UpdateAffineTerm', IDX[1:])


def unsupported(callee, t, idx, specs=(CAPI, CP)):
    @contract('C11', '%s.%s' % (t, callee), list(specs))
    def p(ex):
        """constraints without updates: failure"""
        o = ex.new(Struct('conex::' + t, {}), 'o')
        r = ex.run('conex::' + callee, [ptr(o), var('val')] + [ex.int(x) for x in idx], pred=by_type(t + ' *'))
        ex.oblige('does not throw', r[0] == 'ret')
        ex.oblige('failure', B(r[1]))
        ex.oblige('nothing is written', not ex.rv(o).fs)


for t in ('EqualityConstraints', 'DenseLMIConstraint'):
    unsupported('UpdateLinearOperator', t, IDX)
    unsupported('UpdateAffineTerm', t, IDX[1:])
unsupported('UpdateLinearOperator', 'QuadraticFunction', IDX, (COST,))
